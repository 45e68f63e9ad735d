// E11 - the answer does not depend on the encoding: negating costs and direction, renaming labels in order, the container the label
// generator returns, scaling costs by a power of two or the hash function leave the search unchanged (up to the encoding).
// Oracle: metamorphic - the same search on the re-encoded model.
#include "engine.hpp"
using namespace eng;
static MP mirror(const MP& m) {
   auto r = std::make_shared<Model>(*m); r->minimize = !m->minimize;
   for (auto& v : r->arcs) for (auto& a : v) a.cost = -a.cost;
   for (auto& v : r->V) v = -v;
   return r;
}
static MP scale(const MP& m,double f) {
   auto r = std::make_shared<Model>(*m);
   for (auto& v : r->arcs) for (auto& a : v) a.cost *= f;
   for (auto& v : r->V) if (v != m->none()) v *= f;
   for (auto& v : r->slackD) v *= f;
   for (auto& v : r->slackB) v *= f;
   r->deadEst *= f;
   return r;
}
template <class F> static MP relabel(const MP& m,F f) {
   auto r = std::make_shared<Model>(*m); r->allLabels = GNSet(); r->maxLabel = 0;
   for (auto& v : r->arcs) for (auto& a : v) { a.lbl = f(a.lbl); r->allLabels.insert(a.lbl); r->maxLabel = std::max(r->maxLabel,a.lbl); }
   return r;
}
template <class LG> static AbstractDD::Ptr withLabels(MP m,LG lg) { return m->minimize ? makeWith<Minimize<double>>(m,nullptr,lg) : makeWith<Maximize<double>>(m,nullptr,lg);}
struct Tr { std::vector<Sol> sols; double fin; };
static Tr run(AbstractDD::Ptr dd,unsigned w) {
   Tr t; Bounds b; b.onSolution([&](const std::vector<int>& l) { t.sols.push_back({l,b.getPrimal()});});
   Quiet q; BAndB e(dd,w); e.search(b); t.fin = b.getPrimal(); return t;
}
template <class FL,class FV> static void same(const Tr& a,const Tr& b,FL fl,FV fv,const std::string& what,const std::string& tail) {
   REQUIRE(fv(a.fin) == b.fin,what << ": the search ends with " << b.fin << " instead of " << fv(a.fin) << tail);
   REQUIRE(a.sols.size() == b.sols.size(),what << ": " << b.sols.size() << " solutions instead of " << a.sols.size() << tail);
   for (std::size_t i = 0;i < a.sols.size();i++) {
      REQUIRE(fv(a.sols[i].primal) == b.sols[i].primal,what << ": solution #" << i << " is worth " << b.sols[i].primal << " instead of " << fv(a.sols[i].primal) << tail);
      auto l = a.sols[i].labels; for (auto& x : l) x = fl(x);
      REQUIRE(l == b.sols[i].labels,what << ": solution #" << i << " is " << str(b.sols[i].labels) << " instead of " << str(l) << tail);
   }
}
static void check(Src& s,Case& c,MP m,Size z) {
   const unsigned w = drawWidth(s,z);
   describe(c,*m); c.print(w); c.note(PBT_STR(" width=" << w));
   const std::string tail = PBT_STR(" (width " << w << ") :: " << m->show());
   auto id = [](int x) { return x;}; auto vid = [](double v) { return v;};
   auto t = run(makeDD(m),w);
   switch (s.draw(6)) {
      case 0: { c.label("mirror"); same(t,run(makeDD(mirror(m)),w),id,[](double v) { return -v;},"negated costs and direction",tail); break; }
      case 1: { c.label("relabel"); int mul = s.range(1,4),add = s.range(0,130); auto f = [mul,add](int x) { return x * mul + add;};
                same(t,run(makeDD(relabel(m,f)),w),f,vid,PBT_STR("labels x -> " << mul << "x+" << add),tail); break; }
      case 2: { if (m->maxLabel >= 1024) return; c.label("NatSet labels");
                std::function<NatSet<16>(const TS&)> lg = [m](const TS& a) { NatSet<16> r; for (auto l : labelsOf(*m,a)) r.insert(l); return r;};
                same(t,run(withLabels(m,lg),w),id,vid,"labels given as a NatSet",tail); break; }
      case 3: { if (m->maxLabel >= 2000) return; c.label("Range labels"); const bool back = s.coin();   // a superset: transitions that do not exist are refused
                std::function<Range(const TS&)> lg = [m,back](const TS& a) { auto v = labelsOf(*m,a); if (v.empty()) return Range::open(0,0); auto r = Range::close(v.front(),v.back()); return back ? Range::close(v.back(),v.front()) : r;};
                same(t,run(withLabels(m,lg),w),id,vid,back ? "labels given as a descending Range" : "labels given as a Range",tail); break; }
      case 4: { c.label("scale"); double f = s.pick(std::vector<double>{2,0.5,64,0.0625}); if (m->big && f > 1) f = 1 / f; same(t,run(makeDD(scale(m,f)),w),id,[f,m](double v) { return v == m->sentinel() ? v : v * f;},PBT_STR("costs times " << f),tail); break; }
      default: { c.label("hash"); auto r = std::make_shared<Model>(*m); r->hashMode = (m->hashMode + 1 + (int)s.draw(2)) % 3; same(t,run(makeDD(r),w),id,vid,PBT_STR("hash function " << m->hashMode << " -> " << r->hashMode),tail); break; }
   }
   c.nontrivial = !t.sols.empty();
   if (t.sols.size() > 1) c.label("2+ solutions");
}
#define R "the search reported at least one solution"
PROPERTY(tiny,R,8000,250000,1000,12000,60) { check(s,c,genModel(s,sizeOpt(Tiny)),Tiny); }
PROPERTY(medium,R,6000,150000,600,8000,40) { check(s,c,genModel(s,sizeOpt(Medium)),Medium); }
PROPERTY(deep,R,8000,250000,1000,12000,40) { check(s,c,genModel(s,sizeOpt(Deep)),Deep); }
PROPERTY(wide,R,120,3000,12,120,2) { check(s,c,genModel(s,sizeOpt(Wide)),Wide); }
PBT_MAIN
