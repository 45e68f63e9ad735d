// E13 - the search is deterministic: the same model, width and bounds give the same callbacks in the same order, the same solutions and
// the same report (times aside), whatever the memory allocator hands out.
#include "engine.hpp"
using namespace eng;
struct Tr { std::vector<Sol> sols; double fin; std::string rep; uint64_t h = 1; unsigned long n = 0; };
static std::string strip(const std::string& o) { // everything but times
   std::istringstream is(o); std::string l,r;
   while (std::getline(is,l)) {
      if (l.rfind("TIME:",0) == 0 || l.rfind("B&B(",0) == 0) continue;
      auto a = l.find("Time:"); if (a != std::string::npos) { auto e = l.find('\t',a); l.erase(a,e == std::string::npos ? std::string::npos : e - a); }
      r += l + "\n";
   }
   return r;
}
static Tr run(MP m,unsigned w,std::optional<double> init,HP h,Tr& t) {
   t = Tr();
   auto add = [&t](const TS& a,int x) { for (auto v : a.m) t.h = pbt::mix(t.h ^ (uint64_t)v); t.h = pbt::mix(t.h ^ (uint64_t)(x + 77)); ++t.n;};
   h->onExpand = [add](const TS& a) { add(a,1);};
   h->onTransition = [add](const TS& a,int l,const std::optional<TS>&) { add(a,10 + l);};
   h->onMergeAsked = [add](const TS& a,const TS& b) { add(a,2); add(b,3);};
   h->onDom = [add](const TS& a,const TS& b,bool) { add(a,4); add(b,5);};
   h->onLocal = [add](const TS& a,bool b,double) { add(a,6 + b);};
   m->calls = 0;
   auto dd = makeDD(m,h);
   Bounds b; b.onSolution([&](const std::vector<int>& l) { t.sols.push_back({l,b.getPrimal()});}); if (init) b.setPrimal(*init);
   Capture q; BAndB e(dd,w); e.search(b); t.fin = b.getPrimal(); t.rep = strip(q.os.str());
   return t;
}
static void check(Src& s,Case& c,MP m,Size z) {
   const unsigned w = drawWidth(s,z);
   std::optional<double> init; if (m->feasible() && s.chance(1,4)) init = m->best() + s.range(-8,8) / 4.0;
   describe(c,*m); c.print(w); c.note(PBT_STR(" width=" << w));
   const std::string tail = PBT_STR(" (width " << w << ") :: " << m->show());
   auto h = std::make_shared<Hooks>(); Tr a,b;
   run(m,w,init,h,a);
   // disturb the allocator between the runs: fill patterns, holes, shifted addresses
   std::vector<void*> junk; const int nj = s.range(0,20);
   for (int i = 0;i < nj;i++) { std::size_t n = (std::size_t)s.range(16,5000); void* p = malloc(n); memset(p,0xC3 ^ i,n); junk.push_back(p); }
   for (std::size_t i = 0;i < junk.size();i += 2) { free(junk[i]); junk[i] = nullptr; }
#if !defined(PBT_SAN)
   mallopt(M_PERTURB,s.coin() ? 0x5A : 0xA5);
#endif
   run(m,w,init,h,b);
#if !defined(PBT_SAN)
   mallopt(M_PERTURB,0);
#endif
   for (auto p : junk) free(p);
   REQUIRE(a.fin == b.fin,"two runs end with " << a.fin << " and " << b.fin << tail);
   REQUIRE(a.sols.size() == b.sols.size(),"two runs report " << a.sols.size() << " and " << b.sols.size() << " solutions" << tail);
   for (std::size_t i = 0;i < a.sols.size();i++) REQUIRE(a.sols[i].labels == b.sols[i].labels && a.sols[i].primal == b.sols[i].primal,"solution #" << i << " differs between two runs: " << str(a.sols[i].labels) << " and " << str(b.sols[i].labels) << tail);
   REQUIRE(a.n == b.n && a.h == b.h,"the model was called " << a.n << " and " << b.n << " times, or in another order, by two runs" << tail);
   REQUIRE(a.rep == b.rep,"two runs print\n" << a.rep << "\nand\n" << b.rep << tail);
   c.nontrivial = a.n > 10; if (a.sols.size() > 1) c.label("2+ solutions");
}
#define R "the model was called more than ten times"
PROPERTY(tiny,R,4000,120000,500,6000,50) { check(s,c,genModel(s,sizeOpt(Tiny)),Tiny); }
PROPERTY(medium,R,4000,100000,400,5000,40) { check(s,c,genModel(s,sizeOpt(Medium)),Medium); }
PROPERTY(deep,R,6000,150000,600,8000,40) { check(s,c,genModel(s,sizeOpt(Deep)),Deep); }
PROPERTY(wide,R,160,4000,16,160,2) { check(s,c,genModel(s,sizeOpt(Wide)),Wide); }
PBT_MAIN
