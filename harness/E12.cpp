// E12 - the user's functions are only called where the user defined them: labels of a non-sink state, transitions for generated labels,
// costs and only for transitions that exist, merges of two different non-sink states of one layer, dominance never on the sink, and the
// local bound with the context it is used in.
#include "engine.hpp"
using namespace eng;
static void check(Src& s,Case& c,MP m,Size z) {
   const unsigned w = drawWidth(s,z), mode = s.weighted({4,1,1,1});
   describe(c,*m); c.print(w * 4 + mode); c.note(PBT_STR(" width=" << w << " mode=" << mode));
   const std::string tail = PBT_STR(" (width " << w << ", mode " << mode << ") :: " << m->show());
   auto h = std::make_shared<Hooks>();
   std::map<std::vector<int>,std::set<int>> labels; std::set<std::pair<std::vector<int>,int>> ok; unsigned long nm = 0,nt = 0,nd = 0,nl = 0; std::set<std::vector<int>> made{{0}};
   auto isSink = [m](const TS& t) { return t.m.size() == 1 && t.m[0] == m->sink;};
   std::set<std::vector<int>> estimated; bool polled = false;   // the limit is polled once per node taken from the queue
   h->onExpand = [&](const TS& t) {
      if (polled && m->hasLocal) REQUIRE(estimated.count(t.m),"the search explores " << t << " without having asked its local bound in the search context" << tail);
      polled = false;
      REQUIRE(!isSink(t),"labels asked for the sink" << tail);
      REQUIRE(made.count(t.m),"labels asked for " << t << ", a state nothing produced" << tail);
      auto v = labelsOf(*m,t); labels[t.m] = std::set<int>(v.begin(),v.end());
   };
   h->onTransition = [&](const TS& t,int l,const std::optional<TS>& r) {
      ++nt;
      REQUIRE(labels.count(t.m) && labels[t.m].count(l),"transition asked for label " << l << " of " << t << ", which was not generated" << tail);
      if (r) { ok.insert({t.m,l}); made.insert(r->m); }
   };
   h->onCost = [&](const TS& t,int l,double) { REQUIRE(ok.count({t.m,l}),"cost asked for label " << l << " of " << t << ", which has no transition" << tail);};
   h->onMergeAsked = [&](const TS& a,const TS& b) {
      ++nm;
      REQUIRE(!isSink(a) && !isSink(b),"merge asked for the sink" << tail);
      REQUIRE(!(a == b),"merge asked for " << a << " with itself" << tail);
      REQUIRE(m->stage(a) == m->stage(b),"merge asked for " << a << " and " << b << ", states of different layers" << tail);
      REQUIRE(made.count(a.m) && made.count(b.m),"merge asked for a state nothing produced" << tail);
      REQUIRE(a.m != std::vector<int>{0} && b.m != std::vector<int>{0},"merge asked for the root state" << tail);
   };
   h->onMerge = [&](const TS&,const TS&,const TS& r) { made.insert(r.m);};
   h->onDom = [&](const TS& a,const TS& b,bool) { ++nd; REQUIRE(!isSink(a) && !isSink(b),"dominance asked for the sink" << tail); REQUIRE(made.count(a.m) && made.count(b.m),"dominance asked for a state nothing produced" << tail);};
   h->onLocal = [&](const TS& a,bool bb,double) { ++nl; if (bb) estimated.insert(a.m); REQUIRE(made.count(a.m),"local bound asked for a state nothing produced" << tail); if (mode != 0) REQUIRE(!bb,"local bound asked in the B&B context while compiling a diagram" << tail);  if (bb) REQUIRE(a.m.size() == 1,"local bound asked in the B&B context for the merged state " << a << tail);};
   auto dd = makeDD(m,h); Quiet q; Bounds b;
   if (mode == 0) { BAndB e(dd,w); e.setTimeLimit([&](double) { polled = true; return false;}); e.search(b); }
   else { b.attach(dd); Relaxed rl(w); Restricted rs(w); Exact ex; dd->setStrategy(mode == 1 ? (Strategy*)&rl : mode == 2 ? (Strategy*)&rs : (Strategy*)&ex); dd->compute(b); if (mode != 1) REQUIRE(nm == 0,"states merged outside a relaxed diagram" << tail); }
   c.nontrivial = nt > 3; if (nm) c.label("merges"); if (nd) c.label("dominance tests"); if (nl) c.label("local bounds");
}
#define R "more than three transitions were asked"
PROPERTY(tiny,R,10000,300000,1200,15000,60) { check(s,c,genModel(s,sizeOpt(Tiny)),Tiny); }
PROPERTY(medium,R,8000,200000,800,10000,40) { check(s,c,genModel(s,sizeOpt(Medium)),Medium); }
PROPERTY(deep,R,8000,200000,800,10000,40) { check(s,c,genModel(s,sizeOpt(Deep)),Deep); }
PROPERTY(wide,R,160,4000,16,160,2) { check(s,c,genModel(s,sizeOpt(Wide)),Wide); }
PBT_MAIN
