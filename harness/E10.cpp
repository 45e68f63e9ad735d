// E10 - the width is a real bound: no layer of a restricted or relaxed diagram expands more than `width` different states (relaxed: for
// models whose merge operator accepts every pair of states of a stage).
#include "engine.hpp"
using namespace eng;
static void check(Src& s,Case& c,MP m,Size z) {
   unsigned w = drawWidth(s,z); const bool relaxed = s.coin();
   describe(c,*m); c.print(w); c.label(relaxed ? "relaxed" : "restricted"); c.note(PBT_STR(" width=" << w << (relaxed ? " relaxed" : " restricted")));
   auto h = std::make_shared<Hooks>(); std::map<int,std::set<std::vector<int>>> seen; bool merged = false;
   h->onExpand = [&](const TS& t) { seen[m->stage(t)].insert(t.m);};
   h->onMerge = [&](const TS&,const TS&,const TS&) { merged = true;};
   auto dd = makeDD(m,h); Relaxed rl(w); Restricted rs(w); Quiet q;
   dd->setStrategy(relaxed ? (Strategy*)&rl : (Strategy*)&rs);
   auto al = dd->makeNDAllocator(); auto r2 = dd->duplicate(); std::vector<ANode::Ptr> open; open.push_back(al->cloneNode(r2->init()));
   bool full = false;
   for (std::size_t i = 0;i < open.size() && i < 4;i++) {
      seen.clear(); Bounds b(dd); dd->apply(open[i],b);
      for (auto& [d,st] : seen) {
         REQUIRE(st.size() <= w,"layer " << d << " of a " << (relaxed ? "relaxed" : "restricted") << " diagram of width " << w << " expanded " << st.size() << " states, below " << stateOf(open[i]) << " :: " << m->show());
         full |= st.size() == w && w > 1;
      }
      if (relaxed && !dd->isExact()) for (auto n : dd->computeCutSet()) if (n != dd->getRoot() && open.size() < 4) { auto k = al->cloneNode(n); if (k) open.push_back(k); }
      if (s.coin()) { w = 1 + s.draw(6); rl.setWidth(w); rs.setWidth(w); REQUIRE(rl.getWidth() == w && rs.getWidth() == w,"getWidth"); }
   }
   if (full) c.label("a layer is full"); c.nontrivial = full || merged;
}
static GenOpt opt(Size z) { auto g = sizeOpt(z); g.allowRefuse = false; return g;}
#define R "some layer reached the width, or states were merged"
PROPERTY(tiny,R,12000,400000,1500,20000,80) { check(s,c,genModel(s,opt(Tiny)),Tiny); }
PROPERTY(medium,R,10000,250000,1000,12000,60) { check(s,c,genModel(s,opt(Medium)),Medium); }
PROPERTY(deep,R,10000,250000,1000,12000,60) { check(s,c,genModel(s,opt(Deep)),Deep); }
PROPERTY(wide,R,480,12000,48,480,4) { check(s,c,genModel(s,opt(Wide)),Wide); }
PROPERTY(huge,R,48,1200,4,40,1) { check(s,c,genModel(s,opt(Huge)),Huge); }
PROPERTY(lengthy,R,1200,24000,60,600,8) { check(s,c,genModel(s,opt(Long)),Long); }
PBT_MAIN
