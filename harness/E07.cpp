// E07 - the cutset of a relaxed diagram is a complete, exact frontier: every node is a real state reached by its own labels at its own
// bound; the best solution below the root is found among {solutions already reported, completions of cutset nodes}; and the
// value announced for a cutset node never hides a completion that could still improve.
#include "engine.hpp"
using namespace eng;
static void judge(const Model& m,AbstractDD::Ptr dd,Bounds& b,double best,double prim0,const std::string& tail,Case& c,std::vector<ANode::Ptr>* out) {
   auto cs = dd->computeCutSet();
   const double prim = b.getPrimal();
   double got = prim; std::set<int> seen;
   for (auto n : cs) {
      const auto& st = stateOf(n);
      REQUIRE(st.m.size() == 1,"a cutset node holds the merged state " << st << tail);
      REQUIRE(n->isExact(),"a cutset node is not exact: " << st << tail);
      const int x = st.m[0];
      REQUIRE(x != m.sink,"the sink is in the cutset" << tail);
      REQUIRE(seen.insert(x).second,"state " << st << " is twice in the cutset" << tail);
      std::vector<int> l(n->beginOptLabels(),n->endOptLabels()); double cost = 0;
      REQUIRE(m.walk(l,cost) == x,"the labels " << str(l) << " of cutset node " << st << " do not lead there" << tail);
      REQUIRE(cost == n->getBound(),"the labels " << str(l) << " of cutset node " << st << " cost " << cost << " but its bound is " << n->getBound() << tail);
      const double V = m.V[(std::size_t)x];
      if (V == m.none()) continue;
      const double tot = n->getBound() + V;
      if (m.better(tot,got)) got = tot;
      if (m.better(tot,prim)) {
         REQUIRE(!m.better(tot,n->getBound() + n->getBackwardBound()),"cutset node " << st << " announces " << n->getBound() + n->getBackwardBound() << " but completes at " << tot << tail);
         c.label("improving cutset node");
      }
   }
   if (best != m.none() && m.better(best,prim0))
      REQUIRE(got == best,"the best below the root is " << best << " but the reported solutions and the " << cs.size() << " cutset nodes only reach " << got << tail);
   if (cs.size() > 1) c.label("cutset>1");
   if (out) *out = cs;
}
static void check(Src& s,Case& c,MP m,Size z) {
   unsigned w = drawWidth(s,z);
   double prim = m->sentinel();
   if (m->feasible() && s.chance(1,3)) prim = m->minimize ? m->best() + s.range(1,24) / 4.0 : m->best() - s.range(1,24) / 4.0;
   describe(c,*m); c.print(w); c.note(PBT_STR(" width=" << w << " primal=" << prim));
   const std::string tail = PBT_STR(" (width " << w << ", primal " << prim << ") :: " << m->show());
   auto dd = makeDD(m); Bounds b(dd); b.setPrimal(prim);
   Relaxed st(w); dd->setStrategy(&st); Quiet q;
   auto r2 = dd->duplicate(); dd->apply(r2->init(),b);
   if (dd->isExact()) { c.label("exact"); return; }
   c.label("relaxed"); c.nontrivial = m->feasible();
   std::vector<ANode::Ptr> cs;
   judge(*m,dd,b,m->best(),prim,tail,c,&cs);
   // one and two steps further down, as the search does
   auto al = dd->makeNDAllocator(); std::vector<ANode::Ptr> open;
   for (auto n : cs) if (n != dd->getRoot()) { auto k = al->cloneNode(n); if (k) open.push_back(k); }
   for (std::size_t i = 0;i < open.size() && i < 8;i++) {
      auto n = open[i]; const int x = stateOf(n).m[0];
      const double V = m->V[(std::size_t)x], best = V == m->none() ? V : n->getBound() + V;
      st.setWidth(1 + s.draw(5));
      Bounds b2(dd); b2.setPrimal(s.coin() ? m->sentinel() : b.getPrimal()); const double p2 = b2.getPrimal();
      dd->apply(n,b2);
      if (dd->isExact()) continue;
      c.label("below a cutset node");
      std::vector<ANode::Ptr> cs2;
      judge(*m,dd,b2,best,p2,PBT_STR(" (width " << st.getWidth() << ", primal " << p2 << ", below cutset node " << stateOf(n) << ") " << tail),c,&cs2);
      for (auto k2 : cs2) if (k2 != dd->getRoot() && open.size() < 8) { auto k = al->cloneNode(k2); if (k) open.push_back(k); }
   }
}
#define R "the diagram was really relaxed and the model has a solution"
PROPERTY(tiny,R,16000,500000,2000,30000,60) { check(s,c,genModel(s,sizeOpt(Tiny)),Tiny); }
PROPERTY(medium,R,10000,250000,1000,12000,60) { check(s,c,genModel(s,sizeOpt(Medium)),Medium); }
PROPERTY(deep,R,16000,400000,1600,16000,60) { check(s,c,genModel(s,sizeOpt(Deep)),Deep); }
PROPERTY(wide,R,320,8000,32,320,4) { check(s,c,genModel(s,sizeOpt(Wide)),Wide); }
PROPERTY(absorb,R,8000,200000,800,8000,60) { check(s,c,genModel(s,sizeOpt(Absorb)),Absorb); }
PROPERTY(huge,R,48,1200,4,40,1) { check(s,c,genModel(s,sizeOpt(Huge)),Huge); }
PROPERTY(lengthy,R,1200,24000,60,600,8) { check(s,c,genModel(s,sizeOpt(Long)),Long); }
PBT_MAIN
