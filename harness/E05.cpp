// E05 - a relaxed diagram over-approximates: its value is never worse than the best solution below its root, equals it when the
// diagram says it is exact, and a width not below the widest layer makes it exact.
#include "engine.hpp"
using namespace eng;
static int widest(const Model& m) { std::map<int,int> n; int w = 1; for (auto d : m.depth) w = std::max(w,++n[d]); return w;}
static void judge(const Model& m,AbstractDD::Ptr dd,double best,double prim,const std::string& tail,Case& c) {
   const double v = dd->currentOpt();
   const bool counts = best != m.none() && (!m.hasLocal || m.better(best,prim));  // local bounds may cut what cannot improve
   if (counts) REQUIRE(!m.better(best,v),"the relaxed bound " << v << " is worse than the optimum " << best << tail);
   if (dd->isExact()) {
      if (counts) {
         double cost = 0; auto inc = dd->incumbent();
         REQUIRE(v == best,"exact with value " << v << " but the optimum is " << best << tail);
         REQUIRE(m.replay(inc,cost) && cost == v,"exact, but its incumbent " << str(inc) << " is not a solution of value " << v << tail);
      } else if (best == m.none()) REQUIRE(v == m.sentinel(),"exact with value " << v << " but there is no solution" << tail);
      c.label("exact");
   } else { c.label("merged"); if (counts && v != best) c.label("strictly optimistic"); }
}
static void check(Src& s,Case& c,MP m,Size z) {
   unsigned w = drawWidth(s,z); const bool big = s.chance(1,6);
   if (big) w = (unsigned)widest(*m) + s.draw(3);
   double prim = m->sentinel();
   if (m->feasible() && s.chance(1,3)) prim = m->minimize ? m->best() + s.range(-12,24) / 4.0 : m->best() - s.range(-12,24) / 4.0;
   describe(c,*m); c.print(w); c.note(PBT_STR(" width=" << w << " primal=" << prim));
   const std::string tail = PBT_STR(" (relaxed, width " << w << ", primal " << prim << ") :: " << m->show());
   auto dd = makeDD(m); Bounds b(dd); b.setPrimal(prim);
   std::vector<Sol> sols; b.onSolution([&](const std::vector<int>& l) { sols.push_back({l,b.getPrimal()});});
   Relaxed st(w); dd->setStrategy(&st);
   Quiet q;
   const bool viaApply = s.coin(); bool ret = false;
   if (viaApply) { auto r2 = dd->duplicate(); ret = dd->apply(r2->init(),b); } else dd->compute(b);
   judge(*m,dd,m->best(),prim,tail,c);
   if (big) REQUIRE(dd->isExact(),"not exact although no layer is wider" << tail);
   if (viaApply) {
      REQUIRE(ret == m->better(dd->currentOpt(),prim),"apply returned " << ret << " with value " << dd->currentOpt() << tail);
      double cur = prim;
      for (auto& so : sols) { double cost = 0; REQUIRE(m->replay(so.labels,cost) && cost == so.primal && m->better(cost,cur),"apply reported " << str(so.labels) << " for " << so.primal << tail); cur = cost; }
      REQUIRE(b.getPrimal() == cur,"after apply the primal bound is " << b.getPrimal() << " instead of " << cur << tail);
      if (ret && dd->isExact()) REQUIRE(b.getPrimal() == dd->currentOpt(),"an exact diagram of value " << dd->currentOpt() << " left the primal bound at " << b.getPrimal() << tail);
   }
   if (!dd->isExact()) {  // compile again below the nodes of the cutset
      auto al = dd->makeNDAllocator(); auto d2 = dd->duplicate(); Relaxed st2(1 + s.draw(5)); d2->setStrategy(&st2);
      std::vector<ANode::Ptr> cs; for (auto n : dd->computeCutSet()) if (n != dd->getRoot()) { auto k = al->cloneNode(n); if (k) cs.push_back(k); }
      for (std::size_t i = 0;i < cs.size() && i < 4;i++) {
         auto n = cs[i]; const auto& st8 = stateOf(n);
         REQUIRE(st8.m.size() == 1,"a cutset node holds the merged state " << st8 << tail);
         const double V = m->V[(std::size_t)st8.m[0]];
         Bounds b3(dd); const double p3 = b3.getPrimal();
         d2->apply(n,b3);
         judge(*m,d2,V == m->none() ? V : n->getBound() + V,p3,PBT_STR(" (relaxed, width " << st2.getWidth() << ", below cutset node " << st8 << " of width " << w << ") :: " << m->show()),c);
         c.label("below a cutset node");
      }
   }
   c.nontrivial = m->feasible() && m->nLayers >= 3;
}
#define R "the model has a solution and at least three layers"
PROPERTY(tiny,R,10000,400000,1500,20000,60) { check(s,c,genModel(s,sizeOpt(Tiny)),Tiny); }
PROPERTY(medium,R,8000,250000,1000,12000,60) { check(s,c,genModel(s,sizeOpt(Medium)),Medium); }
PROPERTY(deep,R,12000,300000,1200,12000,60) { check(s,c,genModel(s,sizeOpt(Deep)),Deep); }
PROPERTY(wide,R,320,8000,32,320,4) { check(s,c,genModel(s,sizeOpt(Wide)),Wide); }
PROPERTY(absorb,R,8000,200000,800,8000,60) { check(s,c,genModel(s,sizeOpt(Absorb)),Absorb); }
PROPERTY(huge,R,48,1200,4,40,1) { check(s,c,genModel(s,sizeOpt(Huge)),Huge); }
PROPERTY(lengthy,R,1200,24000,60,600,8) { check(s,c,genModel(s,sizeOpt(Long)),Long); }
PROPERTY(fan,R,48,1000,2,12,1) { check(s,c,genModel(s,sizeOpt(Fan)),Fan); }
PBT_MAIN
