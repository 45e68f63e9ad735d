// E04 - a restricted diagram under-approximates: its incumbent is a real solution worth what it says, never better than the
// optimum; when it says it is exact it is optimal; a width above the widest layer makes it exact; it finds a solution
// whenever no state is a dead end.
#include "engine.hpp"
using namespace eng;
static int widest(const Model& m) { std::map<int,int> n; int w = 1; for (auto d : m.depth) w = std::max(w,++n[d]); return w;}
static void judge(const Model& m,AbstractDD::Ptr dd,double best,double prim,const std::string& tail,Case& c) {
   // best: the best value reachable below the root of this diagram; prim: primal bound when it was compiled
   const double v = dd->currentOpt();
   if (v != m.sentinel()) {
      double cost = 0; auto inc = dd->incumbent();
      REQUIRE(m.replay(inc,cost),"the incumbent " << str(inc) << " is not a solution" << tail);
      REQUIRE(cost == v,"the incumbent " << str(inc) << " costs " << cost << " but the diagram says " << v << tail);
      REQUIRE(!m.better(v,best),"value " << v << " beats the optimum " << best << tail);
      c.label("found");
   }
   if (dd->isExact() && (!m.hasLocal || m.better(best,prim))) {
      if (best == m.none()) REQUIRE(v == m.sentinel(),"exact with value " << v << " but there is no solution" << tail);
      else REQUIRE(v == best,"exact with value " << v << " but the optimum is " << best << tail);
      c.label("exact");
   }
   if (!dd->isExact()) c.label("truncated");
}
static void check(Src& s,Case& c,MP m,Size z) {
   unsigned w = drawWidth(s,z); const bool big = s.chance(1,6);
   if (big) w = (unsigned)widest(*m) + 1 + s.draw(3);
   double prim = m->sentinel();
   if (m->feasible() && s.chance(1,3)) prim = m->minimize ? m->best() + s.range(-12,24) / 4.0 : m->best() - s.range(-12,24) / 4.0;
   describe(c,*m); c.print(w); c.note(PBT_STR(" width=" << w << " primal=" << prim));
   const std::string tail = PBT_STR(" (restricted, width " << w << ", primal " << prim << ") :: " << m->show());
   auto dd = makeDD(m); Bounds b(dd); b.setPrimal(prim);
   std::vector<Sol> sols; b.onSolution([&](const std::vector<int>& l) { sols.push_back({l,b.getPrimal()});});
   Restricted st(w); dd->setStrategy(&st);
   const bool viaApply = s.coin();
   bool ret = false;
   if (viaApply) { auto r2 = dd->duplicate(); Quiet q; ret = dd->apply(r2->init(),b); }
   else dd->compute(b);
   judge(*m,dd,m->best(),prim,tail,c);
   if (big) REQUIRE(dd->isExact(),"not exact although no layer has that many states" << tail);
   bool dead = false; for (auto v : m->V) dead |= v == m->none();
   if (!dead && !m->hasLocal) REQUIRE(dd->currentOpt() != m->sentinel(),"no solution found although no state is a dead end" << tail);
   if (viaApply) {
      const bool imp = m->better(dd->currentOpt(),prim);
      REQUIRE(ret == imp,"apply returned " << ret << " with value " << dd->currentOpt() << tail);
      REQUIRE(b.getPrimal() == (imp ? dd->currentOpt() : prim),"after apply the primal bound is " << b.getPrimal() << " and the diagram's value " << dd->currentOpt() << tail);
      REQUIRE(sols.size() == (imp ? 1u : 0u),sols.size() << " solutions were reported by apply" << tail);
      if (imp) { double cost = 0; REQUIRE(m->replay(sols[0].labels,cost) && cost == b.getPrimal(),"apply reported " << str(sols[0].labels) << " for " << b.getPrimal() << tail); }
   }
   // compile again below the nodes of a cutset
   auto rl = makeDD(m); Bounds b2(rl); Relaxed rs(1 + s.draw(6)); rl->setStrategy(&rs);
   Quiet q;
   rl->compute(b2);
   if (!rl->isExact()) {
      auto al = rl->makeNDAllocator();
      std::vector<ANode::Ptr> cs; for (auto n : rl->computeCutSet()) if (n != rl->getRoot()) { auto k = al->cloneNode(n); if (k) cs.push_back(k); }
      for (std::size_t i = 0;i < cs.size() && i < 4;i++) {
         auto n = cs[i]; const auto& st8 = stateOf(n);
         REQUIRE(st8.m.size() == 1,"a cutset node holds the merged state " << st8 << tail);
         const double V = m->V[(std::size_t)st8.m[0]];
         Bounds b3(rl); double p3 = b3.getPrimal();
         dd->apply(n,b3);
         judge(*m,dd,V == m->none() ? V : n->getBound() + V,p3,PBT_STR(" (restricted, width " << w << ", below cutset node " << st8 << ") :: " << m->show()),c);
         c.label("below a cutset node");
      }
   }
   c.nontrivial = m->feasible() && m->nLayers >= 3;
}
#define R "the model has a solution and at least three layers"
PROPERTY(tiny,R,10000,400000,1500,20000,60) { check(s,c,genModel(s,sizeOpt(Tiny)),Tiny); }
PROPERTY(medium,R,8000,250000,1000,12000,60) { check(s,c,genModel(s,sizeOpt(Medium)),Medium); }
PROPERTY(deep,R,10000,300000,1000,12000,60) { check(s,c,genModel(s,sizeOpt(Deep)),Deep); }
PROPERTY(wide,R,320,8000,32,320,4) { check(s,c,genModel(s,sizeOpt(Wide)),Wide); }
PROPERTY(huge,R,48,1200,4,40,1) { check(s,c,genModel(s,sizeOpt(Huge)),Huge); }
PROPERTY(lengthy,R,1200,24000,60,600,8) { check(s,c,genModel(s,sizeOpt(Long)),Long); }
PROPERTY(fan,R,48,1000,2,12,1) { check(s,c,genModel(s,sizeOpt(Fan)),Fan); }
PBT_MAIN
