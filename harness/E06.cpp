// E06 - an exact diagram holds the optimum: value and incumbent equal dynamic programming's, with or without local bounds.
#include "engine.hpp"
using namespace eng;
static void check(Src& s,Case& c,const Prob& p) {
   double prim = p.sentinel();
   const bool given = p.feasible && s.chance(1,3);
   if (given) prim = p.minimize ? p.opt + s.range(1,24) / 4.0 : p.opt - s.range(1,24) / 4.0;
   describe(c,p,given ? "primal given" : "");
   const std::string tail = PBT_STR(" (exact, primal " << prim << ") :: " << p.desc);
   Bounds b; if (given) b.setPrimal(prim);
   auto dd = p.make(&b); b.attach(dd);
   std::vector<Sol> sols; b.onSolution([&](const std::vector<int>& l) { sols.push_back({l,b.getPrimal()});});
   Exact st; Quiet q; dd->setStrategy(&st);
   const bool viaApply = s.coin(); bool ret = false;
   if (viaApply) { auto r2 = dd->duplicate(); ret = dd->apply(r2->init(),b); } else dd->compute(b);
   const double v = dd->currentOpt();
   REQUIRE(dd->isExact(),"the exact diagram says it is not exact" << tail);
   if (!p.feasible) REQUIRE(v == p.sentinel(),"value " << v << " but the model has no solution" << tail);
   else {
      REQUIRE(v == p.opt,"value " << v << " but the optimum is " << p.opt << tail);
      double cost = 0; auto inc = dd->incumbent();
      REQUIRE(p.eval(inc,cost) && cost == v,"the incumbent " << str(inc) << " is not a solution of value " << v << tail);
   }
   if (viaApply) {
      REQUIRE(ret == p.feasible,"apply returned " << ret << tail);
      REQUIRE(b.getPrimal() == (p.feasible ? p.opt : prim),"apply left the primal bound at " << b.getPrimal() << tail);
      REQUIRE(sols.size() == (p.feasible ? 1u : 0u),"apply reported " << sols.size() << " solutions" << tail);
      if (p.feasible) { double cost = 0; REQUIRE(p.eval(sols[0].labels,cost) && cost == p.opt,"apply reported " << str(sols[0].labels) << tail); }
   }
   if (p.model) { std::set<int> lv; for (auto d : p.model->depth) lv.insert(d); c.nontrivial = p.feasible && lv.size() >= 3; } else c.nontrivial = p.feasible;
}
#define R "the model has a solution (tables: and at least three layers)"
PROPERTY(tiny,R,12000,500000,2000,30000,80) { check(s,c,fromModel(genModel(s,sizeOpt(Tiny)))); }
PROPERTY(medium,R,8000,300000,1000,15000,60) { check(s,c,fromModel(genModel(s,sizeOpt(Medium)))); }
PROPERTY(deep,R,8000,300000,1000,15000,60) { check(s,c,fromModel(genModel(s,sizeOpt(Deep)))); }
PROPERTY(wide,R,600,15000,60,600,4) { check(s,c,fromModel(genModel(s,sizeOpt(Wide)))); }
PROPERTY(huge,R,96,2400,8,80,1) { check(s,c,fromModel(genModel(s,sizeOpt(Huge)))); }
PROPERTY(lengthy,R,1200,24000,60,600,8) { check(s,c,fromModel(genModel(s,sizeOpt(Long)))); }
PROPERTY(fan,R,48,1000,2,12,1) { check(s,c,fromModel(genModel(s,sizeOpt(Fan)))); }
PROPERTY(concrete_small,R,8000,200000,800,8000,40) { check(s,c,concrete(s)); }
PROPERTY(concrete_large,R,400,10000,32,320,4) { check(s,c,concrete(s,true)); }
PBT_MAIN
