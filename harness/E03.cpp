// E03 - a primal bound given by the user is respected: the search ends with the optimum when that is strictly better, and
// otherwise leaves the bound alone and reports nothing; searching again with the same bounds changes nothing.
#include "engine.hpp"
using namespace eng;
static void check(Src& s,Case& c,const Prob& p,unsigned w) {
   double base = p.feasible ? p.opt : (double)s.range(-5,5);
   double dir = p.minimize ? 1 : -1;   // +: worse
   double init; const char* kind;
   switch (s.draw(6)) {
      case 0: init = base; kind = "equal"; break;
      case 1: init = base + dir * s.range(1,4); kind = "slightly worse"; break;
      case 2: init = base + dir * 0.25; kind = "barely worse"; break;
      case 3: init = base - dir * s.range(1,4); kind = "better"; break;
      case 4: init = base - dir * 0.25; kind = "barely better"; break;
      default: init = base + dir * 1000; kind = "far worse"; break;
   }
   const unsigned again = s.draw(3);
   describe(c,p,PBT_STR("width=" << w << " init=" << init));
   const std::string tail = PBT_STR(" (width " << w << ", initial primal " << init << ") :: " << p.desc);
   Bounds b; b.setPrimal(init);
   std::vector<Sol> sols; b.onSolution([&](const std::vector<int>& l) { sols.push_back({l,b.getPrimal()});});
   auto dd = p.make(&b);
   { Quiet q; BAndB e(dd,w); e.search(b); }
   const bool improves = p.feasible && p.better(p.opt,init);
   if (improves) {
      REQUIRE(b.getPrimal() == p.opt,"ended with " << b.getPrimal() << " instead of the optimum " << p.opt << tail);
      REQUIRE(!sols.empty(),"the optimum " << p.opt << " was never reported" << tail);
      double v = 0;
      REQUIRE(p.eval(sols.back().labels,v) && v == p.opt,"the last solution reported " << str(sols.back().labels) << " is not worth " << p.opt << tail);
   } else {
      REQUIRE(b.getPrimal() == init,"ended with " << b.getPrimal() << " although nothing beats the initial primal bound" << tail);
      REQUIRE(sols.empty(),"reported " << str(sols.empty() ? std::vector<int>{} : sols[0].labels) << " although nothing beats the initial primal bound" << tail);
   }
   const auto n = sols.size(); const double fin = b.getPrimal();
   for (unsigned k = 0;k < again;k++) {
      auto dd2 = s.coin() ? p.make(&b) : dd;
      { Quiet q; BAndB e(dd2,(unsigned)s.range(1,6)); e.search(b); }
      REQUIRE(b.getPrimal() == fin && sols.size() == n,"searching again changed the primal bound to " << b.getPrimal() << " and reported " << sols.size() - n << " more solutions" << tail);
   }
   c.nontrivial = p.feasible; c.label(kind); if (improves) c.label("improves");
}
#define R "the model has a solution (the initial bound is then equal to, slightly or far from, its optimum)"
PROPERTY(tiny,R,12000,400000,2000,30000,60) { check(s,c,fromModel(genModel(s,sizeOpt(Tiny))),drawWidth(s,Tiny)); }
PROPERTY(deep,R,12000,400000,1600,20000,40) { check(s,c,fromModel(genModel(s,sizeOpt(Deep))),drawWidth(s,Deep)); }
PROPERTY(medium,R,4000,100000,400,4000,40) { check(s,c,fromModel(genModel(s,sizeOpt(Medium))),drawWidth(s,Medium)); }
PROPERTY(wide,R,240,6000,24,240,4) { check(s,c,fromModel(genModel(s,sizeOpt(Wide))),drawWidth(s,Wide)); }
PROPERTY(concrete_small,R,6000,150000,600,6000,30) { auto p = concrete(s); check(s,c,p,(unsigned)s.range(1,8)); }
PBT_MAIN
