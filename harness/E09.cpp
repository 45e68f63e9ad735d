// E09 - the search can be stopped at any point: whenever the limit callback says so, the bounds hold the last solution reported (never
// better than the optimum), LIM? tells whether it was stopped, and searching again with the same bounds still reaches the optimum.
// The callback is given the elapsed milliseconds (exact against a virtual clock that the callbacks move).
#include "engine.hpp"
#include "vclock.hpp"
using namespace eng;
static void check(Src& s,Case& c,const Prob& p,unsigned w) {
   const int k0 = s.range(1,10); const bool once = s.coin(); vclock::Steps steps { (unsigned long long)s.range(0,60000) };
   describe(c,p,PBT_STR("width=" << w << " stop@" << k0 << (once ? " once" : "")));
   const std::string tail = PBT_STR(" (width " << w << ", stopped at call " << k0 << ") :: " << p.desc);
   Bounds b; std::vector<Sol> sols; b.onSolution([&](const std::vector<int>& l) { sols.push_back({l,b.getPrimal()}); vclock::advance(steps.next());});
   auto dd = p.make(&b);
   int k = k0; bool hitEver = false; int rounds = 0; bool late = false;
   while (true) {
      bool hit = false; long n = 0; double lastT = -1; std::string out;
      {
         Capture q; BAndB e(dd,w);
         const long long t0 = 1700000000000000000LL + steps.next();
         vclock::On clock(t0);
         e.setTimeLimit([&](double ms) {
            ++n;
            REQUIRE(ms >= 0 && ms >= lastT,"elapsed time went from " << lastT << " to " << ms << tail);
            const double mine = (vclock::ns - t0) / 1e6;
            if (vclock::reads) REQUIRE(ms <= mine + 1 && ms >= mine - 1,"elapsed time " << ms << " ms reported, the search started " << mine << " ms ago" << tail);
            if (mine > 5000) late = true;
            lastT = ms; vclock::advance(steps.next());
            if (n >= k) { hit = true; return true; }
            return false;
         });
         e.search(b); out = q.os.str();
      }
      double cur = sols.empty() ? p.sentinel() : sols.back().primal;
      REQUIRE(b.getPrimal() == cur,"stopped with primal bound " << b.getPrimal() << " but the last solution reported is worth " << cur << tail);
      if (!sols.empty()) { double v = 0; REQUIRE(p.eval(sols.back().labels,v) && v == cur,"stopped with " << str(sols.back().labels) << " for " << cur << tail); REQUIRE(p.feasible && !p.better(cur,p.opt),"stopped with " << cur << ", better than the optimum" << tail); }
      auto at = out.rfind("LIM?:");
      REQUIRE(at != std::string::npos,"no LIM? in the summary" << tail);
      REQUIRE((out[at + 5] == '1') == hit,"LIM?:" << out[at + 5] << " but the limit callback " << (hit ? "asked to stop" : "never asked to stop") << tail);
      if (hit) REQUIRE(n == k,"the search went on after being told to stop (" << n << " calls, told at " << k << ")" << tail);
      hitEver |= hit; ++rounds;
      if (!hit) { REQUIRE(p.feasible ? cur == p.opt : sols.empty(),"finished with " << cur << ", the optimum is " << p.opt << tail); break; }
      REQUIRE(rounds < 60,"the search does not finish" << tail);
      k = once ? 1 << 30 : k + 1 + (rounds > 8 ? k : 0);
   }
   c.nontrivial = hitEver && p.feasible; if (hitEver) c.label("stopped"); if (rounds > 2) c.label("stopped twice or more");
   if (k0 > 2 && hitEver) c.label("stopped after branching"); if (late) c.label("more than 5 s after the start");
}
#define R "the search was stopped by the callback at least once, and the model has a solution"
PROPERTY(tiny,R,6000,200000,800,10000,30) { check(s,c,fromModel(genModel(s,sizeOpt(Tiny))),drawWidth(s,Tiny)); }
PROPERTY(medium,R,5000,150000,600,8000,30) { check(s,c,fromModel(genModel(s,sizeOpt(Medium))),drawWidth(s,Medium)); }
PROPERTY(deep,R,10000,300000,1000,12000,30) { check(s,c,fromModel(genModel(s,sizeOpt(Deep))),drawWidth(s,Deep)); }
PROPERTY(concrete_small,R,4000,100000,400,4000,30) { auto p = concrete(s); check(s,c,p,(unsigned)s.range(1,8)); }
PBT_MAIN
