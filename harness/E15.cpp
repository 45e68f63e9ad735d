// E15 - what the search prints is true: each progress line shows the current primal bound and a dual bound no solution still to be found
// can beat; the summary shows the width, the final bound, consistent node counts and times; every improvement is announced.
// Oracle: dynamic programming / brute force, the solutions seen by a callback, and the callbacks counted by the time-limit hook.
#include "engine.hpp"
#include "vclock.hpp"
using namespace eng;
static bool shows(const std::string& printed,double v) { // printed with 6 significant digits (or 6 decimals)
   char* e = nullptr; double x = strtod(printed.c_str(),&e);
   return e != printed.c_str() && std::abs(x - v) <= 1e-5 * std::max(1.0,std::abs(v));
}
static std::vector<std::string> words(const std::string& l) { std::istringstream is(l); std::vector<std::string> r; std::string w; while (is >> w) r.push_back(w); return r;}
static void check(Src& s,Case& c,const Prob& p,unsigned w) {
   const long lim = s.chance(1,4) ? s.range(1,12) : -1;
   std::optional<double> init; if (p.feasible && s.chance(1,6)) init = p.minimize ? p.opt + s.range(1,24) / 4.0 : p.opt - s.range(1,24) / 4.0;
   describe(c,p,PBT_STR("width=" << w << " limit@" << lim));
   vclock::Steps steps { (unsigned long long)s.range(0,60000) }; const long long t0 = 1700000000000000000LL;
   struct At { long long lo,hi; }; std::vector<At> at; // when each solution was reported: before and after this callback
   Bounds b; std::vector<Sol> sols; b.onSolution([&](const std::vector<int>& l) { sols.push_back({l,b.getPrimal()}); at.push_back({vclock::ns - t0,0}); vclock::advance(steps.next()); at.back().hi = vclock::ns - t0;});
   if (init) b.setPrimal(*init);
   auto dd = p.make(&b);
   const std::string tail = PBT_STR(" (width " << w << ") :: " << p.desc);
   // the time-limit hook runs once per extracted node, before the progress line: it knows the primal bound that line must show
   std::string out; long polls = 0; std::vector<double> atPoll;
   std::vector<At> pollAt; long long total = 0; bool timed = false;
   {
      Capture q; BAndB e(dd,w); vclock::On clock(t0);
      e.setTimeLimit([&](double) { ++polls; atPoll.push_back(b.getPrimal()); pollAt.push_back({vclock::ns - t0,0}); vclock::advance(steps.next()); pollAt.back().hi = vclock::ns - t0; return lim > 0 && polls >= lim;});
      e.search(b); out = q.os.str(); total = vclock::ns - t0; timed = vclock::reads > 0;
   }
   auto when = [](double sec,const At& a) { const double tol = 0.0011 + 1e-5 * a.hi / 1e9; return sec >= a.lo / 1e9 - tol && sec <= a.hi / 1e9 + tol;};
   std::istringstream is(out); std::string l; unsigned prog = 0,tight = 0,done = 0,times = 0; long lastN = -1;
   while (std::getline(is,l)) {
      if (l.rfind("B&B(",0) == 0) {
         ++prog;
         auto cl = l.find(')'); long n = strtol(l.c_str() + 4,nullptr,10);
         auto f = words(l.substr(cl + 1));
         REQUIRE(f.size() >= 3,"unreadable progress line " << l << tail);
         REQUIRE(n >= lastN && n < polls + 1,"progress line " << l << " counts " << n << " explored nodes" << tail); lastN = n;
         bool known = false; for (auto v : atPoll) known |= shows(f[1],v);
         REQUIRE(known,"progress line " << l << " shows a primal bound that never held" << tail);
         const double prim = strtod(f[1].c_str(),nullptr);
         if (f[0] != "-" && p.feasible) {
            double dual = strtod(f[0].c_str(),nullptr);
            REQUIRE(!p.better(p.opt,dual) || std::abs(p.opt - dual) < 1e-5 || !p.better(p.opt,prim) || std::abs(p.opt - prim) < 1e-5,"progress line " << l << " shows a dual bound beaten by the optimum " << p.opt << ", not found yet" << tail);
            c.label("dual bound shown");
            // the gap is relative to the primal bound
            if (f[2].back() == '%' && std::abs(prim) > 0.01) {
               const double gap = strtod(f[2].c_str(),nullptr), want = 100 * std::abs(dual - prim) / std::abs(prim);
               REQUIRE(dual == prim ? gap >= 0 && gap <= 1e-3 : std::abs(gap - want) <= 1e-3 + 1e-4 * want,"progress line " << l << " shows a wrong gap (" << want << ")" << tail);
            }
         }
         auto ta = l.find("time:"); REQUIRE(ta != std::string::npos,"no time in " << l << tail);
         const double sec = strtod(l.c_str() + ta + 5,nullptr); bool ok = !timed; for (auto& a : pollAt) ok |= when(sec,a);
         REQUIRE(ok,"progress line " << l << " shows a time at which no node was taken from the queue" << tail);
      } else if (l.find("TIGHTEN:") != std::string::npos) {
         REQUIRE(tight < sols.size(),"an improvement was printed that no callback saw: " << l << tail);
         auto pos = l.find("<P:"); REQUIRE(pos != std::string::npos && shows(l.substr(pos + 3),sols[tight].primal),"improvement #" << tight << " of value " << sols[tight].primal << " printed as " << l << tail);
         ++tight;
      } else if (l.rfind("TIME:",0) == 0) {
         REQUIRE(times < at.size(),"more times than solutions" << tail);
         REQUIRE(!timed || when(strtod(l.c_str() + 5,nullptr) / 1e3,at[times]),"solution #" << times << " was found between " << at[times].lo / 1e6 << " and " << at[times].hi / 1e6 << " ms, but " << l << tail);
         ++times;
      } else if (l.rfind("Done(",0) == 0) {
         ++done;
         REQUIRE(strtoul(l.c_str() + 5,nullptr,10) == w,"the summary shows another width: " << l << tail);
         auto pos = l.find("):"); REQUIRE(pos != std::string::npos && shows(l.substr(pos + 2),b.getPrimal()),"the summary shows another value than " << b.getPrimal() << ": " << l << tail);
         pos = l.find("#nodes:"); REQUIRE(pos != std::string::npos,"no node count: " << l << tail);
         char* e = nullptr; unsigned long n = strtoul(l.c_str() + pos + 7,&e,10), ttl = *e == '/' ? strtoul(e + 1,nullptr,10) : 0;
         const bool stopped = lim > 0 && polls >= lim;
         REQUIRE(n <= ttl && ttl == (unsigned long)(polls - stopped),"the summary counts " << n << "/" << ttl << " nodes, " << polls << " were taken from the queue: " << l << tail);
         if (p.feasible && !init) REQUIRE(n >= 1 || stopped,"solved without exploring a node: " << l << tail);
         if (!dd->hasDominance()) { pos = l.find("P/D:"); REQUIRE(pos != std::string::npos && l.compare(pos,8,"P/D:0/0\t") == 0,"nodes dominated in a model without dominance: " << l << tail); }
         pos = l.find("Time:"); REQUIRE(pos != std::string::npos,"no time: " << l << tail);
         double t1 = strtod(l.c_str() + pos + 5,&e), t2 = *e == '/' ? strtod(e + 1,nullptr) : -1;
         REQUIRE(t1 >= 0 && t2 >= t1 - 1e-6,"the optimum was found after the end of the search: " << l << tail);
         if (timed) {
            REQUIRE(when(t2,At { total,total }),"the search took " << total / 1e9 << " s: " << l << tail);
            REQUIRE(when(t1,sols.empty() ? At { 0,0 } : at.back()),"the last solution was found after " << (sols.empty() ? 0 : at.back().hi) / 1e9 << " s: " << l << tail);
            if (total > 5000000000LL) c.label("longer than 5 s");
         }
         pos = l.find("LIM?:"); REQUIRE(pos != std::string::npos && (l[pos + 5] == '1') == stopped,"the summary is wrong about the limit: " << l << tail);
      }
   }
   REQUIRE(done == 1,done << " summary lines" << tail);
   REQUIRE(tight == sols.size(),sols.size() << " improvements, " << tight << " printed" << tail);
   c.nontrivial = prog > 0; if (prog > 1) c.label("2+ progress lines"); if (lim > 0 && polls >= lim) c.label("stopped");
}
#define R "at least one progress line was printed"
PROPERTY(tiny,R,10000,300000,1000,12000,60) { check(s,c,fromModel(genModel(s,sizeOpt(Tiny))),drawWidth(s,Tiny)); }
PROPERTY(medium,R,8000,200000,800,8000,60) { check(s,c,fromModel(genModel(s,sizeOpt(Medium))),drawWidth(s,Medium)); }
PROPERTY(deep,R,16000,400000,1600,16000,60) { check(s,c,fromModel(genModel(s,sizeOpt(Deep))),drawWidth(s,Deep)); }
PROPERTY(wide,R,160,4000,16,160,4) { check(s,c,fromModel(genModel(s,sizeOpt(Wide))),drawWidth(s,Wide)); }
PROPERTY(concrete_small,R,6000,150000,600,6000,40) { auto p = concrete(s); check(s,c,p,(unsigned)s.range(1,8)); }
PROPERTY(concrete_large,R,300,8000,24,240,4) { auto p = concrete(s,true); check(s,c,p,(unsigned)s.range(1,60)); }
PBT_MAIN
