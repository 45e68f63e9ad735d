// D14 - the runtime monitor: a duration it reports is the time that passed, to the unit it is given in, for any two instants; the three
// clocks show the machine's time; durations "since" an instant end now.
// Oracle: integer arithmetic on nanoseconds; a virtual clock that only the harness moves.
#include "pbt.hpp"
#include "vclock.hpp"
#include "RuntimeMonitor.hpp"
using namespace pbt;
using RuntimeMonitor::HRClock;
static HRClock at(long long ns) { return HRClock(std::chrono::duration_cast<HRClock::duration>(std::chrono::nanoseconds(ns)));}
static long long nsOf(HRClock t) { return std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count();}
// spans of nothing, below a millisecond, around whole units, hours, weeks, years
static long long span(Src& s) {
   static const long long unit[] = {1,1000,1000000,1000000000LL,60000000000LL,3600000000000LL,86400000000000LL,604800000000000LL,31556952000000000LL};
   const int k = s.range(0,8); long long d = unit[k] * s.range(0,k == 8 ? 30 : 1200);
   switch (s.range(0,3)) { case 0: break; case 1: d += s.range(-3,3); break; case 2: d += s.range(-999999,999999); break; default: d += (long long)s.range(0,999) * 1000000; }
   return d < 0 ? -d : d;
}
static bool within(double got,long long ns,double unit) { const double want = (double)((long double)ns / unit); return std::fabs(got - want) <= 1.0 + std::fabs(want) * 1e-12;}
PROPERTY(between,"the span is at least a second and no whole number of milliseconds",200000,5000000,30000,400000,2000) {
   const long long t0 = 1700000000000000000LL + (s.coin() ? span(s) : 0), d = span(s); const bool back = s.chance(1,8);
   const HRClock a = at(t0), b = at(t0 + d); const HRClock from = back ? b : a, to = back ? a : b; const long long w = back ? -d : d;
   const auto txt = PBT_STR("from " << nsOf(from) << " ns to " << nsOf(to) << " ns"); c.note(txt); c.print(hashStr(txt));
   c.nontrivial = d >= 1000000000LL && d % 1000000; if (back) c.label("backwards");
   const double ms = RuntimeMonitor::elapsedMilliseconds(from,to); const long ml = RuntimeMonitor::milli(from,to); const double sec = RuntimeMonitor::elapsedSeconds(from,to);
   REQUIRE(within(ms,w,1e6),"elapsedMilliseconds gives " << ms << " for " << w << " ns, " << txt);
   REQUIRE(within((double)ml,w,1e6),"milli gives " << ml << " for " << w << " ns, " << txt);
   REQUIRE(std::fabs(sec * 1000 - (double)w / 1e6) <= 1.0 + std::fabs((double)w / 1e6) * 1e-12,"elapsedSeconds gives " << sec << " for " << w << " ns, " << txt);
   REQUIRE((double)ml == ms,"milli gives " << ml << " and elapsedMilliseconds " << ms << ' ' << txt);
}
PROPERTY(history,"at least five readings, and a second or more passed in all",60000,1500000,10000,150000,500) {
   long long now = 1700000000000000000LL + span(s); vclock::On clock(now);
   std::vector<std::pair<HRClock,long long>> marks; std::ostringstream log; log << "start=" << now; const long long t0 = now; int n = 0; const int ops = s.range(1,25);
   for (int o = 0;o < ops;o++) {
      const int k = s.weighted({4,3,5}); ++n;
      if (k == 0) { const long long d = span(s) % (400LL * 86400000000000LL); now += d; vclock::advance(d); log << " +" << d; --n; continue; }
      vclock::reads = 0;
      if (k == 1 || marks.empty()) {
         const int which = s.range(0,2); log << " read" << which;
         if (which == 2) { const long long w = std::chrono::duration_cast<std::chrono::nanoseconds>(RuntimeMonitor::wctime().time_since_epoch()).count(); if (vclock::reads) REQUIRE(std::llabs(w - now) < 1000,"wctime shows " << w << " at " << now << ": " << log.str()); }
         else { const HRClock t = which ? RuntimeMonitor::now() : RuntimeMonitor::cputime(); if (vclock::reads) marks.push_back({t,now}); if (marks.size() > 1 && vclock::reads) REQUIRE(std::llabs((nsOf(t) - nsOf(marks[0].first)) - (now - marks[0].second)) < 1000,"the clock moved by " << nsOf(t) - nsOf(marks[0].first) << " ns when " << now - marks[0].second << " passed: " << log.str()); }
         continue;
      }
      auto& m = marks[s.draw((uint32_t)marks.size())]; const long long d = now - m.second; const int which = s.range(0,2); log << " since" << which;
      const double v = which == 0 ? RuntimeMonitor::elapsedSince(m.first) : which == 1 ? RuntimeMonitor::elapsedSeconds(m.first) * 1000 : (double)RuntimeMonitor::elapsedSinceMicro(m.first);
      if (vclock::reads) REQUIRE(within(v,d,which == 2 ? 1e3 : 1e6),(which == 0 ? "elapsedSince" : which == 1 ? "1000 x elapsedSeconds" : "elapsedSinceMicro") << " gives " << v << " when " << d << " ns passed: " << log.str());
   }
   c.nontrivial = n >= 5 && now - t0 >= 1000000000LL; c.note(log.str()); c.print(hashStr(log.str()));
}
PBT_MAIN
