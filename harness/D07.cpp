// D07 - the circular queue: FIFO without retraction; content (multiset) with retraction; growth keeps everything.
// Oracle: std::deque.
#include "pbt.hpp"
#include <cassert>
#include <deque>
#include "queue.hpp"
PROPERTY(fifo,"the queue wrapped or grew (more than its initial capacity went through it)",200000,4000000,30000,400000,1000) {
   const int sz = s.pick(std::vector<int>{1,2,4,7,16,32});
   CQueue<int> q(sz); std::deque<int> m; int nx = 1,through = 0; std::ostringstream log; log << "sz=" << sz << ' ';
   const int ops = s.range(1,s.chance(1,4) ? 200 : 40); const unsigned up = (unsigned)s.range(1,4);
   for (int o = 0;o < ops;o++) {
      switch (s.weighted({up + 1,2,1,1,1})) {
         case 0: { int n = s.chance(1,6) ? (s.chance(1,20) ? s.range(1,1500) : s.range(1,40)) : 1; for (int i = 0;i < n;i++) { auto l = q.enQueue(nx); REQUIRE(l->value() == nx && **l == nx,"location of " << nx << " holds " << l->value() << " after " << log.str()); m.push_back(nx++); through++; } log << '+' << n << ' '; break; }
         case 1: { log << "- "; if (m.empty()) { REQUIRE(q.deQueue() == 0,"deQueue of an empty queue"); } else { int v = q.deQueue(); REQUIRE(v == m.front(),"deQueue gives " << v << " expected " << m.front() << " after " << log.str()); m.pop_front(); } break; }
         case 2: { int v = q.peek(); REQUIRE(v == (m.empty() ? 0 : m.front()),"peek gives " << v << " after " << log.str()); break; }
         case 3: { std::deque<int> all; q.doOnAll([&](auto l) { all.push_back(l->value());}); REQUIRE(all == m,"doOnAll visits something else after " << log.str()); break; }
         default: if (s.chance(1,10)) { q.clear(); m.clear(); log << "clear "; } else if (!m.empty()) {
               int t = s.coin() ? m[s.draw((uint32_t)m.size())] : -1;
               int f = q.foldl([t](int,int v) { return v == t ? v : 0;},0); REQUIRE(f == (t < 0 ? 0 : t),"foldl search for " << t << " gives " << f << " after " << log.str()); } break;
      }
      REQUIRE(q.size() == (int)m.size() && q.empty() == m.empty(),"size " << q.size() << " expected " << m.size() << " after " << log.str());
   }
   while (!m.empty()) { int v = q.deQueue(); REQUIRE(v == m.front(),"final deQueue gives " << v << " expected " << m.front() << " after " << log.str()); m.pop_front(); }
   REQUIRE(q.empty() && q.size() == 0,"not empty at the end after " << log.str());
   c.nontrivial = through > 2 * sz; c.note(log.str()); c.print(pbt::hashStr(log.str()));
}
PROPERTY(retract,"at least three retractions",120000,2500000,20000,250000,1000) {
   const int sz = s.pick(std::vector<int>{1,2,4,7,16});
   CQueue<int> q(sz); std::map<int,Location<int>*> m; int nx = 1,ret = 0; std::ostringstream log; log << "sz=" << sz << ' ';
   const int ops = s.range(1,60);
   auto content = [&]() { std::multiset<int> a,b; q.doOnAll([&](auto l) { a.insert(l->value());}); for (auto& p : m) b.insert(p.first); REQUIRE(a == b,"content differs (" << a.size() << " vs " << b.size() << ") after " << log.str()); };
   for (int o = 0;o < ops;o++) {
      switch (s.weighted({4,1,2,2})) {
         case 0: { m[nx] = q.enQueue(nx); log << '+' << nx << ' '; ++nx; break; }
         case 1: if (!m.empty()) { int v = q.deQueue(); log << '-' << v << ' '; REQUIRE(m.count(v),"deQueue gives " << v << " which is not in the queue, after " << log.str()); m.erase(v); } break;
         case 2: if (!m.empty()) { auto it = std::next(m.begin(),(long)s.draw((uint32_t)m.size())); log << "r" << it->first << ' '; bool ok = q.retract(it->first); REQUIRE(ok,"retract(" << it->first << ") not found after " << log.str()); m.erase(it); ++ret; } break;
         default: if (!m.empty()) { auto it = std::next(m.begin(),(long)s.draw((uint32_t)m.size())); log << "R" << it->first << ' '; REQUIRE(it->second->value() == it->first,"location of " << it->first << " holds " << it->second->value() << " after " << log.str()); q.retract(it->second); m.erase(it); ++ret; } break;
      }
      REQUIRE(q.size() == (int)m.size() && q.empty() == m.empty(),"size " << q.size() << " expected " << m.size() << " after " << log.str());
      content();
      if (!m.empty()) REQUIRE(m.count(q.peek()),"peek gives a value not in the queue after " << log.str());
   }
   c.nontrivial = ret >= 3; c.note(log.str()); c.print(pbt::hashStr(log.str()));
}
PROPERTY(scale,"more than 3000 elements at once",150,5000,30,500,10) {
   const int sz = s.pick(std::vector<int>{1,16,32,1000}); CQueue<int> q(sz); std::deque<int> m; pbt::Rng r(s.draw(1u << 30));
   const int burst = s.range(1,100) * s.range(1,100), rounds = s.range(1,6); int nx = 1; std::size_t peak = 0;
   auto d = PBT_STR("sz=" << sz << " burst=" << burst << " rounds=" << rounds);
   for (int k = 0;k < rounds;k++) {
      for (int i = (int)r.below((uint32_t)burst + 1);i > 0;i--) { auto l = q.enQueue(nx); REQUIRE(l->value() == nx,"location wrong " << d); m.push_back(nx++); }
      peak = std::max(peak,m.size());
      for (int i = (int)r.below((uint32_t)burst + 1);i > 0 && !m.empty();i--) { int v = q.deQueue(); REQUIRE(v == m.front(),"deQueue gives " << v << " expected " << m.front() << ' ' << d); m.pop_front(); }
      REQUIRE(q.size() == (int)m.size(),"size " << q.size() << ' ' << d);
      std::size_t i = 0; q.doOnAll([&](auto l) { REQUIRE(i < m.size() && l->value() == m[i],"traversal differs at " << i << ' ' << d); ++i;}); REQUIRE(i == m.size(),"traversal stops at " << i << ' ' << d);
   }
   while (!m.empty()) { int v = q.deQueue(); REQUIRE(v == m.front(),"final deQueue gives " << v << " expected " << m.front() << ' ' << d); m.pop_front(); }
   REQUIRE(q.empty(),"not empty at the end " << d);
   c.nontrivial = peak > 3000; c.note(d); c.print(pbt::hashStr(d));
}
PBT_MAIN
