// D09 - the memory pool: live blocks are aligned, disjoint and keep their content until the pool is cleared past them.
// Oracle: a shadow list of live blocks with their fill pattern; marks are used in stack order.
#include "pbt.hpp"
#include <cassert>
#include "store.hpp"
struct B { unsigned char* p; std::size_t n; unsigned char pat; };
PROPERTY(history,"blocks were allocated in at least two segments, and a mark was restored",60000,1500000,10000,150000,200) {
   const std::size_t seg = (std::size_t)s.pick(std::vector<int>{64,256,1024,4096});
   Pool pool(seg); std::vector<B> live; struct MK { PoolMark m; std::size_t n; }; std::vector<MK> marks;
   std::ostringstream log; log << "seg=" << seg << ' ';
   std::size_t total = 0; bool restored = false; unsigned char pat = 1;
   const int ops = s.range(1,60);
   auto verify = [&]() { for (auto& b : live) for (std::size_t i = 0;i < b.n;i++) REQUIRE(b.p[i] == b.pat,"a live block of " << b.n << " bytes changed after " << log.str()); };
   for (int o = 0;o < ops;o++) {
      switch (s.weighted({8,2,2,1})) {
         case 0: { std::size_t n; switch (s.range(0,4)) { case 0: n = (std::size_t)s.range(1,16); break; case 1: n = (std::size_t)s.range(1,200); break; case 2: n = (std::size_t)(16 * s.range(1,8)); break; case 3: n = seg - (std::size_t)s.range(0,20); break; default: n = s.chance(1,4) ? seg * 2 + (std::size_t)s.range(0,40) : (std::size_t)s.range(1,64); }
                   auto* p = (unsigned char*)(s.coin() ? pool.allocate(n) : operator new[](n,&pool));
                   log << 'a' << n << ' ';
                   REQUIRE(p != nullptr && ((uintptr_t)p & 0xF) == 0,"block of " << n << " bytes is not 16-byte aligned after " << log.str());
                   for (auto& b : live) REQUIRE(p + n <= b.p || b.p + b.n <= p,"a block of " << n << " bytes overlaps a live block of " << b.n << " after " << log.str());
                   memset(p,pat,n); live.push_back({p,n,pat}); pat = (unsigned char)(pat == 255 ? 1 : pat + 1); total += n; break; }
         case 1: marks.push_back({pool.mark(),live.size()}); log << "mark "; break;
         case 2: if (!marks.empty()) { auto k = s.draw((uint32_t)marks.size()); auto mk = marks[k]; marks.resize(s.coin() ? k : k + 1); pool.clear(mk.m); live.resize(mk.n); log << "back" << k << ' '; restored = true; } break;
         default: if (s.chance(1,4)) { pool.clear(); live.clear(); marks.clear(); log << "clear "; } break;
      }
      verify();
   }
   c.nontrivial = total > seg && restored; if (restored) c.label("restored"); c.note(log.str()); c.print(pbt::hashStr(log.str()));
}
// many segments (the segment directory grows), and blocks of the default 4 MB segments
PROPERTY(segments,"more than 40 segments were needed",300,10000,60,1000,10) {
   const std::size_t seg = (std::size_t)s.pick(std::vector<int>{64,256,4096,1 << 16}); Pool pool(seg); pbt::Rng r(s.draw(1u << 30));
   std::vector<B> live; struct MK { PoolMark m; std::size_t n; }; std::vector<MK> marks; std::size_t total = 0; const int n = s.range(1,40) * s.range(1,20); unsigned char pat = 1; std::map<unsigned char*,std::size_t> spans;
   auto d = PBT_STR("seg=" << seg << " n=" << n);
   for (int i = 0;i < n;i++) {
      if (r.below(10) == 0) marks.push_back({pool.mark(),live.size()});
      if (r.below(25) == 0 && !marks.empty()) { auto k = r.below((uint32_t)marks.size()); pool.clear(marks[k].m); while (live.size() > marks[k].n) { spans.erase(live.back().p); live.pop_back(); } marks.resize(k + 1); }
      std::size_t sz = 1 + r.below((uint32_t)(r.below(12) == 0 ? 2 * seg : seg)); if (sz > 8192 && r.below(4)) sz = 1 + sz % 8192;
      auto* p = (unsigned char*)pool.allocate(sz); REQUIRE(p && ((uintptr_t)p & 0xF) == 0,"block " << i << " of " << sz << " bytes is not aligned " << d);
      auto it = spans.upper_bound(p); if (it != spans.end()) REQUIRE(p + sz <= it->first,"block " << i << " overlaps a live block " << d); if (it != spans.begin()) { --it; REQUIRE(it->first + it->second <= p,"block " << i << " overlaps a live block " << d); }
      spans[p] = sz; memset(p,pat,sz); live.push_back({p,sz,pat}); pat = (unsigned char)(pat == 255 ? 1 : pat + 1); total += sz;
   }
   for (auto& b : live) for (std::size_t i = 0;i < b.n;i++) REQUIRE(b.p[i] == b.pat,"a live block of " << b.n << " bytes changed " << d);
   c.nontrivial = total > 40 * seg; c.note(d); c.print(pbt::hashStr(d) ^ total);
}
// STL containers that live in a pool (stl::StackAdapter), several of them and raw blocks interleaved in two pools, against std::vector
struct Rec { long v,w; int x; Rec(long a = 0) : v(a),w(~a),x((int)a * 3) {} friend bool operator==(const Rec& a,const Rec& b) { return a.v == b.v && a.w == b.w && a.x == b.x;} friend std::ostream& operator<<(std::ostream& os,const Rec& r) { return os << r.v;} };
template <class E> static void containersOf(pbt::Src& s,pbt::Case& c) {
   typedef stl::StackAdapter<E,Pool::Ptr> AL; typedef std::vector<E,AL> PV;
   const std::size_t seg = (std::size_t)s.pick(std::vector<int>{8192,16384,1 << 16}); Pool pool[2] { Pool(seg),Pool(seg) }; std::ostringstream log; log << "seg=" << seg << ' ';
   std::vector<PV> v; std::vector<std::vector<E>> m; const int nv = s.range(1,4); for (int i = 0;i < nv;i++) { v.push_back(PV(AL(&pool[i & 1]))); m.push_back({}); }
   std::vector<B> live; int grown[4] {}; bool moved = false; unsigned char pat = 1; const int ops = s.range(1,60);
   for (int o = 0;o < ops;o++) {
      const int i = s.range(0,nv - 1),j = s.range(0,nv - 1);
      switch (s.weighted({8,2,2,1,1,1,1,2,1})) {
         case 0: { const int n = s.range(1,9); for (int k = 0;k < n && m[i].size() < 200;k++) { v[i].push_back(o * 10 + k); m[i].push_back(o * 10 + k);} ++grown[i]; log << "push" << i << 'x' << n << ' '; break; }
         case 1: if (!m[i].empty()) { const auto p = s.draw((uint32_t)m[i].size()); v[i].erase(v[i].begin() + p); m[i].erase(m[i].begin() + p); log << "erase" << i << '@' << p << ' '; } break;
         case 2: if (m[i].size() < 200) { const auto p = s.draw((uint32_t)m[i].size() + 1); v[i].insert(v[i].begin() + p,E(-o)); m[i].insert(m[i].begin() + p,E(-o)); log << "insert" << i << '@' << p << ' '; } break;
         case 3: if (i != j) { v[i] = v[j]; m[i] = m[j]; moved = true; log << i << "=copy" << j << ' '; } break;
         case 4: if (i != j) { v[i] = std::move(v[j]); m[i] = m[j]; v[j].clear(); m[j].clear(); moved = true; log << i << "=move" << j << ' '; } break;
         case 5: if (i != j) { swap(v[i],v[j]); swap(m[i],m[j]); moved = true; log << "swap" << i << ',' << j << ' '; } break;
         case 6: { PV t(v[i]); REQUIRE(t == v[i],"a copy differs after " << log.str()); t.push_back(1); t[0] = E(77); log << "temp" << i << ' '; break; }
         case 7: { const std::size_t n = (std::size_t)s.range(1,120); auto* p = (unsigned char*)pool[i & 1].allocate(n); memset(p,pat,n); live.push_back({p,n,pat}); pat = (unsigned char)(pat == 255 ? 1 : pat + 1); log << 'a' << n << ' '; break; }
         default: { const auto n = s.range(0,200); v[i].resize((std::size_t)n,E(o)); m[i].resize((std::size_t)n,E(o)); log << "resize" << i << ':' << n << ' '; break; }
      }
      for (int k = 0;k < nv;k++) { REQUIRE(v[k].size() == m[k].size(),"container " << k << " holds " << v[k].size() << " elements, not " << m[k].size() << " after " << log.str()); for (std::size_t q = 0;q < m[k].size();q++) REQUIRE(v[k][q] == m[k][q],"element " << q << " of container " << k << " is " << v[k][q] << ", not " << m[k][q] << " after " << log.str()); }
      for (auto& b : live) for (std::size_t q = 0;q < b.n;q++) REQUIRE(b.p[q] == b.pat,"a block of " << b.n << " bytes changed after " << log.str());
   }
   c.nontrivial = grown[0] > 1 && nv > 2 && grown[2] > 1 && moved; c.note(log.str()); c.print(pbt::hashStr(log.str()));
}
PROPERTY(containers,"two containers in one pool grew alternately, and one was copied, moved or swapped",40000,1000000,6000,100000,200) { switch (s.range(0,3)) { case 0: containersOf<long>(s,c); break; case 1: containersOf<char>(s,c); break; default: containersOf<Rec>(s,c); } }
PBT_MAIN
