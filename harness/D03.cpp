// D03 - the reflection  ofs - S = { ofs - v | v in S }  of a bounded set.
// Oracle: element by element.  Domain: max(S) <= ofs < 64*nbw (every result is representable).
#include "pbt.hpp"
#include <cstring>
#include "util.hpp"
typedef std::set<int> M;
static std::string show(const M& m) { std::ostringstream o; o << '{'; for (auto x : m) o << x << ' '; o << '}'; return o.str();}

template <unsigned short W> static void check(const M& m,int ofs) {
   NatSet<W> n; for (auto x : m) n.insert(x);
   NatSet<W> r = ofs - n;
   M want,got; for (auto x : m) want.insert(ofs - x);
   int k = 0;
   for (auto v : r) { REQUIRE(++k <= 64 * W,"iteration of the reflection does not end"); got.insert(v); }
   REQUIRE(got == want,"NatSet<" << W << ">: " << ofs << " - " << show(m) << " = " << show(got) << " expected " << show(want));
   M back; for (auto v : n) back.insert(v);
   REQUIRE(back == m,"reflection changed its argument " << show(m) << " into " << show(back));
   NatSet<W> rr = ofs - r;
   REQUIRE(rr == n,"NatSet<" << W << ">: reflecting " << show(m) << " twice by " << ofs << " gives another set");
}
static int val(pbt::Src& s,int cap) {
   static const std::vector<int> d {0,1,2,61,62,63};
   switch (s.range(0,2)) {
      case 0: return s.range(0,cap - 1);
      case 1: return s.range(0,cap / 64 - 1) * 64 + s.pick(d);
      default: return std::min(cap - 1,s.range(0,12));
   }
}
PROPERTY(reflect,"the set has at least two elements",1500000,30000000,150000,3000000,20000) {
   const int w = s.range(1,5);
   const int cap = 64 * w;
   M m; int k = (int)s.weighted({1,3,3,3,3,2,2,1,1});
   if (s.chance(1,8)) k = s.range(0,cap);
   for (int i = 0;i < k;i++) m.insert(val(s,cap));
   if (s.chance(1,4) && !m.empty()) { int hi = val(s,cap); m.erase(m.upper_bound(hi),m.end()); }
   int mx = m.empty() ? 0 : *m.rbegin();
   int ofs;
   switch (s.range(0,4)) {
      case 0: ofs = mx; break;
      case 1: ofs = std::min(cap - 1,mx + s.range(0,3)); break;
      case 2: ofs = cap - 1; break;
      case 3: ofs = std::min(cap - 1,std::max(mx,val(s,cap))); break;
      default: ofs = s.range(mx,cap - 1); break;
   }
   switch (w) {
      case 1: check<1>(m,ofs); break;
      case 2: check<2>(m,ofs); break;
      case 3: check<3>(m,ofs); break;
      case 4: check<4>(m,ofs); break;
      default: check<5>(m,ofs); break;
   }
   c.nontrivial = m.size() >= 2;
   c.label(PBT_STR("words " << w));
   if (!m.empty() && (ofs >> 6) != (mx >> 6)) c.label("offset in a higher word than max(S)");
   auto d = PBT_STR("NatSet<" << w << "> " << ofs << " - " << show(m));
   c.note(d); c.print(pbt::hashStr(d));
}
PBT_MAIN
