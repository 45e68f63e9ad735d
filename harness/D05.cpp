// D05 - ranges: what a Range enumerates, its size, membership, reversal, and its conversion to a label set.
// Oracle: a list computed from the constructor's documentation ([from -> to), direction by order).
#include "pbt.hpp"
#include <cstring>
#include "util.hpp"
static std::string show(const std::vector<int>& m) { std::ostringstream o; o << '['; for (std::size_t i = 0;i < m.size() && i < 40;i++) o << m[i] << ' '; o << ']'; return o.str();}
static std::vector<int> enumerate(const Range& r) {
   std::vector<int> v; int k = 0;
   for (auto i : r) { REQUIRE(++k < 100000,"enumeration of " << r << " does not end"); v.push_back(i); }
   return v;
}
PROPERTY(ranges,"the range has at least two values",500000,8000000,40000,600000,5000) {
   auto pos = [&]() { switch (s.range(0,9) == 9 ? 4 : s.range(0,3)) { case 4: return std::max(0,(1 << s.range(0,12)) + s.range(-2,1)); case 0: return s.range(0,5); case 1: return s.pick(std::vector<int>{0,1,62,63,64,65,127,128,129,191,192,193}); case 2: return s.range(0,300); default: return s.range(-4,70); } };
   int a = pos(),b = pos();
   const int kind = s.range(0,4);
   std::vector<int> want; const char* nm = "";
   auto walk = [&](int from,int to) { if (from <= to) for (int i = from;i < to;i++) want.push_back(i); else for (int i = from;i > to;i--) want.push_back(i); };
   std::optional<Range> r;
   switch (kind) {
      case 0: r.emplace(a,b); walk(a,b); nm = "Range"; break;
      case 1: r.emplace(Range::open(a,b)); walk(a,b); nm = "open"; break;
      case 2: r.emplace(Range::close(a,b)); if (a <= b) for (int i = a;i <= b;i++) want.push_back(i); else for (int i = a;i >= b;i--) want.push_back(i); nm = "close"; break;
      case 3: r.emplace(Range::openInc(a,b)); for (int i = a;i < b;i++) want.push_back(i); nm = "openInc"; break;
      default: r.emplace(Range::closeInc(a,b)); for (int i = a;i <= b;i++) want.push_back(i); nm = "closeInc"; break;
   }
   auto d = PBT_STR(nm << '(' << a << ',' << b << ") expected " << show(want));
   auto got = enumerate(*r);
   REQUIRE(got == want,"enumerates " << show(got) << ": " << d);
   REQUIRE(r->size() == (int)want.size(),"size() " << r->size() << ": " << d);
   for (int p = std::min(a,b) - 3;p <= std::max(a,b) + 3;p++)
      REQUIRE(r->contains(p) == (std::find(want.begin(),want.end(),p) != want.end()),"contains(" << p << ") is " << r->contains(p) << ": " << d);
   auto fl = enumerate(r->flip()); auto rw = want; std::reverse(rw.begin(),rw.end());
   REQUIRE(fl == rw,"flip() enumerates " << show(fl) << ": " << d);
   REQUIRE(enumerate(Range(*r)) == want && enumerate(Range(std::move(Range(*r)))) == want,"a copy enumerates something else: " << d);
   std::vector<int> post; for (auto it = r->begin();it != r->end();it++) post.push_back(*it);
   REQUIRE(post == want,"post-increment iteration differs: " << d);
   bool nat = true; for (auto x : want) nat &= x >= 0;
   if (nat) {
      GNSet g(*r); std::set<int> sw(want.begin(),want.end()),sg; int k = 0;
      for (auto v : g) { REQUIRE(++k < 100000,"label set does not end: " << d); sg.insert(v); }
      REQUIRE(sg == sw,"converted to a label set of " << sg.size() << " values: " << d);
      c.label("converted");
   }
   if (!want.empty() && want.front() > want.back()) c.label("backward");
   c.nontrivial = want.size() >= 2;
   c.note(d); c.print(pbt::hashStr(d));
}
PROPERTY(iota,"at least two values",30000,200000,3000,20000,1000) {
   int a = s.range(0,200),n = s.range(0,150);
   GNSet g = setFrom(std::views::iota(a,a + n)); std::vector<int> v,w;
   for (auto x : g) v.push_back(x);
   for (int i = a;i < a + n;i++) w.push_back(i);
   REQUIRE(v == w,"setFrom(iota(" << a << ',' << a + n << ")) = " << show(v));
   c.nontrivial = n >= 2; c.note(PBT_STR("iota " << a << '+' << n)); c.print((uint64_t)a * 1000 + n);
}
PBT_MAIN
