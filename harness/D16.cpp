// D16 - the helpers models are written with: sum, filtered min and max, filter over ranges, sets, vectors and maps, and the printed form
// of collections, the operations on std::set, and bit reversal.  Oracle: plain loops; reading the numbers back from what was printed.
#include "pbt.hpp"
#include <cassert>
#include <ranges>
#include "util.hpp"
using pbt::Src; using pbt::Case;
static std::vector<long> numbers(const std::string& t) { std::vector<long> r; const char* p = t.c_str(); while (*p) { if (isdigit((unsigned char)*p) || (*p == '-' && isdigit((unsigned char)p[1]))) { char* e; r.push_back(strtol(p,&e,10)); p = e; } else ++p; } return r;}
template <class C> static std::string show(const C& c) { std::ostringstream o; o << "["; for (auto x : c) o << x << " "; o << "]"; return o.str();}
static void values(Src& s,std::vector<int>& v,int mx,int top) { const int n = s.range(0,mx); for (int i = 0;i < n;i++) v.push_back(s.chance(1,5) ? (int)s.pick(std::vector<int>{0,63,64,127,128,191}) % (top + 1) : s.range(0,top)); }
PROPERTY(sets,"at least three elements, some kept and some dropped by the filter",150000,3000000,15000,200000,2000) {
   std::vector<int> v; values(s,v,s.chance(1,4) ? 60 : 10,s.pick(std::vector<int>{20,190,700})); std::set<int> m(v.begin(),v.end());
   const int a = s.range(-7,7),b = s.range(-50,50),k = s.range(1,4),off = s.range(0,3);
   GNSet g; if (s.coin()) for (int x : v) g.insert(x); else { for (int x = 0;x <= 700;x++) g.insert(x); for (int x = 0;x <= 700;x++) if (!m.count(x)) g.remove(x); }
   NatSet<11> n; for (int x : v) n.insert(x);
   const auto d = PBT_STR(show(m) << " term " << a << "v+" << b << " filter v%" << k << "==" << off); c.note(d); c.print(pbt::hashStr(d));
   std::set<int> asked; auto f = [&](int x) { if (!m.count(x)) FAIL("the filter was asked about " << x << ", not an element: " << d); return x % k == off;};
   auto t = [&](int x) { if (!m.count(x)) FAIL("the term was evaluated at " << x << ", not an element: " << d); return a * x + b;};
   auto tf = [&](int x) { if (!m.count(x) || x % k != off) FAIL("the term was evaluated at " << x << ", which the filter excludes: " << d); return a * x + b;};
   long sm = 0; int mn = std::numeric_limits<int>::max(),mx = std::numeric_limits<int>::min(),kept = 0; std::set<int> fs;
   for (int x : m) { sm += a * x + b; if (x % k == off) { mn = std::min(mn,a * x + b); mx = std::max(mx,a * x + b); ++kept; fs.insert(x); } }
   REQUIRE(sum(g,t) == sm,"sum over the set gives " << sum(g,t) << ", not " << sm << ": " << d);
   REQUIRE(sum(m,t) == sm,"sum over the std::set gives " << sum(m,t) << ", not " << sm << ": " << d);
   REQUIRE(min(g,f,tf) == mn,"filtered min gives " << min(g,f,tf) << ", not " << mn << ": " << d);
   REQUIRE(max(g,f,tf) == mx,"filtered max gives " << max(g,f,tf) << ", not " << mx << ": " << d);
   const GNSet gf = filter(g,f); std::set<int> got; for (int x : gf) got.insert(x); REQUIRE(got == fs && gf.size() == (int)fs.size(),"filter keeps " << show(got) << ", not " << show(fs) << ": " << d);
   const std::vector<long> want(m.begin(),m.end()); std::ostringstream o1,o2,o3; o1 << g; o2 << n; o3 << m;
   REQUIRE(numbers(o1.str()) == want,"the set prints as " << o1.str() << ": " << d);
   REQUIRE(numbers(o2.str()) == want,"the bounded set prints as " << o2.str() << ": " << d);
   REQUIRE(numbers(o3.str()) == want,"the std::set prints as " << o3.str() << ": " << d);
   for (auto& o : {o1.str(),o2.str(),o3.str()}) REQUIRE(o.size() >= 2 && o.front() == '{' && o.back() == '}' && std::count(o.begin(),o.end(),',') == (long)(want.empty() ? 0 : want.size() - 1),"printed as " << o << ": " << d);
   c.nontrivial = m.size() >= 3 && kept && kept < (int)m.size();
}
PROPERTY(sequences,"at least three elements",100000,2000000,10000,150000,2000) {
   std::vector<int> v; const int n = s.range(0,12); for (int i = 0;i < n;i++) v.push_back(s.range(-90,90)); const int a = s.range(-5,5),lo = s.range(0,40),len = s.range(0,90);
   const auto d = PBT_STR(show(v) << " a=" << a << " range " << lo << ".." << lo + len); c.note(d); c.print(pbt::hashStr(d));
   double sm = 0; for (int x : v) sm += a * x + 0.5; REQUIRE(sum<double>(v,[&](int x) { return a * x + 0.5;}) == sm,"sum over the vector is not " << sm << ": " << d);
   std::map<std::pair<int,int>,double> mp; for (int i = 0;i < n;i++) mp[{v[i] % 5,i % 4}] += v[i] * 0.25; double ms = 0; for (auto& [k,x] : mp) ms += x * a + k.first - k.second;
   REQUIRE(sum<double>(mp,[&](const auto& k,auto x) { return x * a + k.first - k.second;}) == ms,"sum over the map is not " << ms << ": " << d);
   std::set<std::pair<int,int>> sp; for (int i = 0;i < n;i++) sp.insert({v[i],i}); int ps = 0; for (auto& x : sp) ps += x.first * a + x.second; REQUIRE(sum(sp,[&](const auto& x) { return x.first * a + x.second;}) == ps,"sum over the set of pairs is not " << ps << ": " << d);
   long rs = 0; for (int x = lo;x < lo + len;x++) rs += a * x; REQUIRE(sum(Range(lo,lo + len),[&](int x) { return a * x;}) == rs,"sum over the range is not " << rs << ": " << d);
   rs = 0; for (int x = lo;x <= lo + len;x++) rs += a * x; REQUIRE(sum(Range::close(lo,lo + len),[&](int x) { return a * x;}) == rs,"sum over the closed range is not " << rs << ": " << d);
   std::ostringstream o; o << v; std::vector<long> w(1,n); for (int x : v) w.push_back(x); REQUIRE(numbers(o.str()) == w,"the vector prints as " << o.str() << ": " << d);
   c.nontrivial = n >= 3;
}
PROPERTY(standard_sets,"both sets have at least two elements and they share one but not all",150000,3000000,15000,200000,2000) {
   std::set<int> a,b; const int na = s.range(0,9),nb = s.range(0,9),top = s.range(1,20); for (int i = 0;i < na;i++) a.insert(s.range(-top,top)); for (int i = 0;i < nb;i++) b.insert(s.range(-top,top));
   const int v = s.range(-top,top),k = s.range(1,4); const auto d = PBT_STR(show(a) << " and " << show(b) << " v=" << v << " k=" << k); c.note(d); c.print(pbt::hashStr(d));
   const std::set<int> a0 = a,b0 = b; std::set<int> u,n,r,f; for (int x = -top;x <= top;x++) { const bool p = a.count(x),q = b.count(x); if (p || q) u.insert(x); if (p && q) n.insert(x); if (p && x != v) r.insert(x); if (p && (x + 40) % k == 0) f.insert(x); }
   REQUIRE((a | b) == u && (b | a) == u,"the union is " << show(a | b) << ": " << d);
   REQUIRE((a & b) == n && (b & a) == n,"the intersection is " << show(a & b) << ": " << d);
   REQUIRE(remove(a,v) == r,"without " << v << " it is " << show(remove(a,v)) << ": " << d);
   auto pk = [k](int x) { return (x + 40) % k == 0;};
   REQUIRE(std::filter(a,pk) == f,"the filtered set is " << show(std::filter(a,pk)) << ": " << d);
   REQUIRE(std::min(a) == (a.empty() ? std::numeric_limits<int>::max() : *a.begin()) && std::max(a) == (a.empty() ? std::numeric_limits<int>::min() : *a.rbegin()),"min " << std::min(a) << " max " << std::max(a) << ": " << d);
   std::vector<int> w(b.begin(),b.end()); w.insert(w.end(),a.begin(),a.end()); bool any = false,anyW = false; for (int x : a) any |= x == v; for (int x : w) anyW |= pk(x);
   REQUIRE(std::member(a,[v](int x) { return x == v;}) == any && std::member(w,pk) == anyW,"member is wrong: " << d);
   long acc = 7; for (int x : w) acc = acc * 3 - x; REQUIRE(std::foldl(w,[](long c,int x) { return c * 3 - x;},7l) == acc,"foldl does not fold from the left: " << d);
   REQUIRE(a == a0 && b == b0,"an operand changed: " << d);
   std::set<int> again; std::vector<int> el(a.begin(),a.end()); while (!el.empty()) { auto i = s.draw((uint32_t)el.size()); again.insert(el[i]); el.erase(el.begin() + i); }
   REQUIRE(std::hash<std::set<int>>{}(a) == std::hash<std::set<int>>{}(again),"equal sets hash differently: " << d);
   const int lo = s.range(0,200),hi = lo + s.range(0,150); std::vector<int> io,wo; for (int x : setFrom(std::views::iota(lo,hi))) io.push_back(x); for (int x = lo;x < hi;x++) wo.push_back(x);
   REQUIRE(io == wo,"the set of " << lo << ".." << hi << " is " << show(io) << ": " << d);
   c.nontrivial = a.size() > 1 && b.size() > 1 && !n.empty() && (n != a || n != b);
}
PROPERTY(reversed_bits,"neither empty, full nor a palindrome",300000,6000000,30000,400000,10000) {
   unsigned long long w = 0; switch (s.range(0,3)) { case 0: w = 1ull << s.range(0,63); break; case 1: w = ((unsigned long long)s.draw(0xffffffffu) << 32) | s.draw(0xffffffffu); break; case 2: w = 0xffull << (8 * s.range(0,7)); break; default: w = ~(1ull << s.range(0,63)); }
   unsigned long long r = 0; for (int i = 0;i < 64;i++) if (w >> i & 1) r |= 1ull << (63 - i);
   c.note(PBT_STR(std::hex << w)); c.print(w);
   REQUIRE(std::revBitsOfLong(w) == r,std::hex << w << " reversed is " << std::revBitsOfLong(w) << ", not " << r);
   REQUIRE(std::revBitsOfWord(w) == r,std::hex << w << " reversed by bytes is " << std::revBitsOfWord(w) << ", not " << r);
   REQUIRE(std::revBitsOfByte((unsigned char)w) == (unsigned char)(r >> 56),std::hex << (w & 255) << " reversed is " << (int)std::revBitsOfByte((unsigned char)w));
   c.nontrivial = w && ~w && w != r;
}
PBT_MAIN
