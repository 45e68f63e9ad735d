// D01 - the growable natural-number set behaves as a mathematical finite set, whatever the history.
// Oracle: std::set<int>.  Stateful: several sets evolve together through random operations.
#include "pbt.hpp"
#include <cstring>
#include "util.hpp"
#include <ranges>
typedef std::set<int> M;

static std::string show(const M& m) {
   std::ostringstream o; o << '{'; bool f = true;
   int k = 0;
   for (auto x : m) { if (++k > 40) { o << ",... " << m.size() << " elements"; break; } o << (f ? "" : ",") << x; f = false; }
   o << '}'; return o.str();
}
static std::string full(const M& m) {  // the printed form
   std::ostringstream o; o << '{'; bool f = true;
   for (auto x : m) { o << (f ? "" : ",") << x; f = false; }
   o << '}'; return o.str();
}
static M read(const GNSet& g,int guard = 2000000) {
   M r; int k = 0,last = -1;
   for (auto it = g.begin();it != g.end();it++) {
      int v = *it;
      REQUIRE(++k <= guard,"iteration does not end");
      REQUIRE(v > last,"iteration not increasing: " << v << " after " << last);
      last = v; r.insert(v);
   }
   return r;
}
// values: word boundaries are over-represented; `big` adds values above 2^15 and 2^16
static int val(pbt::Src& s,int big) {
   static const std::vector<int> edge {0,1,2,31,32,61,62,63,64,65,66,126,127,128,129,190,191,192,193,255,256,257};
   switch (s.weighted({4,4,2,(unsigned)(big ? 2 : 0)})) {
      case 0: return s.range(0,12);
      case 1: return s.pick(edge);
      case 2: return s.range(0,400);
      default: return s.pick(std::vector<int>{32767,32768,32769,40000,65535,65536,65537,70001,90000});
   }
}
static void same(const GNSet& g,const M& m,const char* what,const std::string& log) {
   auto r = read(g);
   REQUIRE(r == m,what << ": elements " << show(r) << " expected " << show(m) << " after " << log);
   REQUIRE(g.size() == (int)m.size(),what << ": size " << g.size() << " expected " << m.size() << " for " << show(m) << " after " << log);
   REQUIRE(g.empty() == m.empty(),what << ": empty() is " << g.empty() << " for " << show(m) << " after " << log);
   for (auto x : m) REQUIRE(g.contains(x),what << ": contains(" << x << ") false for " << show(m) << " after " << log);
   for (auto x : m) for (int d : {-1,1,63,64,65}) if (x + d >= 0 && !m.count(x + d))
      REQUIRE(!g.contains(x + d),what << ": contains(" << x + d << ") true for " << show(m) << " after " << log);
   for (int x : {0,1,63,64,127,128,500,100000}) REQUIRE(g.contains(x) == (m.count(x) > 0),what << ": contains(" << x << ") wrong for " << show(m) << " after " << log);
}

PROPERTY(history,"at least 6 operations, two sets of different word capacity interacted, and some set had elements in two words",
         80000,2000000,8000,150000,500) {
   const int big = s.chance(1,6);
   std::vector<GNSet> g; std::vector<M> m;
   std::ostringstream log;
   const int nslots = 3;
   for (int k = 0;k < nslots;k++) { g.emplace_back(); m.emplace_back(); }
   const int ops = s.range(1,24);
   bool multi = false,inter = false;
   auto build = [&](int k) {
      switch (s.range(0,7)) {
         case 0: { g[k] = GNSet(); m[k].clear(); log << k << "=();"; break; }
         case 1: { auto nb = (unsigned short)s.pick(std::vector<int>{64,0,1,63,65,128,200}); GNSet t(nb); g[k] = t; m[k].clear(); log << k << "=(" << nb << ");"; break; }
         case 2: { int a = val(s,0),b = val(s,0); g[k] = GNSet(a,b); m[k].clear(); for (int i = a;i <= b;i++) m[k].insert(i); log << k << "=[" << a << ".." << b << "];"; break; }
         case 3: { int a = val(s,0),b = val(s,0); if (a > b) std::swap(a,b); g[k] = GNSet(Range::open(a,b)); m[k].clear(); for (int i = a;i < b;i++) m[k].insert(i); log << k << "=Range[" << a << "," << b << ");"; break; }
         case 4: { int a = val(s,0),b = val(s,0); if (a < b) std::swap(a,b); g[k] = GNSet(Range::close(a,b)); m[k].clear(); for (int i = b;i <= a;i++) m[k].insert(i); log << k << "=Range(" << a << " down to " << b << ");"; break; }
         case 5: { NatSet<3> n; m[k].clear(); int c = s.range(0,5); log << k << "=NatSet{"; for (int i = 0;i < c;i++) { int v = s.range(0,191); if (s.coin()) v = v / 64 * 64 + 63; n.insert(v); m[k].insert(v); log << v << ' '; } GNSet t(n); g[k] = t; log << "};"; break; }
         case 6: { int a = val(s,big),b = val(s,big),d = val(s,big); g[k] = GNSet{a,b,d}; m[k] = {a,b,d}; log << k << "={" << a << ',' << b << ',' << d << "};"; break; }
         default: { int a = s.range(0,130),b = s.range(0,130); if (a > b) std::swap(a,b); g[k] = setFrom(std::views::iota(a,b)); m[k].clear(); for (int i = a;i < b;i++) m[k].insert(i); log << k << "=iota[" << a << "," << b << ");"; break; }
      }
   };
   for (int k = 0;k < nslots;k++) build(k);
   for (int o = 0;o < ops;o++) {
      int a = s.range(0,nslots - 1),b = s.range(0,nslots - 1);
      if (a != b && g[a].nbWords() != g[b].nbWords()) inter = true;
      switch (s.range(0,19)) {
         case 0: case 1: { int v = val(s,big); g[a].insert(v); m[a].insert(v); log << a << "+=" << v << ';'; break; }
         case 2: { int v = m[a].empty() || s.coin() ? val(s,big) : *std::next(m[a].begin(),(long)s.draw((uint32_t)m[a].size())); g[a].remove(v); m[a].erase(v); log << a << "-=" << v << ';'; break; }
         case 3: { g[a].unionWith(g[b]); for (auto x : M(m[b])) m[a].insert(x); log << a << " U= " << b << ';'; break; }
         case 4: { g[a].interWith(g[b]); M r; for (auto x : m[a]) if (m[b].count(x)) r.insert(x); m[a] = r; log << a << " &= " << b << ';'; break; }
         case 5: { g[a].diffWith(g[b]); M r; for (auto x : m[a]) if (!m[b].count(x)) r.insert(x); m[a] = r; log << a << " \\= " << b << ';'; break; }
         case 6: { int d = s.range(0,nslots - 1); g[d] = g[a] | g[b]; M r = m[a]; r.insert(m[b].begin(),m[b].end()); m[d] = r; log << d << '=' << a << '|' << b << ';'; break; }
         case 7: { int d = s.range(0,nslots - 1); g[d] = g[a] & g[b]; M r; for (auto x : m[a]) if (m[b].count(x)) r.insert(x); m[d] = r; log << d << '=' << a << '&' << b << ';'; break; }
         case 8: { int d = s.range(0,nslots - 1); g[d] = g[a] - g[b]; M r; for (auto x : m[a]) if (!m[b].count(x)) r.insert(x); m[d] = r; log << d << '=' << a << '-' << b << ';'; break; }
         case 9: { int v = s.chance(1,8) ? -1 : val(s,big); g[a].removeAbove(v); m[a].erase(m[a].upper_bound(v),m[a].end()); log << a << " drop>" << v << ';'; break; }
         case 10: { int v = val(s,big); g[a].removeBelow(v); m[a].erase(m[a].begin(),m[a].lower_bound(v)); log << a << " drop<" << v << ';'; break; }
         case 11: { g[a].clear(); m[a].clear(); log << a << ".clear;"; break; }
         case 12: { if (a != b) { g[a] = g[b]; m[a] = m[b]; } log << a << ":=" << b << ';'; break; }
         case 13: { GNSet t(g[b]); g[a] = std::move(t); m[a] = m[b]; log << a << ":=copy " << b << ';'; break; }
         case 14: { if (a != b) { g[a] = std::move(g[b]); m[a] = m[b];
                       switch (s.range(0,2)) { // a moved-from set may be assigned to, or copied around (content unspecified)
                          case 0: g[b] = g[a]; m[b] = m[a]; log << a << ":=move " << b << ',' << b << ":=" << a << ';'; break;
                          case 1: build(b); log << "(moved-from) "; break;
                          default: { GNSet t(g[b]); t = g[a]; g[b] = t; m[b] = m[a]; log << a << ":=move " << b << ",copied;"; break; }
                       } } break; }
         case 15: { int k = 2 + (int)s.draw(3); auto p = [k](int v) { return v % k != 0;}; g[a] = filter(g[a],p); M r; for (auto x : m[a]) if (p(x)) r.insert(x); m[a] = r; log << a << "=filter%" << k << ';'; break; }
         case 16: { int cap = g[a].nbWords() * 64; if (cap <= 512) { g[a].complement(); M r; for (int i = 0;i < cap;i++) if (!m[a].count(i)) r.insert(i); m[a] = r; log << '~' << a << ';'; } break; }
         case 17: { bool e = g[a] == g[b],ne = g[a] != g[b]; REQUIRE(e == (m[a] == m[b]),"operator== is " << e << " for " << show(m[a]) << " and " << show(m[b]) << " after " << log.str());
                    REQUIRE(ne == (m[a] != m[b]),"operator!= is " << ne << " for " << show(m[a]) << " and " << show(m[b]) << " after " << log.str()); break; }
         case 18: build(a); break;
         default: {
            int mn = min(g[a]),mx = max(g[a]);
            REQUIRE(mn == (m[a].empty() ? std::numeric_limits<int>::max() : *m[a].begin()),"min() gives " << mn << " for " << show(m[a]) << " after " << log.str());
            REQUIRE(mx == (m[a].empty() ? std::numeric_limits<int>::min() : *m[a].rbegin()),"max() gives " << mx << " for " << show(m[a]) << " after " << log.str());
            auto f = [](int v) { return v % 3 != 1;}; auto t = [](int v) { return (v * 7) % 101 - 50;};
            int sm = 0,fmn = std::numeric_limits<int>::max(),fmx = std::numeric_limits<int>::min(),cnt = 0; bool any = false;
            for (auto x : m[a]) { sm += t(x); if (f(x)) { fmn = std::min(fmn,t(x)); fmx = std::max(fmx,t(x)); } cnt += x % 2; any |= x % 5 == 0; }
            REQUIRE(sum(g[a],t) == sm,"sum() wrong for " << show(m[a]));
            REQUIRE(min(g[a],f,t) == fmn && max(g[a],f,t) == fmx,"filtered min/max wrong for " << show(m[a]));
            REQUIRE(std::foldl(g[a],[](int acc,int v) { return acc + v % 2;},0) == cnt,"foldl wrong for " << show(m[a]));
            REQUIRE(std::member(g[a],[](int v) { return v % 5 == 0;}) == any,"member wrong for " << show(m[a]));
            std::ostringstream o; o << g[a];
            REQUIRE(o.str() == full(m[a]),"printed as " << o.str() << " expected " << show(m[a]));
         }
      }
      for (int k = 0;k < nslots;k++) {
         same(g[k],m[k],PBT_STR("set " << k).c_str(),log.str());
         multi |= !m[k].empty() && (*m[k].begin() >> 6) != (*m[k].rbegin() >> 6);
      }
   }
   c.nontrivial = ops >= 6 && inter && multi;
   if (big) c.label("values above 2^15");
   c.note(log.str()); c.print(pbt::hashStr(log.str()));
}
PBT_MAIN
