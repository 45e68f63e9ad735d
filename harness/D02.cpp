// D02 - the bounded natural-number set NatSet<nbw> behaves as a mathematical subset of [0,64*nbw).
// Oracle: std::set<int>.  Stateful, for 1 to 5 words.
#include "pbt.hpp"
#include <cstring>
#include "util.hpp"
typedef std::set<int> M;
static std::string show(const M& m) {
   std::ostringstream o; o << '{'; bool f = true;
   for (auto x : m) { o << (f ? "" : ",") << x; f = false; }
   o << '}'; return o.str();
}
static int val(pbt::Src& s,int cap) {
   static const std::vector<int> d {0,1,31,32,62,63};
   switch (s.range(0,2)) {
      case 0: return std::min(cap - 1,s.range(0,12));
      case 1: return s.range(0,cap / 64 - 1) * 64 + s.pick(d);
      default: return s.range(0,cap - 1);
   }
}
template <unsigned short W> static void same(const NatSet<W>& g,const M& m,const std::string& log) {
   M r; int k = 0,last = -1;
   for (auto it = g.begin();it != g.end();it++) { int v = *it; REQUIRE(++k <= 64 * W,"iteration does not end after " << log); REQUIRE(v > last,"iteration not increasing after " << log); last = v; r.insert(v); }
   REQUIRE(r == m,"NatSet<" << W << ">: elements " << show(r) << " expected " << show(m) << " after " << log);
   M r2; k = 0;
   for (auto it = g.cbegin();it != g.cend();++it) { REQUIRE(++k <= 64 * W,"const iteration does not end after " << log); r2.insert(*it); }
   REQUIRE(r2 == m,"NatSet<" << W << ">: const iteration gives " << show(r2) << " expected " << show(m) << " after " << log);
   REQUIRE(g.size() == (int)m.size(),"size " << g.size() << " for " << show(m) << " after " << log);
   REQUIRE(g.empty() == m.empty(),"empty() " << g.empty() << " for " << show(m) << " after " << log);
   REQUIRE(g.largest() == (m.empty() ? -1 : *m.rbegin()),"largest() " << g.largest() << " for " << show(m) << " after " << log);
   for (int i = 0;i < 64 * W;i++) REQUIRE(g.contains(i) == (m.count(i) > 0),"contains(" << i << ") wrong for " << show(m) << " after " << log);
}
template <unsigned short W> static void run(pbt::Src& s,pbt::Case& c) {
   const int cap = 64 * W, nslots = 3;
   std::vector<NatSet<W>> g(nslots); std::vector<M> m(nslots);
   std::ostringstream log; log << "W=" << W << ' ';
   bool multi = false;
   const int ops = s.range(1,20);
   for (int o = 0;o < ops;o++) {
      int a = s.range(0,nslots - 1),b = s.range(0,nslots - 1);
      switch (s.range(0,12)) {
         case 0: case 1: case 2: { int v = val(s,cap); g[a].insert(v); m[a].insert(v); log << a << "+=" << v << ';'; break; }
         case 3: { g[a].unionWith(g[b]); for (auto x : M(m[b])) m[a].insert(x); log << a << " U= " << b << ';'; break; }
         case 4: { g[a].interWith(g[b]); M r; for (auto x : m[a]) if (m[b].count(x)) r.insert(x); m[a] = r; log << a << " &= " << b << ';'; break; }
         case 5: { int d = s.range(0,nslots - 1); g[d] = g[a] | g[b]; M r = m[a]; r.insert(m[b].begin(),m[b].end()); m[d] = r; log << d << '=' << a << '|' << b << ';'; break; }
         case 6: { int d = s.range(0,nslots - 1); g[d] = g[a] & g[b]; M r; for (auto x : m[a]) if (m[b].count(x)) r.insert(x); m[d] = r; log << d << '=' << a << '&' << b << ';'; break; }
         case 7: { g[a].complement(); M r; for (int i = 0;i < cap;i++) if (!m[a].count(i)) r.insert(i); m[a] = r; log << '~' << a << ';'; break; }
         case 8: { g[a].clear(); m[a].clear(); log << a << ".clear;"; break; }
         case 9: { int lo = val(s,cap),hi = val(s,cap); NatSet<W> t(lo,hi); g[a] = t; m[a].clear(); for (int i = lo;i <= hi;i++) m[a].insert(i); log << a << "=[" << lo << ".." << hi << "];"; break; }
         case 10: { int x = val(s,cap),y = val(s,cap); g[a] = NatSet<W>{x,y}; m[a] = {x,y}; log << a << "={" << x << ',' << y << "};"; break; }
         case 11: { NatSet<W> t(g[b]); g[a] = std::move(t); m[a] = m[b]; log << a << ":=" << b << ';'; break; }
         default: {
            bool e = g[a] == g[b]; REQUIRE(e == (m[a] == m[b]),"operator== is " << e << " for " << show(m[a]) << " and " << show(m[b]));
            if (m[a] == m[b]) REQUIRE(std::hash<NatSet<W>>{}(g[a]) == std::hash<NatSet<W>>{}(g[b]),"equal sets with different hashes: " << show(m[a]));
            std::ostringstream os; os << g[a]; REQUIRE(os.str() == show(m[a]),"printed as " << os.str() << " expected " << show(m[a]));
            GNSet w(g[a]); M r; int k = 0; for (auto v : w) { REQUIRE(++k <= cap,"converted set does not end"); r.insert(v); }
            REQUIRE(r == m[a],"converted to GNSet: " << show(r) << " expected " << show(m[a]));
            int acc = 0; for (auto x : m[a]) acc += x;
            REQUIRE(std::foldl(g[a],[](int q,int v) { return q + v;},0) == acc,"foldl wrong for " << show(m[a]));
         }
      }
      for (int k = 0;k < nslots;k++) { same(g[k],m[k],log.str()); multi |= !m[k].empty() && *m[k].rbegin() >= 64; }
   }
   c.nontrivial = ops >= 5 && (W == 1 || multi);
   c.label(PBT_STR("words " << W));
   c.note(log.str()); c.print(pbt::hashStr(log.str()));
}
PROPERTY(history,"at least 5 operations and, beyond one word, an element in a higher word",150000,3000000,15000,250000,1000) {
   switch (s.range(1,5)) {
      case 1: run<1>(s,c); break;
      case 2: run<2>(s,c); break;
      case 3: run<3>(s,c); break;
      case 4: run<4>(s,c); break;
      default: run<5>(s,c); break;
   }
}
PBT_MAIN
