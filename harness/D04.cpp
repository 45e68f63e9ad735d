// D04 - state identity: two equal values hash equally and behave as one key, however each was built.
// Oracle: build the same abstract value through two independent histories (different capacity,
// insertion order, leftovers of removed elements, moved storage, ...), and near-miss different values.
#include "pbt.hpp"
#include <cstring>
#include "util.hpp"
typedef std::set<int> M;
static std::string show(const M& m) { std::ostringstream o; o << '{'; for (auto x : m) o << x << ' '; o << '}'; return o.str();}
static int val(pbt::Src& s) {
   static const std::vector<int> edge {0,1,63,64,65,127,128,191,192,255,256};
   switch (s.range(0,2)) { case 0: return s.range(0,10); case 1: return s.pick(edge); default: return s.range(0,300); }
}
static GNSet buildGN(pbt::Src& s,const M& m,std::ostringstream& log) {
   GNSet g; 
   switch (s.range(0,5)) {
      case 0: log << "() "; break;
      case 1: { auto nb = (unsigned short)s.pick(std::vector<int>{0,1,64,65,128,400}); g = GNSet(nb); log << '(' << nb << ") "; break; }
      case 2: { int hi = s.range(0,500); g = GNSet(0,hi); for (int i = 0;i <= hi;i++) if (!m.count(i)) g.remove(i); log << "[0.." << hi << "]-others "; break; }
      case 3: { int hi = s.range(0,500); g = GNSet(Range::close(0,hi)); g.clear(); log << "Range0.." << hi << " cleared "; break; }
      case 4: { GNSet t{val(s),val(s)}; t.clear(); g = std::move(t); log << "moved "; break; }
      default: { GNSet a,b; for (auto x : m) { if (s.coin()) a.insert(x); else b.insert(x); } int e = val(s); GNSet d{e}; if (!m.count(e)) { a.insert(e); g = (b | a) - d; } else g = b | a; log << "union "; break; }
   }
   std::vector<int> el(m.begin(),m.end());
   for (std::size_t i = el.size();i > 1;i--) std::swap(el[i - 1],el[s.draw((uint32_t)i)]);
   for (auto x : el) g.insert(x);
   int extra = s.range(0,2);
   for (int i = 0;i < extra;i++) { int x = val(s) + (s.coin() ? 300 : 0); if (!m.count(x)) { g.insert(x); g.remove(x); log << "+-" << x << ' '; } }
   switch (s.range(0,3)) {
      case 0: break;
      case 1: { GNSet t(g); g = t; break; }
      case 2: { int mx = m.empty() ? 0 : *m.rbegin(); g.insert(mx + 70); g.removeAbove(mx); if (m.empty()) g.clear(); log << "above "; break; }
      default: { GNSet t(g); g = std::move(t); break; }
   }
   return g;
}
PROPERTY(gnset,"the two histories differ and the value has at least two elements",800000,15000000,80000,1500000,10000) {
   M m; int k = s.range(0,6); for (int i = 0;i < k;i++) m.insert(val(s));
   std::ostringstream la,lb;
   GNSet a = buildGN(s,m,la),b = buildGN(s,m,lb);
   auto d = PBT_STR(show(m) << " via " << la.str() << "/ " << lb.str());
   REQUIRE(a == b && !(a != b),"the same set built twice compares different: " << d);
   REQUIRE(std::hash<GNSet>{}(a) == std::hash<GNSet>{}(b),"equal sets hash differently: " << d << " hash " << a.hash() << " / " << b.hash() << " words " << a.nbWords() << " / " << b.nbWords());
   M m2 = m; int x = val(s); if (m2.count(x)) m2.erase(x); else m2.insert(x);
   GNSet e = buildGN(s,m2,lb);
   REQUIRE(!(a == e) && a != e && !(e == a),"different sets compare equal: " << show(m) << " and " << show(m2));
   c.nontrivial = m.size() >= 2 && la.str() != lb.str();
   if (a.nbWords() != b.nbWords()) c.label("different capacities");
   c.note(d); c.print(pbt::hashStr(d));
}
PROPERTY(farray,"at least two elements",400000,8000000,40000,800000,10000) {
   int n = s.range(0,12);
   std::vector<int> v; for (int i = 0;i < n;i++) v.push_back(s.range(-2,3));
   auto mk = [&](const std::vector<int>& q) {
      FArray<int> f;
      switch (s.range(0,3)) {
         case 0: f = FArray<int>(q.size()); break;
         case 1: f = FArray<int>(q.size(),7); break;
         case 2: { FArray<int> t(s.range(0,9),1); f = t; f = FArray<int>(q.size(),5); break; }
         default: { FArray<int> t(q.size(),3); FArray<int> u(std::move(t)); t = u; f = t; }
      }
      for (std::size_t i = 0;i < q.size();i++) f[i] = q[i];
      return f;
   };
   auto a = mk(v),b = mk(v);
   auto d = PBT_STR("array of " << n << ":"); for (auto x : v) d += PBT_STR(' ' << x);
   REQUIRE(a == b,"same array compares different: " << d);
   REQUIRE(std::hash<FArray<int>>{}(a) == std::hash<FArray<int>>{}(b),"equal arrays hash differently: " << d);
   auto w = v; if (s.coin() || w.empty()) w.push_back(0); else w[s.draw((uint32_t)w.size())] += 1;
   auto e = mk(w);
   REQUIRE(!(a == e) && !(e == a),"different arrays compare equal: " << d);
   std::vector<FArray<int>> fs {a,b}; 
   REQUIRE(std::hash<std::vector<int>>{}(v) == std::hash<std::vector<int>>{}(std::vector<int>(v)),"vector hash not a function of the value: " << d);
   c.nontrivial = n >= 2; c.note(d); c.print(pbt::hashStr(d));
}
PROPERTY(stdset,"at least two elements",100000,1000000,10000,100000,5000) {
   M a,b; int k = s.range(0,6); std::vector<int> v;
   for (int i = 0;i < k;i++) v.push_back(s.range(0,40));
   for (auto x : v) a.insert(x);
   for (auto it = v.rbegin();it != v.rend();++it) b.insert(*it);
   REQUIRE(std::hash<M>{}(a) == std::hash<M>{}(b),"equal sets hash differently " << show(a));
   M u = a | M{5,9},i = u & a,r = ::remove(u,5);
   M wu = a; wu.insert(5); wu.insert(9); M wr = wu; wr.erase(5);
   REQUIRE(u == wu && i == a && r == wr,"set algebra on std::set wrong for " << show(a));
   REQUIRE(std::min(a) == (a.empty() ? std::numeric_limits<int>::max() : *a.begin()) && std::max(a) == (a.empty() ? std::numeric_limits<int>::min() : *a.rbegin()),"min/max of " << show(a));
   c.nontrivial = a.size() >= 2; c.note(show(a)); c.print(pbt::hashStr(show(a)));
}
PBT_MAIN
