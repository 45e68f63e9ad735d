// D08 - the hash tables map keys to values whatever the hash function, the capacity and the history of clears.
// Oracle: std::map.
#include "pbt.hpp"
#include <cassert>
#include "hashtable.hpp"
#include "lighthash.hpp"
struct Key { int v; friend bool operator==(const Key& a,const Key& b) { return a.v == b.v;} friend std::ostream& operator<<(std::ostream& os,const Key& k) { return os << k.v;} };
static int gMode = 0;
template <> struct std::hash<Key> { std::size_t operator()(const Key& k) const noexcept { return gMode == 0 ? (std::size_t)k.v * 2654435761u : gMode == 1 ? (std::size_t)(k.v % 3) : gMode == 2 ? 0 : gMode == 4 ? (std::size_t)(k.v % 1500) : ~(std::size_t)k.v;} };
struct Mute { std::streambuf* o; struct NB :std::streambuf { int overflow(int c) override { return c;} } nb; Mute() { o = std::cout.rdbuf(&nb);} ~Mute() { std::cout.rdbuf(o);} };

PROPERTY(map,"at least 10 operations, some key written twice or looked up after a clear",60000,1500000,8000,150000,500) {
   Mute mute;
   gMode = s.range(0,3);
   Pool pool(s.coin() ? 1 << 22 : 8192);
   const std::size_t sz = (std::size_t)s.pick(std::vector<int>{0,1,2,3,7,546,547,548,1000});
   Hashtable<Key,int> h(&pool,sz); std::map<int,int> m;
   std::ostringstream log; log << "hash" << gMode << " sz=" << sz << ' ';
   const int ops = s.range(1,60),span = s.pick(std::vector<int>{4,12,60}); bool dup = false,cleared = false;
   for (int o = 0;o < ops;o++) {
      int k = s.range(0,span),v = s.range(1,1000);
      switch (s.weighted({4,3,2,1,2,2})) {
         case 0: { dup |= m.count(k) > 0; h.insert(Key{k},v); m[k] = v; log << k << '=' << v << ' '; break; }
         case 1: { int r = -7; bool f = h.get(Key{k},r); REQUIRE(f == (m.count(k) > 0),"get(" << k << ") found=" << f << " after " << log.str()); if (f) REQUIRE(r == m[k],"get(" << k << ") = " << r << " expected " << m[k] << " after " << log.str()); else REQUIRE(r == -7,"failed get changed its output after " << log.str()); dup |= cleared; break; }
         case 2: { int r = -7; auto at = h.getLoc(Key{k},r); REQUIRE((bool)at == (m.count(k) > 0),"getLoc(" << k << ") found=" << (bool)at << " after " << log.str());
                   if (at) REQUIRE(r == m[k],"getLoc(" << k << ") = " << r << " after " << log.str()); else { h.safeInsertAt(at,Key{k},v); m[k] = v; log << k << "@=" << v << ' '; } break; }
         case 3: if (s.chance(1,3)) { h.clear(); m.clear(); cleared = true; log << "clear "; } break;
         case 4: if (!m.count(k)) { h.safeInsert(Key{k},v); m[k] = v; log << k << "s=" << v << ' '; } break;
         default: { std::map<int,int> a; h.doOnAll([&](const Key& q,int w) { REQUIRE(a.insert({q.v,w}).second,"key " << q.v << " visited twice after " << log.str());}); REQUIRE(a == m,"doOnAll visits " << a.size() << " entries, expected " << m.size() << " after " << log.str()); break; }
      }
      REQUIRE(h.size() == m.size(),"size " << h.size() << " expected " << m.size() << " after " << log.str());
   }
   for (int k = 0;k <= span;k++) { int r = 0; bool f = h.get(Key{k},r); REQUIRE(f == (m.count(k) > 0) && (!f || r == m[k]),"final get(" << k << ") after " << log.str()); }
   c.nontrivial = ops >= 10 && dup; if (cleared) c.label("cleared"); c.label(PBT_STR("hash mode " << gMode));
   c.note(log.str()); c.print(pbt::hashStr(log.str()));
}
PROPERTY(nodes,"at least 10 operations with a collision-prone hash or a clear",60000,1500000,8000,150000,500) {
   Mute mute;
   gMode = s.range(0,3);
   Pool pool(s.coin() ? 1 << 22 : 8192);
   const std::size_t sz = (std::size_t)s.pick(std::vector<int>{0,1,2,3,7,546,547,548,1000});
   LHashtable<Key> h(&pool,sz); std::map<int,Node<Key>*> m; std::set<Node<Key>*> all;
   std::ostringstream log; log << "hash" << gMode << " sz=" << sz << ' ';
   const int ops = s.range(1,60),span = s.pick(std::vector<int>{4,12,60}); bool cleared = false;
   for (int o = 0;o < ops;o++) {
      int k = s.range(0,span);
      Node<Key>* r = nullptr;
      switch (s.weighted({6,1,2})) {
         case 0: { auto at = h.getLoc(Key{k},r);
                   REQUIRE((bool)at == (m.count(k) > 0),"getLoc(" << k << ") found=" << (bool)at << " after " << log.str());
                   if (at) { REQUIRE(r == m[k] && r->get().v == k,"getLoc(" << k << ") gives another node after " << log.str()); }
                   else { REQUIRE(r == nullptr,"failed getLoc changed its output after " << log.str()); auto* n = new (&pool) Node<Key>(&pool,Key{k},(unsigned)o,true);
                          if (s.coin()) h.safeInsertAt(at,n); else h.rawInsertAt(at,n);
                          m[k] = n; log << "+" << k << ' '; } break; }
         case 1: if (s.chance(1,3)) { h.clear(); m.clear(); cleared = true; log << "clear "; } break;
         default: { std::map<int,Node<Key>*> a; h.doOnAll([&](Node<Key>* n) { REQUIRE(a.insert({n->get().v,n}).second,"node visited twice after " << log.str());}); REQUIRE(a == m,"doOnAll visits " << a.size() << " nodes, expected " << m.size() << " after " << log.str()); break; }
      }
      REQUIRE(h.size() == m.size(),"size " << h.size() << " expected " << m.size() << " after " << log.str());
   }
   c.nontrivial = ops >= 10 && (gMode == 1 || gMode == 2 || cleared); if (cleared) c.label("cleared"); c.label(PBT_STR("hash mode " << gMode));
   c.note(log.str()); c.print(pbt::hashStr(log.str()));
}
// a few keys survive (or must not survive) a long series of clears; and tables with thousands of entries
PROPERTY(many_clears,"more than 300 clears between two uses",200,8000,40,800,10) {
   Mute mute; gMode = s.range(0,3); Pool pool,pool2;
   Hashtable<Key,int> h(&pool,(std::size_t)s.pick(std::vector<int>{0,7,547})); LHashtable<Key> l(&pool2,(std::size_t)s.pick(std::vector<int>{0,7,547}));
   int most = 0; std::ostringstream log; const int rounds = s.range(1,4);
   for (int r = 0;r < rounds;r++) {
      std::set<int> in; const int n = s.range(0,8);
      for (int i = 0;i < n;i++) { int k = s.range(0,20); if (!in.insert(k).second) continue; h.insert(Key{k},k * 7 + r); Node<Key>* at = nullptr; auto w = l.getLoc(Key{k},at); REQUIRE(!w,"key " << k << " is there before it was put, after " << log.str()); l.safeInsertAt(w,new (&pool2) Node<Key>(&pool2,Key{k},(unsigned)i,true)); }
      for (int k = 0;k <= 20;k++) {
         int v = 0; bool f = h.get(Key{k},v); REQUIRE(f == (in.count(k) > 0) && (!f || v == k * 7 + r),"get(" << k << ") found=" << f << " after " << log.str());
         Node<Key>* at = nullptr; bool g = (bool)l.getLoc(Key{k},at); REQUIRE(g == (in.count(k) > 0) && (!g || at->get().v == k),"getLoc(" << k << ") found=" << g << " after " << log.str());
      }
      REQUIRE(h.size() == in.size() && l.size() == in.size(),"sizes " << h.size() << ' ' << l.size() << " after " << log.str());
      int clears = s.chance(1,3) ? s.range(1,5) : s.chance(1,4) ? (1 << s.range(3,17)) + s.range(0,2) - 1 : s.range(1,400) * s.range(1,400); most = std::max(most,clears); log << "round of " << in.size() << ", " << clears << " clears; ";
      for (int i = 0;i < clears;i++) {
         h.clear(); l.clear();
         if (!in.empty()) { int k = *in.begin(),v = 0; Node<Key>* at = nullptr; REQUIRE(!h.get(Key{k},v) && !(bool)l.getLoc(Key{k},at),"key " << k << " is back after " << i + 1 << " clears, " << log.str()); }
      }
      int seen = 0; h.doOnAll([&](const Key&,int) { ++seen;}); l.doOnAll([&](Node<Key>*) { ++seen;}); REQUIRE(seen == 0,"entries seen in a cleared table after " << log.str());
   }
   c.nontrivial = most > 300 && rounds > 1; c.note(log.str()); c.print(pbt::hashStr(log.str()));
}
PROPERTY(many_keys,"more than 2000 keys",60,2000,12,200,5) {
   Mute mute; gMode = s.pick(std::vector<int>{0,0,3,4}); Pool pool,pool2;
   const std::size_t sz = (std::size_t)s.pick(std::vector<int>{547,2000,20000,209939,300000});
   Hashtable<Key,int> h(&pool,sz); LHashtable<Key> l(&pool2,sz); pbt::Rng r(s.draw(1u << 30)); std::map<int,int> m; std::map<int,Node<Key>*> nm;
   const int n = s.range(1,100) * s.range(1,100), span = s.pick(std::vector<int>{1000,30000,1 << 28});
   auto d = PBT_STR("hash" << gMode << " sz=" << sz << " n=" << n << " span=" << span);
   for (int i = 0;i < n;i++) { int k = (int)r.below((uint32_t)span); h.insert(Key{k},i); m[k] = i; Node<Key>* at = nullptr; auto w = l.getLoc(Key{k},at); REQUIRE((bool)w == (nm.count(k) > 0),"getLoc(" << k << ") wrong " << d); if (!w) { auto* q = new (&pool2) Node<Key>(&pool2,Key{k},(unsigned)i,true); l.safeInsertAt(w,q); nm[k] = q; } else REQUIRE(at == nm[k],"getLoc(" << k << ") gives another node " << d); }
   REQUIRE(h.size() == m.size() && l.size() == nm.size(),"size " << h.size() << ' ' << l.size() << " expected " << m.size() << ' ' << d);
   for (auto& [k,v] : m) { int x = -1; REQUIRE(h.get(Key{k},x) && x == v,"get(" << k << ") = " << x << " expected " << v << ' ' << d); }
   for (int i = 0;i < 300;i++) { // keys that may be absent, near the ones that are not
      int k = (int)r.below((uint32_t)span), x = -1; Node<Key>* at = nullptr;
      if (i % 2 && !m.empty()) k = std::next(m.begin(),(long)r.below((uint32_t)std::min<std::size_t>(m.size(),50)))->first + (int)(1 << r.below(12)) * 1500;
      REQUIRE(h.get(Key{k},x) == (m.count(k) > 0),"get(" << k << ") is wrong about its presence " << d); REQUIRE((bool)l.getLoc(Key{k},at) == (m.count(k) > 0),"getLoc(" << k << ") is wrong about its presence " << d);
   }
   std::size_t seen = 0; h.doOnAll([&](const Key& k,int v) { ++seen; REQUIRE(m.count(k.v) && m[k.v] == v,"entry invented " << d);}); REQUIRE(seen == m.size(),"visited " << seen << ' ' << d);
   seen = 0; l.doOnAll([&](Node<Key>* q) { ++seen; REQUIRE(nm[q->get().v] == q,"node invented " << d);}); REQUIRE(seen == nm.size(),"visited " << seen << " nodes " << d);
   c.nontrivial = m.size() > 2000; c.note(d); c.print(pbt::hashStr(d));
}
PBT_MAIN
