// D06 - the priority queue: multiset content, extraction in priority order, removal and key decrease by handle.
// Oracle: a list of (value,identity) pairs.
#include "pbt.hpp"
#include <cassert>
#include "heap.hpp"
struct V { int key; int id; bool operator==(const V& o) const { return id == o.id;}
   V& operator--(int) { --key; return *this;} };
static std::ostream& operator<<(std::ostream& os,const V& v) { return os << v.key << '#' << v.id;}
PROPERTY(history,"at least 8 elements were in the queue at once, and an element was removed or decreased by handle or the queue grew",
         200000,4000000,25000,400000,1000) {
   Pool pool(s.coin() ? 1 << 22 : 4096);
   const bool mx = s.coin();
   auto ord = [mx](const V& a,const V& b) { return mx ? a.key > b.key : a.key < b.key;};
   const int cap = s.pick(std::vector<int>{1,2,3,4,8,17,64});
   Heap<V,decltype(ord)> h(&pool,cap,ord);
   typedef Heap<V,decltype(ord)>::LocType L;
   std::map<int,std::pair<L*,int>> in;   // id -> handle,key
   const int spread = s.pick(std::vector<int>{1,3,10,1000});
   int nid = 0; std::size_t peak = 0; bool handled = false;
   std::ostringstream log; log << (mx ? "max" : "min") << " cap=" << cap << ' ';
   auto best = [&]() { int b = 0; bool f = true; for (auto& [i,p] : in) if (f || (mx ? p.second > b : p.second < b)) { b = p.second; f = false; } return b;};
   auto verify = [&]() {
      REQUIRE(h.size() == in.size(),"size " << h.size() << " expected " << in.size() << " after " << log.str());
      REQUIRE(h.empty() == in.empty(),"empty() wrong after " << log.str());
      std::set<int> seen;
      for (unsigned i = 0;i < h.size();i++) { V v = h[(int)i]->value(); auto it = in.find(v.id); REQUIRE(it != in.end() && it->second.second == v.key,"slot " << i << " holds " << v << " after " << log.str()); seen.insert(v.id); }
      REQUIRE(seen.size() == in.size(),"an element is held twice after " << log.str());
      for (auto& [i,p] : in) { V v = p.first->value(); REQUIRE(v.id == i && v.key == p.second,"handle of " << i << " shows " << v << " expected key " << p.second << " after " << log.str()); }
   };
   const int ops = s.range(1,s.chance(1,6) ? 150 : 40);
   const int mode = s.range(0,2);   // 0 insertHeap only, 1 bulk insert+buildHeap first, 2 mostly growing
   if (mode == 1) {
      int k = s.chance(1,40) ? s.range(100,400) : s.range(1,30);
      for (int i = 0;i < k;i++) { int key = s.range(0,spread); auto* l = h.insert(V{key,nid}); in[nid] = {l,key}; log << "i" << key << '#' << nid << ' '; ++nid; }
      h.buildHeap(); log << "build ";
      verify();
   }
   for (int o = 0;o < ops;o++) {
      switch (s.weighted({mode == 2 ? 8u : 4u,3,2,2,mode == 2 ? 0u : 1u})) {
         case 0: { int key = s.range(0,spread); auto* l = const_cast<L*>(h.insertHeap(V{key,nid})); in[nid] = {l,key}; log << "+" << key << '#' << nid << ' '; ++nid; break; }
         case 1: if (!in.empty()) { int b = best(); V v = h.extractMax(); log << "x" << v << ' ';
                    REQUIRE(in.count(v.id) && in[v.id].second == v.key,"extracted " << v << " that is not in the queue, after " << log.str());
                    REQUIRE(v.key == b,"extracted key " << v.key << " while the best is " << b << ", after " << log.str()); in.erase(v.id); } break;
         case 2: if (!in.empty()) { auto it = std::next(in.begin(),(long)s.draw((uint32_t)in.size())); int id = it->first,key = it->second.second; log << "rm" << key << '#' << id << ' ';
                    V v = h.remove(it->second.first); REQUIRE(v.id == id && v.key == key,"removing " << key << '#' << id << " returned " << v << " after " << log.str()); in.erase(it); handled = true; } break;
         case 3: if (!in.empty() && !mx) { auto it = std::next(in.begin(),(long)s.draw((uint32_t)in.size())); int k = s.range(1,4); log << "dec" << k << ':' << it->second.second << '#' << it->first << ' ';
                    for (int i = 0;i < k;i++) { h.decrease(it->second.first); it->second.second--; } handled = true; } break;
         default: if (s.chance(1,8)) { h.clear(); in.clear(); log << "clear "; } break;
      }
      peak = std::max(peak,in.size());
      verify();
      if (nid && s.chance(1,4)) { // find by value (elements are equal when their ids are)
         int id = s.range(0,nid - 1); L* at = h.find(V{0,id}); auto it = in.find(id);
         REQUIRE(at == (it == in.end() ? nullptr : it->second.first),"find(#" << id << ") gives " << (at ? "a handle" : "nothing") << ", the element is " << (it == in.end() ? "not " : "") << "in the queue, after " << log.str());
      }
   }
   while (!in.empty()) { int b = best(); V v = h.extractMax(); REQUIRE(in.count(v.id) && in[v.id].second == v.key && v.key == b,"final extraction gives " << v << " while the best is " << b << " after " << log.str()); in.erase(v.id); REQUIRE(h.size() == in.size(),"size wrong in final extraction after " << log.str()); }
   REQUIRE(h.empty(),"not empty at the end after " << log.str());
   c.nontrivial = peak >= 8 && (handled || (int)peak >= cap);
   if ((int)peak >= cap) c.label("grew");
   if (mode == 1) c.label("bulk build");
   c.note(log.str()); c.print(pbt::hashStr(log.str()));
}
// the same at scale: thousands of elements, several growths, handles kept across all of them
PROPERTY(scale,"more than 2000 elements at once",120,4000,24,400,10) {
   Pool pool; const bool mx = s.coin();
   auto ord = [mx](const V& a,const V& b) { return mx ? a.key > b.key : a.key < b.key;};
   const int cap = s.pick(std::vector<int>{2,64,1000,4096}), spread = s.pick(std::vector<int>{5,1000,1000000});
   Heap<V,decltype(ord)> h(&pool,cap,ord); typedef Heap<V,decltype(ord)>::LocType L;
   const int n = s.range(1,100) * s.range(1,200); pbt::Rng r(s.draw(1u << 30)); const bool bulk = s.coin();
   std::vector<L*> loc; std::vector<int> key; std::multiset<int> in; std::vector<char> live;
   for (int i = 0;i < n;i++) { int k = (int)r.below((uint32_t)spread); loc.push_back(bulk ? h.insert(V{k,i}) : const_cast<L*>(h.insertHeap(V{k,i}))); key.push_back(k); live.push_back(1); in.insert(k); }
   if (bulk) h.buildHeap();
   auto d = PBT_STR((mx ? "max" : "min") << " cap=" << cap << " n=" << n << " spread=" << spread << (bulk ? " bulk" : ""));
   REQUIRE(h.size() == (unsigned)n,"size " << h.size() << ' ' << d);
   for (int i = 0;i < n;i++) { V v = loc[(std::size_t)i]->value(); REQUIRE(v.id == i && v.key == key[(std::size_t)i],"handle of " << i << " shows " << v << ' ' << d); }
   for (int q = 0;q < n / 4;q++) {
      auto i = (std::size_t)r.below((uint32_t)n); if (!live[i]) continue;
      if (!mx && r.below(2)) { h.decrease(loc[i]); in.erase(in.find(key[i])); in.insert(--key[i]); }
      else { V v = h.remove(loc[i]); REQUIRE(v.id == (int)i && v.key == key[i],"removing element " << i << " returned " << v << ' ' << d); in.erase(in.find(key[i])); live[i] = 0; }
   }
   while (!in.empty()) { int b = mx ? *in.rbegin() : *in.begin(); V v = h.extractMax(); REQUIRE(live[(std::size_t)v.id] && key[(std::size_t)v.id] == v.key && v.key == b,"extraction gives " << v << " while the best is " << b << ", " << in.size() << " left, " << d); live[(std::size_t)v.id] = 0; in.erase(in.find(v.key)); }
   REQUIRE(h.empty(),"not empty at the end " << d);
   c.nontrivial = n > 2000; c.note(d); c.print(pbt::hashStr(d));
}
PBT_MAIN
