// D11 - merge sort returns an ordered permutation; union-find maintains the partition generated by the merges.
#include "pbt.hpp"
#include <cassert>
#include "msort.hpp"
#include "uf.hpp"
struct E { int k; int id; };
PROPERTY(sorting,"at least three elements with a repeated key or an inversion",400000,8000000,60000,800000,5000) {
   int n = s.chance(1,2000) ? s.range(1000,30000) : s.chance(1,50) ? s.range(0,600) : s.range(0,24); int spread = s.pick(std::vector<int>{1,3,20,1000}); bool desc = s.coin();
   int shape = s.range(0,3);
   std::vector<E> v; for (int i = 0;i < n;i++) { int k = shape == 1 ? i % (spread + 1) : shape == 2 ? i : shape == 3 ? n - i : s.range(0,spread); v.push_back({k,i}); }
   auto w = v;
   mergeSort(w.data(),w.size(),[desc](const E& a,const E& b) { return desc ? a.k > b.k : a.k < b.k;});
   auto d = PBT_STR((desc ? "desc" : "asc") << ':'); for (auto& e : v) d += PBT_STR(' ' << e.k);
   std::set<int> ids; for (auto& e : w) { REQUIRE(e.id >= 0 && e.id < n && v[(std::size_t)e.id].k == e.k,"an element was invented: " << d); ids.insert(e.id); }
   REQUIRE((int)ids.size() == n,"an element was lost or duplicated: " << d);
   for (int i = 0;i + 1 < n;i++) REQUIRE(desc ? w[i].k >= w[i + 1].k : w[i].k <= w[i + 1].k,"not ordered at " << i << ": " << d);
   bool inv = false; for (int i = 0;i + 1 < n;i++) inv |= v[i].k >= v[i + 1].k;
   c.nontrivial = n >= 3 && inv; c.note(d); c.print(pbt::hashStr(d));
}
PROPERTY(unionfind,"at least 4 elements and 3 merges of different sets",150000,3000000,25000,300000,2000) {
   typedef UnionFind<int> UF; UF u; std::vector<UF::Node::Ptr> nd; std::vector<int> cls; std::ostringstream log; int merges = 0;
   const int ops = s.range(1,40);
   for (int o = 0;o < ops;o++) {
      if (nd.empty() || s.chance(1,3)) { nd.push_back(u.makeSet((int)nd.size())); cls.push_back((int)cls.size()); log << "new "; }
      else { auto a = s.draw((uint32_t)nd.size()),b = s.draw((uint32_t)nd.size()); auto r = u.merge(nd[a],nd[b]); log << a << '~' << b << ' ';
         if (cls[a] != cls[b]) { ++merges; int o1 = cls[b],n1 = cls[a]; for (auto& x : cls) if (x == o1) x = n1; }
         REQUIRE(u.setFor(r) == u.setFor(nd[a]),"merge returned a node of another set after " << log.str()); }
      if (s.coin() || o + 1 == ops)
      for (std::size_t i = 0;i < nd.size();i++) for (std::size_t j = 0;j < i;j++)
         REQUIRE((u.setFor(nd[i]) == u.setFor(nd[j])) == (cls[i] == cls[j]),"elements " << i << " and " << j << (cls[i] == cls[j] ? " were merged but are apart" : " were never merged but are together") << " after " << log.str());
   }
   for (std::size_t i = 0;i < nd.size();i++) { auto r = u.setFor(nd[i]); REQUIRE(u.setFor(r) == r,"the representative is not its own representative after " << log.str());
      int sz = 0; for (auto x : cls) sz += x == cls[i]; std::ostringstream os; os << nd[i]; auto p = os.str().rfind(":: "); REQUIRE(p != std::string::npos && atoi(os.str().c_str() + p + 3) == sz,"printed size of a set is not " << sz << ": " << os.str() << " after " << log.str()); }
   c.nontrivial = nd.size() >= 4 && merges >= 3; c.note(log.str()); c.print(pbt::hashStr(log.str()));
}
PROPERTY(large_sort,"more than 10000 elements",120,2000,10,160,4) {
   const int n = s.range(1,400) * s.range(1,400), spread = s.pick(std::vector<int>{1,1000,1 << 29}), shape = s.range(0,2); const bool desc = s.coin(); pbt::Rng r(s.draw(1u << 30));
   std::vector<E> v; for (int i = 0;i < n;i++) v.push_back({shape == 1 ? i / 3 : shape == 2 ? n - i : (int)r.below((uint32_t)spread),i});
   auto w = v; mergeSort(w.data(),w.size(),[desc](const E& a,const E& b) { return desc ? a.k > b.k : a.k < b.k;});
   auto d = PBT_STR((desc ? "desc" : "asc") << " n=" << n << " shape=" << shape << " spread=" << spread); std::vector<char> seen((std::size_t)n);
   for (int i = 0;i < n;i++) {
      auto& e = w[(std::size_t)i]; REQUIRE(e.id >= 0 && e.id < n && !seen[(std::size_t)e.id] && v[(std::size_t)e.id].k == e.k,"position " << i << ": an element was invented or duplicated: " << d); seen[(std::size_t)e.id] = 1;
      if (i) REQUIRE(desc ? w[i - 1].k >= e.k : w[i - 1].k <= e.k,"not ordered at " << i << ": " << d);
   }
   c.nontrivial = n > 10000; c.note(d); c.print(pbt::hashStr(d));
}
PROPERTY(large_unionfind,"at least 100 elements and 50 merges of different sets",3000,60000,300,5000,100) {
   typedef UnionFind<int> UF; UF u; std::vector<UF::Node::Ptr> nd; std::vector<int> cls; int merges = 0;
   const int n = s.range(1,600), ops = s.range(1,900), shape = s.range(0,3); pbt::Rng r(s.draw(1u << 30));
   for (int i = 0;i < n;i++) { nd.push_back(u.makeSet(i)); cls.push_back(i); }
   auto d = PBT_STR("n=" << n << " ops=" << ops << " shape=" << shape);
   for (int o = 0;o < ops;o++) {
      auto a = shape == 1 ? (std::size_t)o % n : shape == 2 ? ((std::size_t)o * 2) % n : r.below((uint32_t)n), b = shape == 1 ? ((std::size_t)o + 1) % n : shape == 2 ? ((std::size_t)o * 2 + 1) % n : r.below((uint32_t)n);
      if (shape == 3) { a %= 40; b = (b % 40) * (std::size_t)(n / 40); }
      u.merge(nd[a],nd[b]);
      if (cls[a] != cls[b]) { ++merges; int o1 = cls[b],n1 = cls[a]; for (auto& x : cls) if (x == o1) x = n1; }
      for (int q = 0;q < 3;q++) { auto i = r.below((uint32_t)n),j = r.below((uint32_t)n); REQUIRE((u.setFor(nd[i]) == u.setFor(nd[j])) == (cls[i] == cls[j]),"elements " << i << " and " << j << (cls[i] == cls[j] ? " were merged but are apart" : " were never merged but are together") << " after " << o << " operations, " << d); }
   }
   std::map<int,UF::Node::Ptr> rep; std::map<int,int> size; for (auto x : cls) size[x]++;
   for (int i = 0;i < n;i++) { auto q = u.setFor(nd[(std::size_t)i]); auto [it,neu] = rep.insert({cls[(std::size_t)i],q}); REQUIRE(it->second == q,"element " << i << " has another representative than its set " << d);
      if (neu) { std::ostringstream os; os << q; auto p = os.str().rfind(":: "); REQUIRE(p != std::string::npos && atoi(os.str().c_str() + p + 3) == size[cls[(std::size_t)i]],"printed size is not " << size[cls[(std::size_t)i]] << ": " << os.str() << ' ' << d); } }
   std::set<UF::Node*> all; for (auto& [k,q] : rep) all.insert(q.get()); REQUIRE(all.size() == rep.size(),"two sets share a representative " << d);
   c.nontrivial = n >= 100 && merges >= 50; c.note(d); c.print(pbt::hashStr(d));
}
PBT_MAIN
