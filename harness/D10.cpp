// D10 - the sequence containers of the diagram: Vec (pool vector), NDArray (layer array) and ANList (node list).
// Oracle: std::vector / std::list.
#include "pbt.hpp"
#include <cassert>
#include <list>
#include "codd.hpp"
#include "queue.hpp"
PROPERTY(vec,"the vector grew at least twice and was copied or shrunk",80000,2000000,15000,200000,1000) {
   Pool pool(s.coin() ? 1 << 22 : 1024),pool2(1024);
   typedef Vec<int,unsigned> VT;
   const unsigned cap = (unsigned)s.range(0,5);
   std::vector<VT> v; std::vector<std::vector<int>> m; const int ns = 3;
   for (int i = 0;i < ns;i++) { v.push_back(VT(&pool,cap)); m.emplace_back(); }
   std::ostringstream log; log << "cap=" << cap << ' '; int nx = 1; std::size_t peak = 0; bool other = false;
   auto chk = [&](int k) {
      REQUIRE(v[k].size() == m[k].size(),"size " << v[k].size() << " expected " << m[k].size() << " after " << log.str());
      const VT& cv = v[k];
      for (unsigned i = 0;i < m[k].size();i++) REQUIRE(cv[i] == m[k][i] && cv.get(i) == m[k][i] && (int)v[k][i] == m[k][i],"element " << i << " is " << cv[i] << " expected " << m[k][i] << " after " << log.str());
      std::vector<int> it; for (auto x : v[k]) it.push_back(x); REQUIRE(it == m[k],"iteration differs after " << log.str());
      std::vector<int> ci; for (auto i = cv.cbegin();i != cv.cend();i++) ci.push_back(*i); REQUIRE(ci == m[k],"const iteration differs after " << log.str());
      std::vector<int> ri; for (auto i = cv.rbegin();i != cv.rend();++i) ri.push_back(*i); std::reverse(ri.begin(),ri.end()); REQUIRE(ri == m[k],"reverse iteration differs after " << log.str());
   };
   const int ops = s.range(1,50);
   for (int o = 0;o < ops;o++) {
      int a = s.range(0,ns - 1),b = s.range(0,ns - 1);
      switch (s.weighted({8,2,2,1,2,2,2})) {
         case 0: { int n = s.chance(1,8) ? s.range(1,40) : 1; for (int i = 0;i < n;i++) { auto at = v[a].push_back(nx); REQUIRE(at == m[a].size(),"push_back returned index " << at << " after " << log.str()); m[a].push_back(nx++); } log << a << '+' << n << ' '; break; }
         case 1: if (!m[a].empty()) { int x = v[a].pop_back(); REQUIRE(x == m[a].back(),"pop_back gives " << x << " after " << log.str()); m[a].pop_back(); log << a << "- "; other = true; } break;
         case 2: if (!m[a].empty()) { auto i = s.draw((uint32_t)m[a].size()); int moved = -1; bool last = i + 1 == m[a].size(); auto r = v[a].remove(i,[&](int x) { moved = x;}); if (!last) m[a][i] = m[a].back(); REQUIRE(moved == m[a][i],"remove(" << i << ") relinks " << moved << " after " << log.str()); m[a].pop_back(); REQUIRE(r == m[a].size(),"remove returned " << r << " after " << log.str()); log << a << "rm" << i << ' '; other = true; } break;
         case 3: v[a].clear(); m[a].clear(); log << a << "clear "; break;
         case 4: v[a] = v[b]; m[a] = std::vector<int>(m[b]); log << a << ":=" << b << ' '; other = true; break;
         case 5: { if (s.coin()) { VT t(&pool2,v[b]); v[a] = t; } else { VT t(v[b]); v[a] = std::move(t); } m[a] = std::vector<int>(m[b]); log << a << ":=copy" << b << ' '; other = true; break; }
         default: { unsigned i = (unsigned)m[a].size() - (m[a].empty() ? 0u : s.draw(2)); v[a][i] = nx; m[a].resize(i + 1); m[a][i] = nx++; log << a << '[' << i << "]= "; break; }
      }
      for (int k = 0;k < ns;k++) { chk(k); peak = std::max(peak,m[k].size()); }
   }
   c.nontrivial = peak >= 8 && other; c.note(log.str()); c.print(pbt::hashStr(log.str()));
}
struct TN :public ANode { TN(Pool::Ptr p,unsigned id) : ANode(p,id,true) {} };
PROPERTY(layer,"at least 6 nodes with an erasure in the middle, or more than 128 nodes",60000,1200000,10000,120000,500) {
   Pool pool(1 << 16); NDArray a((std::size_t)s.pick(std::vector<int>{1,2,4,128})); std::vector<ANode::Ptr> m; unsigned id = 0;
   std::ostringstream log; bool hole = false; std::size_t peak = 0;
   auto mk = [&]() { return ANode::Ptr(new (&pool) TN(&pool,id++));};
   auto chk = [&]() {
      REQUIRE(a.size() == m.size(),"size " << a.size() << " expected " << m.size() << " after " << log.str());
      std::vector<unsigned> x,y; int k = 0; for (auto n : a) { REQUIRE(++k < 100000,"iteration does not end"); x.push_back(n->getId()); } for (auto n : m) y.push_back(n->getId());
      REQUIRE(x == y,"iteration gives " << x.size() << " nodes, expected " << y.size() << " or another order after " << log.str());
      REQUIRE(a.size() == m.size(),"iterating changed the size to " << a.size() << " after " << log.str());
   };
   // phase 1: fill (what pullLayer does), sort, keep a prefix
   int n = s.chance(1,200) ? s.range(1000,5000) : s.chance(1,8) ? s.range(100,400) : s.range(0,20);
   for (int i = 0;i < n;i++) { auto p = mk(); p->setBound(s.range(0,9)); a.push_back(p); m.push_back(p); }
   log << "fill" << n << ' '; chk(); peak = m.size();
   if (s.coin()) {
      auto cmp = [](const ANode::Ptr& x,const ANode::Ptr& y) { return x->getBound() < y->getBound();};
      a.sort(cmp); log << "sort ";
      std::vector<ANode::Ptr> x; for (auto q : a) x.push_back(q);
      REQUIRE(x.size() == m.size(),"sorting changed the number of nodes");
      for (std::size_t i = 0;i + 1 < x.size();i++) REQUIRE(!(x[i + 1]->getBound() < x[i]->getBound()),"not sorted at " << i << " of " << x.size());
      std::set<unsigned> ix,iy; for (auto q : x) ix.insert(q->getId()); for (auto q : m) iy.insert(q->getId()); REQUIRE(ix == iy,"sorting lost or duplicated a node");
      for (std::size_t i = 0;i < x.size();i++) REQUIRE(a[i] == x[i],"indexing differs from iteration after sorting");
      m = x;
   }
   if (s.coin() && !m.empty()) { auto k = s.draw((uint32_t)m.size() + 1); a.eraseSuffix(a.at(k)); m.resize(k); log << "keep" << k << ' '; chk(); }
   const int ops = s.range(0,25);
   for (int o = 0;o < ops;o++) {
      switch (s.weighted({4,3,2,2,1})) {
         case 0: { auto p = mk(); a.push_back(p); m.push_back(p); log << "+ "; break; }
         case 1: if (!m.empty()) { auto k = s.draw((uint32_t)m.size()); auto it = a.begin(); for (uint32_t i = 0;i < k;i++) ++it; REQUIRE(*it == m[k],"iterator at " << k << " after " << log.str());
                    if (s.coin()) { auto nx = a.erase(it); REQUIRE((k + 1 == m.size()) == (nx == a.end()) && (k + 1 == m.size() || *nx == m[k + 1]),"erase returned a wrong position after " << log.str()); }
                    else { it.erase(); REQUIRE((k + 1 == m.size()) == (it == a.end()) && (k + 1 == m.size() || *it == m[k + 1]),"iterator erase moved to a wrong position after " << log.str()); }
                    m.erase(m.begin() + k); log << "e" << k << ' '; hole |= k > 0; } break;
         case 2: if (!m.empty()) { bool pop = s.coin(); if (!pop || s.coin()) REQUIRE(a.front() == m.front(),"front differs after " << log.str()); if (pop) { a.pop_front(); m.erase(m.begin()); log << "pf "; if (s.chance(1,3)) { auto p = mk(); a.push_front(p); m.insert(m.begin(),p); log << "ff "; } } } break;
         case 3: if (m.size() >= 2) { auto it = a.begin(); ++it; auto c2 = it; it--; REQUIRE(*it == m[0] && *c2 == m[1],"stepping back differs after " << log.str()); } break;
         default: if (s.chance(1,6)) { a.clear(); m.clear(); log << "clear "; } break;
      }
      if (o + 1 == ops || s.coin()) chk(); else REQUIRE(a.size() == m.size(),"size " << a.size() << " expected " << m.size() << " after " << log.str());
      peak = std::max(peak,m.size());
   }
   c.nontrivial = (peak >= 6 && hole) || peak > 128; if (peak > 128) c.label("more than 128 nodes"); c.note(log.str()); c.print(pbt::hashStr(log.str()));
}
PROPERTY(nodelist,"at least 5 nodes and a removal",60000,1200000,10000,120000,500) {
   Pool pool(1 << 16); ANList l; std::list<ANode::Ptr> m; unsigned id = 0; std::ostringstream log; bool rem = false; std::size_t peak = 0;
   std::vector<ANode::Ptr> out;
   const int ops = s.range(1,40);
   for (int o = 0;o < ops;o++) {
      switch (s.weighted({6,2,2,1})) {
         case 0: { ANode::Ptr p; if (!out.empty() && s.coin()) { p = out.back(); out.pop_back(); } else p = new (&pool) TN(&pool,id++); l.push_back(p); m.push_back(p); log << "+" << p->getId() << ' '; break; }
         case 1: if (!m.empty()) { auto it = std::next(m.begin(),(long)s.draw((uint32_t)m.size())); l.remove(*it); out.push_back(*it); log << "-" << (*it)->getId() << ' '; m.erase(it); rem = true; } break;
         case 2: if (!m.empty()) { out.push_back(m.back()); l.pop_back(); m.pop_back(); log << "pop "; rem = true; } break;
         default: if (s.chance(1,10)) { l.clear(); m.clear(); out.clear(); log << "clear "; } break;
      }
      std::vector<unsigned> x,y; int k = 0; for (auto n : l) { REQUIRE(++k < 10000,"iteration does not end after " << log.str()); x.push_back(n->getId()); } for (auto n : m) y.push_back(n->getId());
      REQUIRE(x == y,"iteration gives " << x.size() << " nodes expected " << y.size() << " (or another order) after " << log.str());
      REQUIRE(l.size() == m.size(),"size " << l.size() << " after " << log.str());
      if (!m.empty()) {
         REQUIRE(l.front() == m.front() && l.back() == m.back(),"front or back differs after " << log.str());
         std::vector<unsigned> bw; auto it = l.begin(); for (std::size_t i = 1;i < m.size();i++) ++it;
         for (std::size_t i = 0;i < m.size();i++) { bw.push_back((*it)->getId()); if (i + 1 < m.size()) --it; }
         std::reverse(bw.begin(),bw.end()); REQUIRE(bw == y,"backward iteration differs after " << log.str());
         REQUIRE(l.confirmMembership(m.back()),"membership denied after " << log.str());
      } else REQUIRE(!l.front() && !l.back(),"an empty list has ends after " << log.str());
      for (auto q : out) REQUIRE(!l.confirmMembership(q),"removed node still a member after " << log.str());
      peak = std::max(peak,m.size());
   }
   c.nontrivial = peak >= 5 && rem; c.note(log.str()); c.print(pbt::hashStr(log.str()));
}
PBT_MAIN
