From 809e0a31f49fe6937380ec1d589168bbb708d8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:48 +0000
Subject: [PATCH 01/36] fix: B&B must re-explore a node when its cutset is the
 root

When the exact cutset of a relaxed diagram is its root, the width is
increased, but the root was then handed to cloneNode which reports it as
already seen: the node was dropped and the search ended with a suboptimal
(or no) solution. Put the node back in the queue instead.
---
 src/search.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/search.cpp b/src/search.cpp
index a06a2aa..b38cadb 100644
--- a/src/search.cpp
+++ b/src/search.cpp
@@ -126,6 +126,8 @@ void BAndB::search(Bounds& bnds)
                   auto w = ddr[0]->getWidth() + 1;
                   ddr[0]->setWidth(w);
                   std::cout << "\t-->widening... " << w << " CUTSET SIZE:" << cutSet.size() <<  "\n";
+                  pq.insertHeap(QNode {bbn.node, curDual}); // explore this very node again with the new width
+                  continue;
                }
                // use the bound in n (the ones in nd are _reset_ when duplicate occurs????)
                bool newGuyDominated = false;
-- 
2.43.0


From 22882f2a0f8c155142f835539c2f9628b32e5e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:35 +0000
Subject: [PATCH 02/36] fix: solutions made of exact nodes only were lost by
 B&B

In an inexact relaxed diagram, a root-sink path whose nodes are all exact
crosses no cutset node, so it was never explored again, and its value was
not recorded either: unless the restricted diagram happened to find it,
B&B could miss the optimum (or report no solution). Record the best such
path as an incumbent.
---
 src/dd.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/dd.hpp b/src/dd.hpp
index 40191f2..8226f9b 100644
--- a/src/dd.hpp
+++ b/src/dd.hpp
@@ -436,6 +436,23 @@ private:
          bnds.setIncumbent(_trg->beginOptLabels(),_trg->endOptLabels());
          std::cout <<  std::setprecision(6) << "D TIGHTEN: " << bnds << "\n";
       }
+      else if (_strat->dual()) {
+         // A path to the sink that only uses exact nodes is a solution, and no cutset node covers it.
+         Edge::Ptr last = nullptr;
+         for(auto pi = _trg->beginPar();pi != _trg->endPar();pi++) {
+            Edge::Ptr e = *pi;
+            if (e->_from->isExact() &&
+                (!last || isBetter(e->_from->getBound() + e->_obj,last->_from->getBound() + last->_obj)))
+               last = e;
+         }
+         if (last && isBetter(last->_from->getBound() + last->_obj,bnds.getPrimal())) {
+            std::vector<int> labels(last->_from->beginOptLabels(),last->_from->endOptLabels());
+            labels.push_back(last->_lbl);
+            bnds.setPrimal(last->_from->getBound() + last->_obj);
+            bnds.setIncumbent(labels.begin(),labels.end());
+            std::cout <<  std::setprecision(6) << "D TIGHTEN: " << bnds << "\n";
+         }
+      }
    }
    ANode::Ptr hasNode(const ST& state) {
       Node<ST>* at = nullptr;
-- 
2.43.0


From b3aab74fe15f41ddc3f256a5817876d1b55592b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:42 +0000
Subject: [PATCH 03/36] fix: B&B dropped a state reached again with a better
 bound

The B&B node allocator ignored a cutset node whose state had been seen
before, even if its bound was better than the first occurrence's bound:
the optimum could be lost. Only ignore it when it does not improve.
---
 src/dd.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/dd.hpp b/src/dd.hpp
index 8226f9b..4a7d6ba 100644
--- a/src/dd.hpp
+++ b/src/dd.hpp
@@ -344,7 +344,7 @@ struct Maximize {
 };
 
 
-template <typename ST> requires Printable<ST> && Hashable<ST>
+template <typename ST,class Compare> requires Printable<ST> && Hashable<ST>
 class DDNodeAllocator :public AbstractNodeAllocator {
    LHashtable<ST> _nmap;
 public:
@@ -353,16 +353,17 @@ public:
       auto sp = static_cast<const Node<ST>*>(src.get());
       Node<ST>* at = nullptr;
       auto inMap = _nmap.getLoc(sp->get(),at);
-      if (!inMap) {
+      // A state reached again with a better bound must be explored again (the latest entry is the best one).
+      if (!inMap || Compare{}.better(sp->getBound(),at->getBound())) {
          auto reuse = _base->claimNode();
          if (reuse) {
             Node<ST>* nn = static_cast<Node<ST>*>(reuse.get());
             nn->resetWith(sp);
-            _nmap.safeInsertAt(inMap,nn);
+            _nmap.rawInsertAt(inMap,nn);
             return nn;
          } else {
             Node<ST>* nn = new (_base->get()) Node<ST>(_base->get(),_base->grabId(),*sp);
-            _nmap.safeInsertAt(inMap,nn);
+            _nmap.rawInsertAt(inMap,nn);
             return nn;
          }
       } else {
@@ -590,7 +591,7 @@ public:
       return AbstractDD::Ptr(new DD(std::forward<Args>(args)...));
    }
    AbstractNodeAllocator::Ptr makeNDAllocator() const noexcept {
-      return std::shared_ptr<DDNodeAllocator<ST>>(new DDNodeAllocator<ST>(new LPool(new Pool)));
+      return std::shared_ptr<DDNodeAllocator<ST,Compare>>(new DDNodeAllocator<ST,Compare>(new LPool(new Pool)));
    }
    void printNode(std::ostream& os,ANode::Ptr n) const {
       auto sp = static_cast<const Node<ST>*>(n.get());
-- 
2.43.0


From 19809debcf29e4746f694ed396dc6ff3edc7a063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:21 +0000
Subject: [PATCH 04/36] fix: a dominated arc to the sink corrupted the diagram

When a queued state dominated the sink, the first arc to the sink was
redirected and the node removed from the diagram's node list was the last
created one, not the sink: the backward pass then dereferenced a null
location. The sink is never discarded by dominance.
---
 src/dd.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index f0f42a7..b807baa 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -423,7 +423,7 @@ void Restricted::compute(Bounds& bnds)
                bool newNode = child->nbParents()==0; // is this a newly created node?
                auto theCost = _dd->cost(p,l);
                auto ep = p->getBound() + theCost;
-               if (hasDom && newNode) {
+               if (hasDom && newNode && child != _dd->_trg) { // the sink is already in the diagram
                   auto dominator = checkDominance(qn,child,ep);
                   if (dominator) {
                      _dd->_an.pop_back();
@@ -702,7 +702,7 @@ void Relaxed::compute(Bounds& bnds)
                bool newNode = child->nbParents()==0; // is this a newly created node?
                auto theCost = _dd->cost(p,l);
                auto ep = p->getBound() + theCost;
-               if (hasDom && newNode) {
+               if (hasDom && newNode && child != _dd->_trg) { // the sink is already in the diagram
                   auto dominator = qn.checkDominance(child,ep);
                   if (dominator) {
                      // ANode::Ptr justAdded = _dd->_an.back();
-- 
2.43.0


From ae68da4caac4275953d957a74f5eaade0347a3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:22 +0000
Subject: [PATCH 05/36] fix: exact diagrams of models with a local bound were
 empty

Exact::compute expanded nodes whose bound was still the initial value, so
the local bound test of transition() pruned everything below the first
layer. Maintain the bound of the children during the construction.
---
 src/dd.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dd.cpp b/src/dd.cpp
index b807baa..82e5def 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -323,6 +323,9 @@ void Exact::compute(Bounds& bnds)
             Edge::Ptr e = new (_dd->_mem) Edge(p,child,l);
             e->_obj = theCost;
             _dd->addArc(e); // connect to new node
+            auto ep = p->getBound() + theCost;
+            if (_dd->isBetter(ep,child->getBound()))
+               child->setBound(ep); // transition relies on it to prune with the local bound
             if (!_dd->eqSink(child)) {
                if (newNode)
                   qn.enQueue(child);
-- 
2.43.0


From 3fd0b7d1eb89272653f396b570d84cc3aa069ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:22 +0000
Subject: [PATCH 06/36] fix: B&B left a dangling reference in the solution
 callbacks of Bounds

The callback registered by search captured a local by reference, and stays
registered: a second search with the same Bounds wrote to a dead frame.
---
 src/search.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/search.cpp b/src/search.cpp
index b38cadb..51483c5 100644
--- a/src/search.cpp
+++ b/src/search.cpp
@@ -28,10 +28,10 @@ void BAndB::search(Bounds& bnds)
    auto last = start;
    cout << "B&B searching..." << endl;
    bnds.attach(_theDD);
-   double optTime = 0.0;
-   bnds.onSolution([ss,start,&optTime](const auto& lbls) {
-      optTime = RuntimeMonitor::elapsedSince(start);
-      std::cout << "TIME:" << setprecision(ss) << optTime << "\n";
+   auto optTime = std::make_shared<double>(0.0); // shared: bnds keeps the callback after the search
+   bnds.onSolution([ss,start,optTime](const auto& lbls) {
+      *optTime = RuntimeMonitor::elapsedSince(start);
+      std::cout << "TIME:" << setprecision(ss) << *optTime << "\n";
    });
    AbstractDD::Ptr relaxed = _theDD->duplicate();
    AbstractDD::Ptr restricted = _theDD->duplicate();
@@ -193,7 +193,7 @@ void BAndB::search(Bounds& bnds)
    auto spent = RuntimeMonitor::elapsedSince(start);
    cout << "Done(" << _mxw << "):" << bnds.getPrimal() << "\t #nodes:" <<  nNode << "/" << ttlNode
         << "\t P/D:" << pruned << "/" << insDom
-        << "\t Time:" << optTime/1000 << "/" << spent/1000 << "s"
+        << "\t Time:" << *optTime/1000 << "/" << spent/1000 << "s"
         << "\t LIM?:" << (pq.size() > 0)
         << "\t Seen:" << nbSeen
         << "\n";
-- 
2.43.0


From 2b90e5f9486ba5625b401703e3deb59792b40427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:22 +0000
Subject: [PATCH 07/36] fix: B&B reported LIM?:0 when the limit hit on the last
 open node

---
 src/search.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/search.cpp b/src/search.cpp
index 51483c5..98d507b 100644
--- a/src/search.cpp
+++ b/src/search.cpp
@@ -53,7 +53,7 @@ void BAndB::search(Bounds& bnds)
       pq.insertHeap(QNode { rootNode, relaxed->initialWorst() } );   
    }
    unsigned nNode = 0,ttlNode = 0,insDom=0,pruned=0;
-   bool primalBetter = false;
+   bool primalBetter = false,limitReached = false;
    cout << "B&B Nodes          " << setw(6) << "Dual\t " << setw(6) << "Primal\t Gap(%)\n";
    cout << "----------------------------------------------\n";
    while(!pq.empty()) {
@@ -72,8 +72,10 @@ void BAndB::search(Bounds& bnds)
       auto now = RuntimeMonitor::cputime();
       auto fs = RuntimeMonitor::elapsedMilliseconds(start,now);
       auto fl = RuntimeMonitor::elapsedMilliseconds(last,now);
-      if (_timeLimit && _timeLimit(fs))         
-         break;      
+      if (_timeLimit && _timeLimit(fs)) {
+         limitReached = true; // the node just extracted remains unexplored
+         break;
+      }
       if (primalBetter || fl > 5000) {
          double gap = 100 * std::abs(bnds.getPrimal() - curDual) / bnds.getPrimal();      
          cout << std::fixed << "B&B(" << setw(5) << nNode << ")\t " << setprecision(6);
@@ -194,7 +196,7 @@ void BAndB::search(Bounds& bnds)
    cout << "Done(" << _mxw << "):" << bnds.getPrimal() << "\t #nodes:" <<  nNode << "/" << ttlNode
         << "\t P/D:" << pruned << "/" << insDom
         << "\t Time:" << *optTime/1000 << "/" << spent/1000 << "s"
-        << "\t LIM?:" << (pq.size() > 0)
+        << "\t LIM?:" << limitReached
         << "\t Seen:" << nbSeen
         << "\n";
 }
-- 
2.43.0


From 7f16ad30376cc37bf84bd6875cdb71b852a7b044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:01 +0000
Subject: [PATCH 08/36] fix: iterating a GNSet or NatSet truncated values above
 32767

The iterators returned a short, although the sets hold any natural.
---
 src/util.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/util.hpp b/src/util.hpp
index 1a7341e..3e039b4 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -328,10 +328,10 @@ public:
       iterator(const unsigned long long* t) : _t(t),_cwi(nbw),_cw(0) {} // end constructor
    public:
       using iterator_category = std::forward_iterator_tag;
-      using value_type = short;
+      using value_type = int;
       using difference_type = short;
-      using pointer = short*;
-      using reference = short&;
+      using pointer = int*;
+      using reference = int&;
       iterator& operator++()  noexcept {
          assert(_cwi >= nbw || _cw <= _t[_cwi]);
          long long test = _cw & -_cw;  // only leaves LSB at 1
@@ -345,7 +345,7 @@ public:
       iterator operator++(int) { iterator retval = *this; ++(*this); return retval;}
       bool operator==(iterator other) const {return _cwi == other._cwi && _cw == other._cw;}
       bool operator!=(iterator other) const {return !(*this == other);}
-      short operator*() const   { return (_cwi<<6) + __builtin_ctzl(_cw);}
+      int operator*() const   { return (_cwi<<6) + __builtin_ctzl(_cw);}
       friend class NatSet;
    };
    class citerator { 
@@ -361,10 +361,10 @@ public:
       citerator(const unsigned long long* t) : _t(t),_cwi(nbw),_cw(0) {} // end constructor
    public:
       using iterator_category = std::forward_iterator_tag;
-      using value_type = short;
+      using value_type = int;
       using difference_type = short;
-      using pointer = short*;
-      using reference = short&;
+      using pointer = int*;
+      using reference = int&;
       citerator& operator++()  noexcept {
          long long test = _cw & -_cw;  // only leaves LSB at 1
          _cw ^= test;                  // clear LSB
@@ -375,7 +375,7 @@ public:
       citerator operator++(int) { citerator retval = *this; ++(*this); return retval;}
       bool operator==(citerator other) const {return _cwi == other._cwi && _cw == other._cw;}
       bool operator!=(citerator other) const {return !(*this == other);}
-      short operator*() const   { return (_cwi<<6) + __builtin_ctzl(_cw);}
+      int operator*() const   { return (_cwi<<6) + __builtin_ctzl(_cw);}
       friend class NatSet;
    };
    iterator begin() const { return iterator(_t,0);}
@@ -656,10 +656,10 @@ public:
       }
    public:
       using iterator_category = std::forward_iterator_tag;
-      using value_type = short;
+      using value_type = int;
       using difference_type = short;
-      using pointer = short*;
-      using reference = short&;
+      using pointer = int*;
+      using reference = int&;
       iterator& operator++()  noexcept {
          long long test = _cw & -_cw;  // only leaves LSB at 1
          _cw ^= test;                  // clear LSB
@@ -670,7 +670,7 @@ public:
       iterator operator++(int) { iterator retval = *this; ++(*this); return retval;}
       bool operator==(iterator other) const {return _cwi == other._cwi && _cw == other._cw;}
       bool operator!=(iterator other) const {return !(*this == other);}
-      short operator*() const   { return (_cwi<<6) + __builtin_ctzl(_cw);}
+      int operator*() const   { return (_cwi<<6) + __builtin_ctzl(_cw);}
       friend class GNSet;
    };
    iterator begin() const { return iterator(_t,_mxw,0);}
-- 
2.43.0


From d8634966ba2acf471a5dffa7a381e6cf248b4f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:01 +0000
Subject: [PATCH 09/36] fix: inserting in a GNSet built from an empty range
 never returned

Such a set has no word at all, and doubling zero words loops forever.
---
 src/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index 3e039b4..cd26af7 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -546,7 +546,7 @@ public:
       const int i = p >> 6;
       const auto old = _mxw;
       if (i >= _mxw) {
-         while(i >= _mxw) _mxw <<= 1;
+         while(i >= _mxw) _mxw = _mxw ? _mxw << 1 : 1;
          auto np = new unsigned long long[_mxw];
          for(int i=0;i < old;i++)
             np[i] = _t[i];
-- 
2.43.0


From fe90e9d64ee9856a54cd3382a8e94b7407ccf46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:01 +0000
Subject: [PATCH 10/36] fix: a moved-from GNSet kept its size without its
 storage

Copying it, or assigning a set of the same capacity to it, dereferenced a
null pointer.
---
 src/util.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index cd26af7..93e261b 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -441,7 +441,8 @@ public:
       _mxw = s._mxw;
       _nbp = s._nbp;
       _t = s._t;
-      s._t = nullptr;      
+      s._t = nullptr;
+      s._mxw = s._nbp = 0;
    }
    template <unsigned short nbw> GNSet(const NatSet<nbw>& s) {     
       _mxw = nbw;
@@ -521,6 +522,7 @@ public:
       _nbp = s._nbp;
       _t = s._t;
       s._t = nullptr;
+      s._mxw = s._nbp = 0;
       return *this;
    }
    short nbWords() const noexcept { return _mxw;}
-- 
2.43.0


From 3fd64a0d14348624433ce25549df3936690186f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:01 +0000
Subject: [PATCH 11/36] fix: GNSet::removeAbove relied on a bound that is not
 maintained

_nbp is stale after a union or a conversion, so elements could be kept, and
it equals the capacity of a fresh set, so one word past the end was
written. Test the word index instead.
---
 src/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index 93e261b..6a07603 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -611,7 +611,7 @@ public:
    }
    void removeAbove(int p) noexcept {
       int w = ++p >> 6;
-      if (p > _nbp) return;
+      if (w >= _mxw) return;
       assert(w >= 0 && w < _mxw);
       const int b = p & 63;
       _t[w] = _t[w] & ((1ull << b) - 1);
-- 
2.43.0


From 754057fae92e5dd1cdf05a6047745b40abdf75fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:49 +0000
Subject: [PATCH 12/36] fix: reflecting a NatSet across words lost or misplaced
 values

The carry masks shifted by 64 when a word moved by 63 bits, the by>0 branch cleared words it still
had to read, and it wrote past the array for a set that spans the last words.
---
 src/util.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/util.hpp b/src/util.hpp
index 6a07603..86e4c74 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -210,7 +210,7 @@ public:
          //std::cout << "MOVE Down=" << x << " lw:" << lw << "\n";
          unsigned long long nt[nbw] = {0}; 
          for(int i=0;i <= std::min(lw,nbw-1);i++) {
-            auto next =  (i+1==nbw) ? 0 : _t[i+1] & ((1ull << (x+1))-1); // get the next block to inject here.
+            auto next =  (i+1==nbw) ? 0 : _t[i+1]; // get the next block to inject here.
             nt[i] = (_t[i] >> x) | (next << (64 - x));
          }
          for(int i=0;i < nbw;i++) _t[i] = nt[i];         
@@ -225,10 +225,9 @@ public:
             // moving bits DOWN
             assert(lw < nbw); // by definition, it's at most the index of the last word (1 less than size)
             unsigned long long nt[nbw] = {0}; 
-            for(int i=0;i <= lw;i++) {
-               auto next = (i+1==nbw) ? 0 : _t[i+1] & ((1ull << (by+1))-1);
+            for(int i=0;i <= lw && i+delta < nbw;i++) {
+               auto next = (i+1==nbw) ? 0 : _t[i+1];
                nt[i+delta] = (_t[i] >> by) | (next << (64 - by));
-               for(int j=i;j < i+delta;j++) _t[j] = 0;
             }
             for(int i=0;i < nbw;i++) _t[i] = nt[i];
          } else if (by < 0) {
-- 
2.43.0


From 69ad23dc79e2e6d5094a923a90081bc36154d05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:16 +0000
Subject: [PATCH 13/36] fix: iterating a copy of an empty GNSet never reached
 the end

A copy of a zero-word set owns a (zero-length) array, so begin() was one past end().
---
 src/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index 86e4c74..ebfb7b5 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -643,7 +643,7 @@ public:
       unsigned long long    _cw; // current word
       iterator(unsigned long long* t,unsigned short nbw,unsigned short at)
          : _t(t),_nbw(nbw),_cwi(at),_cw((at < nbw) ? t[at] : 0) {
-         while (_cw == 0 && _t && ++_cwi < _nbw) 
+         while (_cw == 0 && _cwi < _nbw && ++_cwi < _nbw) 
             _cw = _t[_cwi];         
       }
       iterator(unsigned long long* t,unsigned short nbw)
-- 
2.43.0


From 299b1aa8073f246facd0c324f3e7d3e8916e8a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:16 +0000
Subject: [PATCH 14/36] fix: equal GNSets of different capacity hashed
 differently

operator== ignores trailing empty words; hash() did not, so hash tables kept both.
---
 src/util.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index ebfb7b5..a181f77 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -739,7 +739,9 @@ public:
   }
    std::size_t hash() const noexcept {
       std::size_t hv = 0;
-      for(auto i = 0;i < _mxw;i++)
+      int nbw = _mxw; // equal sets may have different capacities
+      while(nbw > 0 && _t[nbw-1]==0) --nbw;
+      for(auto i = 0;i < nbw;i++)
          hv = std::rotl(hv,2) ^ _t[i];
       return hv;
    }   
-- 
2.43.0


From e77c062077226d35b190b49802ce7b92c272e355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:16 +0000
Subject: [PATCH 15/36] fix: a moved-from FArray kept its size without its
 storage

Assigning to it, copying or hashing it dereferenced null.
---
 src/util.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util.hpp b/src/util.hpp
index a181f77..2b1681e 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -934,6 +934,7 @@ public:
    }
    FArray(FArray&& t) : _tab(t._tab),_mx(t._mx) {
       t._tab = nullptr;
+      t._mx = 0;
    }
    ~FArray() { if (_tab) delete[] _tab;}
    FArray& operator=(const FArray& t) {
@@ -951,6 +952,7 @@ public:
       _mx = a._mx;
       _tab = a._tab;
       a._tab = nullptr;
+      a._mx = 0;
       return *this;
    }
    std::size_t size() const noexcept { return _mx;}
-- 
2.43.0


From 0e9f065852c9c062416f7c4fc45c11da72686452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:55 +0000
Subject: [PATCH 16/36] fix: Range::contains disagreed with what the range
 enumerates

It included the open end, and nothing of a backward range.
---
 src/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index 2b1681e..64f3f7e 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -100,7 +100,7 @@ public:
    Range(int f,int t) : _from(f),_to(t) {}
    Range(Range&& r) : _from(r._from),_to(r._to) {}
    Range(const Range& r) : _from(r._from),_to(r._to) {}
-   bool contains(int p) const noexcept { return _from <= p && p <= _to;}
+   bool contains(int p) const noexcept { return (_from <= _to) ? _from <= p && p < _to : _to < p && p <= _from;}
    int size() const noexcept { return (_to >= _from) ? _to - _from : _from - _to;}
    auto largest() const noexcept { return (_to >= _from) ? _to : _from;}
    auto from() const noexcept  { return _from;}
-- 
2.43.0


From 86673f95121083148c092840a210d56225ae959d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:55 +0000
Subject: [PATCH 17/36] fix: flipping a backward Range gave other values

---
 src/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index 64f3f7e..59d116f 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -105,7 +105,7 @@ public:
    auto largest() const noexcept { return (_to >= _from) ? _to : _from;}
    auto from() const noexcept  { return _from;}
    auto to() const noexcept    { return _to;}
-   auto flip() const noexcept  { return Range(_to -1,_from-1);}
+   auto flip() const noexcept  { const int d = inc[_from > _to];return Range(_to - d,_from - d);}
    auto begin() const noexcept { return iterator(_from <= _to ? Forward : Backward,_from); }
    auto end() const  noexcept  { return iterator(_from <= _to ? Forward : Backward,_to); }
    static Range open(int f,int t) noexcept  { return Range(f,t);}
-- 
2.43.0


From 0cd2e353c551693bb89e9ad39d497ef8c398bb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:55 +0000
Subject: [PATCH 18/36] fix: hash tables of capacity 0 or 1 read outside the
 table of primes

The binary search underflowed an unsigned index.
---
 src/hashtable.hpp | 4 ++--
 src/lighthash.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hashtable.hpp b/src/hashtable.hpp
index cf5e39a..d098852 100644
--- a/src/hashtable.hpp
+++ b/src/hashtable.hpp
@@ -55,7 +55,7 @@ template <class K,class T,class Hash = std::hash<K>,class Equal = std::equal_to<
 public:
    Hashtable(Pool::Ptr p,std::size_t sz) : _pool(p) {
       constexpr const std::size_t tsz = sizeof(_primes)/sizeof(std::size_t);
-      std::size_t low=0,up = tsz - 1;
+      long low=0,up = tsz - 1; // signed: up drops to -1 when sz is below the smallest prime
       while (low <= up) {
          int m = (low + up)/2;
          if (sz < _primes[m])
@@ -67,7 +67,7 @@ public:
             break;
          }
       }
-      _mxs = low >= tsz ? _primes[tsz-1] :  _primes[low];
+      _mxs = low >= (long)tsz ? _primes[tsz-1] :  _primes[low];
       std::cout << "sz(Hashtable):" << _mxs << '\n';
       _tab = new (_pool) HTNode*[_mxs];
       _mgc = new (_pool) unsigned[_mxs];
diff --git a/src/lighthash.hpp b/src/lighthash.hpp
index a7091e1..ea94208 100644
--- a/src/lighthash.hpp
+++ b/src/lighthash.hpp
@@ -55,7 +55,7 @@ template <class ST,class Hash = std::hash<ST>,class Equal = std::equal_to<ST>> c
 public:
    LHashtable(Pool::Ptr p,std::size_t sz) : _pool(p) {
       constexpr const std::size_t tsz = sizeof(_primes)/sizeof(std::size_t);
-      std::size_t low=0,up = tsz - 1;
+      long low=0,up = tsz - 1; // signed: up drops to -1 when sz is below the smallest prime
       while (low <= up) {
          int m = (low + up)/2;
          if (sz < _primes[m])
@@ -67,7 +67,7 @@ public:
             break;
          }
       }
-      _mxs = low >= tsz ? _primes[tsz-1] :  _primes[low];
+      _mxs = low >= (long)tsz ? _primes[tsz-1] :  _primes[low];
       std::cout << "sz(LightHashtable):" << _mxs << '\n';
       _tab = new (_pool) HTNode*[_mxs];
       _mgc = new (_pool) unsigned[_mxs];
-- 
2.43.0


From 58762aba23e364310eeff04ff5cd199dc74c622e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:55 +0000
Subject: [PATCH 19/36] fix: AbstractDD::display forked copies of the caller
 when dot or open is missing

---
 src/dd.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 82e5def..29e2944 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -182,15 +182,17 @@ void AbstractDD::display()
    out.close();
    pid_t child = fork();
    if (child == 0) {
-      int st = execlp("dot","dot","-Tpdf","-O",buf,NULL);
-      printf("execl status: %d\n",st);
+      execlp("dot","dot","-Tpdf","-O",buf,NULL);
+      perror("dot");
+      _exit(1); // never return in the child: it would go on with a second copy of the program
    }
    int st = 0;
    waitpid(child,&st,0);
    child = fork();
    if (child == 0) {
       execlp("open","open",base.c_str(),NULL);
-      printf("execl2 status: %d\n",st);
+      perror("open");
+      _exit(1);
    }
    //unlink(buf);
 }
-- 
2.43.0


From d72e280f736b52ea053dde484b4a7a664b7d7169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:29 +0000
Subject: [PATCH 20/36] fix: a relaxed layer exceeded its width when the merged
 state had been dominated

---
 src/dd.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dd.hpp b/src/dd.hpp
index 4a7d6ba..ed239f4 100644
--- a/src/dd.hpp
+++ b/src/dd.hpp
@@ -541,7 +541,9 @@ private:
          // std::cout << "Merge\n";
          // std::cout << "\tF:";printNode(std::cout,f);std::cout<<"\n";
          // std::cout << "\tS:";printNode(std::cout,s);std::cout<<"\n";         
-         if (inMap && inMap->getLayer() < std::max(fp->getLayer(),sp->getLayer()))
+         // a node that was dominated or disconnected is no longer in the diagram: its layer means nothing
+         const bool live = inMap && (inMap->nbParents() > 0 || inMap == _root || inMap == _trg);
+         if (live && inMap->getLayer() < std::max(fp->getLayer(),sp->getLayer()))
             return nullptr;
          ANode::Ptr rv = makeNode(std::move(vs.value()));
          if (isBetter(fp->getBound(),rv->getBound())) {
-- 
2.43.0


From 585003e6aedf149006d1a3356700dd817525cfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:47 +0000
Subject: [PATCH 21/36] fix: the gap printed for a negative (or zero) primal
 bound was negative (or nan)

---
 src/search.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/search.cpp b/src/search.cpp
index 98d507b..0cdc0ba 100644
--- a/src/search.cpp
+++ b/src/search.cpp
@@ -77,7 +77,8 @@ void BAndB::search(Bounds& bnds)
          break;
       }
       if (primalBetter || fl > 5000) {
-         double gap = 100 * std::abs(bnds.getPrimal() - curDual) / bnds.getPrimal();      
+         const auto diff = std::abs(bnds.getPrimal() - curDual);
+         double gap = diff == 0 ? 0 : 100 * diff / std::abs(bnds.getPrimal());
          cout << std::fixed << "B&B(" << setw(5) << nNode << ")\t " << setprecision(6);
          if (curDual == relaxed->initialWorst())
             cout << setw(7) << "-"  << "\t " << setw(7) << bnds.getPrimal() << "\t ";
-- 
2.43.0


From 81c959dc8d0f8f5d55d6a85e09b59e5d74f0e95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:47 +0000
Subject: [PATCH 22/36] fix: a GNSet could not be built from the backward range
 {0} when assertions are on

---
 src/util.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index 59d116f..3ef8037 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -458,7 +458,6 @@ public:
       } else {
          _mxw = ((ub & 0x3f)? 1 : 0) + (ub >> 6); // if remainder 1 : 0 + division
          _nbp = _mxw << 6;
-         assert(_mxw != 0);
          _t = new unsigned long long[_mxw];
          for(int i=0;i<_mxw;i++) _t[i]=0;
          for(auto i : s)
-- 
2.43.0


From e9972193ad895d8504e05cc7fecc2949f11a9ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:47 +0000
Subject: [PATCH 23/36] fix: a block larger than an empty segment was refused
 when assertions are on

---
 src/store.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/store.cpp b/src/store.cpp
index 47c0864..a46a2b7 100644
--- a/src/store.cpp
+++ b/src/store.cpp
@@ -45,7 +45,6 @@ void* Pool::allocate(std::size_t sz)
    assert((sz & 0xF) == 0 && sz != 0);           // check alignment
    auto s = _store[_seg];
    while(_top + sz > s->_sz) {
-      assert(_top != 0);
       ++_seg;
       if (_seg >= _nbSeg) {
          if (_nbSeg == _mxs) {
-- 
2.43.0


From 89eea60822b6fc736343d3d7bfb1dfea2a4a7db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:56 +0000
Subject: [PATCH 24/36] fix: a NatSet range up to its last value was refused
 when assertions are on

---
 src/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index 3ef8037..16b300c 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -148,7 +148,7 @@ public:
          ++ub;
          assert(ub >= 0);
          assert(lb <= ub);
-         assert((ub >> 6) < nbw);
+         assert(ub <= 64 * nbw);
          for(int i=0;i<nbw;i++) _t[i]=0;
          for(auto i = lb;i < ub;i++) {
             const int ix = i >> 6;
-- 
2.43.0


From 8aff059df40a3a2bf05beb989a2fc03f87d5df31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:47 +0000
Subject: [PATCH 25/36] fix: Heap::find returned elements that had left the
 heap, or read unused slots

---
 src/heap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/heap.hpp b/src/heap.hpp
index def0caa..b94fecb 100644
--- a/src/heap.hpp
+++ b/src/heap.hpp
@@ -143,7 +143,7 @@ public:
       return _data[_at-1];
    }
    Location* find(const T& v) {
-      for(int i=1;i<_mxs;i++)
+      for(int i=1;i<_at;i++)
          if (_data[i]->_val == v)
             return _data[i];
       return nullptr;
-- 
2.43.0


From 5538a51929a20570e4c12d697b4f433f99f5f570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:10 +0000
Subject: [PATCH 26/36] fix: knapsack2 wrote past its array of items and its
 greedy bound read past the instance

---
 examples/knapsack2.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/examples/knapsack2.cpp b/examples/knapsack2.cpp
index a989921..0ec0d44 100644
--- a/examples/knapsack2.cpp
+++ b/examples/knapsack2.cpp
@@ -43,7 +43,7 @@ struct Instance {
       int rC = capa;
       int val = 0;
       int cnt = 0;
-      while (rC >= 0) {
+      while (cnt < I) {
          if (weight[cnt] <= rC) {
             val += profit[cnt];
             rC  -= weight[cnt];
@@ -66,8 +66,8 @@ Instance readFile(const char* fName)
       if (f.eof()) break;
       Item k;
       f >> k.p >> k.w;
-      i.items[count] = k;
-      if (count++ >= i.I) break;
+      if (count >= i.I) break;
+      i.items[count++] = k;
    }
    f.close();
    mergeSort(i.items,i.I,[](const auto& a,const auto& b) {
-- 
2.43.0


From 80078a084c8bea9a3c08c587dc6d6bc3ebcf027d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:10 +0000
Subject: [PATCH 27/36] fix: the spanning tree of tsp_test2 went on after the
 last edge and crashed

---
 examples/tsp_test2.cpp | 2 +-
 examples/tsp_test3.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/examples/tsp_test2.cpp b/examples/tsp_test2.cpp
index cfbc5ab..75bb878 100644
--- a/examples/tsp_test2.cpp
+++ b/examples/tsp_test2.cpp
@@ -113,7 +113,7 @@ double mst(Matrix<double,2>& d,GNSet C,GNSet V,int src,int sink,int hops)
    pq.buildHeap();
    int ne = 0,ts = C.size() - hops;
    double l = 0;
-   while (ne != ts) {
+   while (ne != ts && !pq.empty()) {
       auto e = pq.extractMax();
       if (uf.setFor(vm[e.a]) != uf.setFor(vm[e.b])) {
          l += e.w;
diff --git a/examples/tsp_test3.cpp b/examples/tsp_test3.cpp
index 476b968..8e92a23 100644
--- a/examples/tsp_test3.cpp
+++ b/examples/tsp_test3.cpp
@@ -115,7 +115,7 @@ double mst(Matrix<double,2>& d,GNSet C,GNSet V,int src,int sink,int hops)
    pq.buildHeap();
    int ne = 0,ts = C.size() - hops;
    double l = 0;
-   while (ne != ts) {
+   while (ne != ts && !pq.empty()) {
       auto e = pq.extractMax();
       if (uf.setFor(vm[e.a]) != uf.setFor(vm[e.b])) {
          l += e.w;
-- 
2.43.0


From 5c99609e09bb69ec4f63df600b4a9a80d585f762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:43 +0000
Subject: [PATCH 28/36] fix: the checkers of misp and misp5 misread the
 solution they are given

---
 examples/misp.cpp  | 5 +++--
 examples/misp5.cpp | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/examples/misp.cpp b/examples/misp.cpp
index cb1f197..89ad185 100644
--- a/examples/misp.cpp
+++ b/examples/misp.cpp
@@ -126,8 +126,9 @@ int main(int argc,char* argv[])
    Bounds bnds([&es](const std::vector<int>& inc)  {
       bool ok = true;    
       for(const auto& e : es) {
-         bool v1In = (e.a < (int)inc.size()) ? inc[e.a] : false;
-         bool v2In = (e.b < (int)inc.size()) ? inc[e.b] : false;
+         // the labels of this model are the selected vertices themselves
+         bool v1In = std::ranges::find(inc,e.a) != inc.end();
+         bool v2In = std::ranges::find(inc,e.b) != inc.end();
          if (v1In && v2In) {
             std::cout << e << " BOTH ep in inc: " << inc << "\n";
             assert(false);
diff --git a/examples/misp5.cpp b/examples/misp5.cpp
index dc212d9..0c5b455 100644
--- a/examples/misp5.cpp
+++ b/examples/misp5.cpp
@@ -118,7 +118,7 @@ int main(int argc,char* argv[])
          ok &= !(v1In && v2In);
       }
       int ttl= 0;
-      for(int i=0;i < top;i++)
+      for(int i=0;i < top && i < (int)inc.size();i++)
          ttl += inc[i] * weight[i];      
       std::cout << "\nCHECKER is " << ok << " SUM:" << ttl << "\n";      
    });
-- 
2.43.0


From ed92a2af2047eb99d74f84280c5d22acac391041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:57 +0000
Subject: [PATCH 29/36] fix: the checkers of misp2 and misp3 rejected
 independent sets

---
 examples/misp2.cpp | 20 +++++++++++++++++---
 examples/misp3.cpp | 20 +++++++++++++++++---
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/examples/misp2.cpp b/examples/misp2.cpp
index 64ce5a7..acf77df 100644
--- a/examples/misp2.cpp
+++ b/examples/misp2.cpp
@@ -118,11 +118,25 @@ int main(int argc,char* argv[])
    const int top = ns.size();
    const std::vector<GE> es = instance.getEdges();
 
-   Bounds bnds([&es](const std::vector<int>& inc)  {
+   Bounds bnds([&es,&ns,top](const std::vector<int>& inc)  {
+      GNSet sel = ns,taken;   // each label is a decision on the next vertex still eligible
+      int v = -1;
+      for(auto label : inc) {
+         do v++; while (v < top && !sel.contains(v));
+         if (v == top) break;
+         sel.remove(v);
+         if (label) {
+            taken.insert(v);
+            for(const auto& e : es) {
+               if (e.a == v) sel.remove(e.b);
+               if (e.b == v) sel.remove(e.a);
+            }
+         }
+      }
       bool ok = true;    
       for(const auto& e : es) {
-         bool v1In = (e.a < (int)inc.size()) ? inc[e.a] : false;
-         bool v2In = (e.b < (int)inc.size()) ? inc[e.b] : false;
+         bool v1In = taken.contains(e.a);
+         bool v2In = taken.contains(e.b);
          if (v1In && v2In) {
             std::cout << e << " BOTH ep in inc: " << inc << "\n";
             assert(false);
diff --git a/examples/misp3.cpp b/examples/misp3.cpp
index 220ad30..41a096c 100644
--- a/examples/misp3.cpp
+++ b/examples/misp3.cpp
@@ -118,11 +118,25 @@ int main(int argc,char* argv[])
    const int top = ns.size();
    const std::vector<GE> es = instance.getEdges();
 
-   Bounds bnds([&es](const std::vector<int>& inc)  {
+   Bounds bnds([&es,&ns,top](const std::vector<int>& inc)  {
+      GNSet sel = ns,taken;   // each label is a decision on the next vertex still eligible
+      int v = -1;
+      for(auto label : inc) {
+         do v++; while (v < top && !sel.contains(v));
+         if (v == top) break;
+         sel.remove(v);
+         if (label) {
+            taken.insert(v);
+            for(const auto& e : es) {
+               if (e.a == v) sel.remove(e.b);
+               if (e.b == v) sel.remove(e.a);
+            }
+         }
+      }
       bool ok = true;    
       for(const auto& e : es) {
-         bool v1In = (e.a < (int)inc.size()) ? inc[e.a] : false;
-         bool v2In = (e.b < (int)inc.size()) ? inc[e.b] : false;
+         bool v1In = taken.contains(e.a);
+         bool v2In = taken.contains(e.b);
          if (v1In && v2In) {
             std::cout << e << " BOTH ep in inc: " << inc << "\n";
             assert(false);
-- 
2.43.0


From 05d63c69f6359fa3fa48926ec621d195c69c69e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:51 +0000
Subject: [PATCH 30/36] fix: the root bound of tsp_test3, tsp_test4 and tsptw
 read an unset edge

---
 examples/tsp_test3.cpp | 2 +-
 examples/tsp_test4.cpp | 2 +-
 examples/tsptw.cpp     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/examples/tsp_test3.cpp b/examples/tsp_test3.cpp
index 8e92a23..ffe9d6c 100644
--- a/examples/tsp_test3.cpp
+++ b/examples/tsp_test3.cpp
@@ -161,7 +161,7 @@ double Greedy(Matrix<double,2>& d,GNSet C,GNSet V,int src,int sink,int hops)
    }
    mergeSort(edge,ne,[](double a,double b) { return a < b;});
    double locB = 0;
-   for(int i=0u;i < ts;i++) locB += edge[i];
+   for(int i=0u;i < std::min<int>(ts,ne);i++) locB += edge[i];
    return locB;
 }
 
diff --git a/examples/tsp_test4.cpp b/examples/tsp_test4.cpp
index be50406..1a873ed 100644
--- a/examples/tsp_test4.cpp
+++ b/examples/tsp_test4.cpp
@@ -187,7 +187,7 @@ double greedy(Matrix<double,2>& d,GNSet C,GNSet V,int src,int sink,int hops)
          edge[ne++] = min(t,[i](int j) {return i!=j;},[i,&d](int j) { return d[i][j];});
    
    mergeSort(edge,ne,[](double a,double b) { return a < b;});
-   return sum(Range(0,ts),[&edge](int e) { return edge[e];});
+   return sum(Range(0,std::min<int>(ts,ne)),[&edge](int e) { return edge[e];});
 }
 
 int main(int argc,char* argv[]) {
diff --git a/examples/tsptw.cpp b/examples/tsptw.cpp
index 48c26b2..cbdc4b1 100644
--- a/examples/tsptw.cpp
+++ b/examples/tsptw.cpp
@@ -101,7 +101,7 @@ double greedy(Matrix<double,2>& d,GNSet C,GNSet V,int src,int sink,int hops)
          edge[ne++] = min(t,[i](int j) {return i!=j;},[i,&d](int j) { return d[i][j];});
    
    mergeSort(edge,ne,[](double a,double b) { return a < b;});
-   return sum(Range(0,ts),[&edge](int e) { return edge[e];});
+   return sum(Range(0,std::min<int>(ts,ne)),[&edge](int e) { return edge[e];});
 }
 
 int main(int argc,char* argv[]) {
-- 
2.43.0


From 3c2bb530043b5e0d3a9823d8c4dc8c1223f6fe87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:10 +0000
Subject: [PATCH 31/36] Revert "fix: the root bound of tsp_test3, tsp_test4 and
 tsptw read an unset edge"

This reverts commit 05d63c69f6359fa3fa48926ec621d195c69c69e0.
---
 examples/tsp_test3.cpp | 2 +-
 examples/tsp_test4.cpp | 2 +-
 examples/tsptw.cpp     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/examples/tsp_test3.cpp b/examples/tsp_test3.cpp
index ffe9d6c..8e92a23 100644
--- a/examples/tsp_test3.cpp
+++ b/examples/tsp_test3.cpp
@@ -161,7 +161,7 @@ double Greedy(Matrix<double,2>& d,GNSet C,GNSet V,int src,int sink,int hops)
    }
    mergeSort(edge,ne,[](double a,double b) { return a < b;});
    double locB = 0;
-   for(int i=0u;i < std::min<int>(ts,ne);i++) locB += edge[i];
+   for(int i=0u;i < ts;i++) locB += edge[i];
    return locB;
 }
 
diff --git a/examples/tsp_test4.cpp b/examples/tsp_test4.cpp
index 1a873ed..be50406 100644
--- a/examples/tsp_test4.cpp
+++ b/examples/tsp_test4.cpp
@@ -187,7 +187,7 @@ double greedy(Matrix<double,2>& d,GNSet C,GNSet V,int src,int sink,int hops)
          edge[ne++] = min(t,[i](int j) {return i!=j;},[i,&d](int j) { return d[i][j];});
    
    mergeSort(edge,ne,[](double a,double b) { return a < b;});
-   return sum(Range(0,std::min<int>(ts,ne)),[&edge](int e) { return edge[e];});
+   return sum(Range(0,ts),[&edge](int e) { return edge[e];});
 }
 
 int main(int argc,char* argv[]) {
diff --git a/examples/tsptw.cpp b/examples/tsptw.cpp
index cbdc4b1..48c26b2 100644
--- a/examples/tsptw.cpp
+++ b/examples/tsptw.cpp
@@ -101,7 +101,7 @@ double greedy(Matrix<double,2>& d,GNSet C,GNSet V,int src,int sink,int hops)
          edge[ne++] = min(t,[i](int j) {return i!=j;},[i,&d](int j) { return d[i][j];});
    
    mergeSort(edge,ne,[](double a,double b) { return a < b;});
-   return sum(Range(0,std::min<int>(ts,ne)),[&edge](int e) { return edge[e];});
+   return sum(Range(0,ts),[&edge](int e) { return edge[e];});
 }
 
 int main(int argc,char* argv[]) {
-- 
2.43.0


From 1c6edacf90aeb043e9b0b937ddd44aee15b838cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:10 +0000
Subject: [PATCH 32/36] Revert "fix: the checkers of misp2 and misp3 rejected
 independent sets"

This reverts commit ed92a2af2047eb99d74f84280c5d22acac391041.
---
 examples/misp2.cpp | 20 +++-----------------
 examples/misp3.cpp | 20 +++-----------------
 2 files changed, 6 insertions(+), 34 deletions(-)

diff --git a/examples/misp2.cpp b/examples/misp2.cpp
index acf77df..64ce5a7 100644
--- a/examples/misp2.cpp
+++ b/examples/misp2.cpp
@@ -118,25 +118,11 @@ int main(int argc,char* argv[])
    const int top = ns.size();
    const std::vector<GE> es = instance.getEdges();
 
-   Bounds bnds([&es,&ns,top](const std::vector<int>& inc)  {
-      GNSet sel = ns,taken;   // each label is a decision on the next vertex still eligible
-      int v = -1;
-      for(auto label : inc) {
-         do v++; while (v < top && !sel.contains(v));
-         if (v == top) break;
-         sel.remove(v);
-         if (label) {
-            taken.insert(v);
-            for(const auto& e : es) {
-               if (e.a == v) sel.remove(e.b);
-               if (e.b == v) sel.remove(e.a);
-            }
-         }
-      }
+   Bounds bnds([&es](const std::vector<int>& inc)  {
       bool ok = true;    
       for(const auto& e : es) {
-         bool v1In = taken.contains(e.a);
-         bool v2In = taken.contains(e.b);
+         bool v1In = (e.a < (int)inc.size()) ? inc[e.a] : false;
+         bool v2In = (e.b < (int)inc.size()) ? inc[e.b] : false;
          if (v1In && v2In) {
             std::cout << e << " BOTH ep in inc: " << inc << "\n";
             assert(false);
diff --git a/examples/misp3.cpp b/examples/misp3.cpp
index 41a096c..220ad30 100644
--- a/examples/misp3.cpp
+++ b/examples/misp3.cpp
@@ -118,25 +118,11 @@ int main(int argc,char* argv[])
    const int top = ns.size();
    const std::vector<GE> es = instance.getEdges();
 
-   Bounds bnds([&es,&ns,top](const std::vector<int>& inc)  {
-      GNSet sel = ns,taken;   // each label is a decision on the next vertex still eligible
-      int v = -1;
-      for(auto label : inc) {
-         do v++; while (v < top && !sel.contains(v));
-         if (v == top) break;
-         sel.remove(v);
-         if (label) {
-            taken.insert(v);
-            for(const auto& e : es) {
-               if (e.a == v) sel.remove(e.b);
-               if (e.b == v) sel.remove(e.a);
-            }
-         }
-      }
+   Bounds bnds([&es](const std::vector<int>& inc)  {
       bool ok = true;    
       for(const auto& e : es) {
-         bool v1In = taken.contains(e.a);
-         bool v2In = taken.contains(e.b);
+         bool v1In = (e.a < (int)inc.size()) ? inc[e.a] : false;
+         bool v2In = (e.b < (int)inc.size()) ? inc[e.b] : false;
          if (v1In && v2In) {
             std::cout << e << " BOTH ep in inc: " << inc << "\n";
             assert(false);
-- 
2.43.0


From ffe02a0e462d367d970b5a10e85a70a570d4234a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:10 +0000
Subject: [PATCH 33/36] Revert "fix: the checkers of misp and misp5 misread the
 solution they are given"

This reverts commit 5c99609e09bb69ec4f63df600b4a9a80d585f762.
---
 examples/misp.cpp  | 5 ++---
 examples/misp5.cpp | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/examples/misp.cpp b/examples/misp.cpp
index 89ad185..cb1f197 100644
--- a/examples/misp.cpp
+++ b/examples/misp.cpp
@@ -126,9 +126,8 @@ int main(int argc,char* argv[])
    Bounds bnds([&es](const std::vector<int>& inc)  {
       bool ok = true;    
       for(const auto& e : es) {
-         // the labels of this model are the selected vertices themselves
-         bool v1In = std::ranges::find(inc,e.a) != inc.end();
-         bool v2In = std::ranges::find(inc,e.b) != inc.end();
+         bool v1In = (e.a < (int)inc.size()) ? inc[e.a] : false;
+         bool v2In = (e.b < (int)inc.size()) ? inc[e.b] : false;
          if (v1In && v2In) {
             std::cout << e << " BOTH ep in inc: " << inc << "\n";
             assert(false);
diff --git a/examples/misp5.cpp b/examples/misp5.cpp
index 0c5b455..dc212d9 100644
--- a/examples/misp5.cpp
+++ b/examples/misp5.cpp
@@ -118,7 +118,7 @@ int main(int argc,char* argv[])
          ok &= !(v1In && v2In);
       }
       int ttl= 0;
-      for(int i=0;i < top && i < (int)inc.size();i++)
+      for(int i=0;i < top;i++)
          ttl += inc[i] * weight[i];      
       std::cout << "\nCHECKER is " << ok << " SUM:" << ttl << "\n";      
    });
-- 
2.43.0


From 0ad10a27d3dcdab38a66633d45d6344ac9d3d5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:10 +0000
Subject: [PATCH 34/36] Revert "fix: the spanning tree of tsp_test2 went on
 after the last edge and crashed"

This reverts commit 80078a084c8bea9a3c08c587dc6d6bc3ebcf027d.
---
 examples/tsp_test2.cpp | 2 +-
 examples/tsp_test3.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/examples/tsp_test2.cpp b/examples/tsp_test2.cpp
index 75bb878..cfbc5ab 100644
--- a/examples/tsp_test2.cpp
+++ b/examples/tsp_test2.cpp
@@ -113,7 +113,7 @@ double mst(Matrix<double,2>& d,GNSet C,GNSet V,int src,int sink,int hops)
    pq.buildHeap();
    int ne = 0,ts = C.size() - hops;
    double l = 0;
-   while (ne != ts && !pq.empty()) {
+   while (ne != ts) {
       auto e = pq.extractMax();
       if (uf.setFor(vm[e.a]) != uf.setFor(vm[e.b])) {
          l += e.w;
diff --git a/examples/tsp_test3.cpp b/examples/tsp_test3.cpp
index 8e92a23..476b968 100644
--- a/examples/tsp_test3.cpp
+++ b/examples/tsp_test3.cpp
@@ -115,7 +115,7 @@ double mst(Matrix<double,2>& d,GNSet C,GNSet V,int src,int sink,int hops)
    pq.buildHeap();
    int ne = 0,ts = C.size() - hops;
    double l = 0;
-   while (ne != ts && !pq.empty()) {
+   while (ne != ts) {
       auto e = pq.extractMax();
       if (uf.setFor(vm[e.a]) != uf.setFor(vm[e.b])) {
          l += e.w;
-- 
2.43.0


From 97868bef10c57432262019aaa5540943d6f8ff78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:10 +0000
Subject: [PATCH 35/36] Revert "fix: knapsack2 wrote past its array of items
 and its greedy bound read past the instance"

This reverts commit 5538a51929a20570e4c12d697b4f433f99f5f570.
---
 examples/knapsack2.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/examples/knapsack2.cpp b/examples/knapsack2.cpp
index 0ec0d44..a989921 100644
--- a/examples/knapsack2.cpp
+++ b/examples/knapsack2.cpp
@@ -43,7 +43,7 @@ struct Instance {
       int rC = capa;
       int val = 0;
       int cnt = 0;
-      while (cnt < I) {
+      while (rC >= 0) {
          if (weight[cnt] <= rC) {
             val += profit[cnt];
             rC  -= weight[cnt];
@@ -66,8 +66,8 @@ Instance readFile(const char* fName)
       if (f.eof()) break;
       Item k;
       f >> k.p >> k.w;
-      if (count >= i.I) break;
-      i.items[count++] = k;
+      i.items[count] = k;
+      if (count++ >= i.I) break;
    }
    f.close();
    mergeSort(i.items,i.I,[](const auto& a,const auto& b) {
-- 
2.43.0


From 991cb719d9ab398b70f3859ed856a2809c0af869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:08 +0000
Subject: [PATCH 36/36] fix: reversing a word left its last byte unset

---
 src/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index 16b300c..44901f4 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -56,7 +56,7 @@ namespace std {
       unsigned long long out;
       unsigned char* sw = (unsigned char*)&w;
       unsigned char* dw = (unsigned char*)&out;
-      for(int i=0;i < 7;i++)
+      for(int i=0;i < 8;i++)
          dw[i] = revBitsOfByte(sw[7-i]);
       return out;
    }
-- 
2.43.0

