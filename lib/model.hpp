// model.hpp - randomly generated optimisation models for the decision-diagram engine, with an
// independent oracle (dynamic programming over the explicit transition table).
//
// A model is an explicit acyclic labelled transition system over base states 0..n-1 with root 0 and a
// sink.  The engine sees states that are *sets* of base states: singletons are the real states, and merging
// is set union (transitions: union of the members' transitions; cost: the best member's cost; optionally without
// the members that another member simulates, so that the result can be an existing real state), which is a correct relaxation whatever the table is.  So every generated model is a *valid* user model.
#pragma once
#include "pbt.hpp"
#include "codd.hpp"

namespace mdl {
using pbt::Src; using pbt::Case;

struct Live {                     // counts the live state objects
   static inline long n = 0;
   Live() { ++n;} Live(const Live&) { ++n;} Live& operator=(const Live&) = default; ~Live() { --n;}
};
struct TS {                       // engine-visible state: sorted set of base states
   std::vector<int> m;
   Live live = {};
   friend bool operator==(const TS& a,const TS& b) { return a.m == b.m;}
   friend std::ostream& operator<<(std::ostream& os,const TS& s) {
      os << "<";
      for (auto x : s.m) os << x << '.';
      return os << ">";
   }
};
inline int gHashMode = 0;         // 0 good, 1 coarse, 2 constant
}
template <> struct std::hash<mdl::TS> {
   std::size_t operator()(const mdl::TS& s) const noexcept {
      if (mdl::gHashMode == 2) return 7;
      std::size_t h = 1469598103934665603ull;
      for (auto x : s.m) h = pbt::mix(h ^ (std::size_t)(x + 1));
      return mdl::gHashMode == 1 ? h % 5 : h;
   }
};
namespace mdl {
constexpr double INF = 1e100;     // oracle's own "no completion"

struct Arc { int lbl,to; double cost; };
struct Model {
   bool minimize = true;
   int n = 0, sink = 0, nLayers = 0; bool big = false;
   bool layered = true, absorb = false;    // absorb: merging drops the members another member simulates
   std::vector<std::vector<bool>> sim;     // sim[a][b]: every continuation of b exists from a, label for label, at a cost at least as good
   std::vector<int> depth;                 // generation layer of a base state
   std::vector<std::vector<Arc>> arcs;     // per base state
   std::vector<double> V;                  // best completion (INF/-INF: none)
   std::vector<double> slackD,slackB;      // local bound slack per state and context
   bool hasLocal = false, hasDom = false;
   double deadEst = 64;                    // local bound of a state without completion (scaled with the model)
   int mergeMode = 0;                      // 0 always, 1 refuses some pairs, 2 never
   uint32_t mergeSalt = 0;
   uint32_t domSalt = 0; bool domSink = false; unsigned domDensity = 4;
   int hashMode = 0;
   int maxLabel = 0;
   GNSet allLabels;
   long budget = 1L << 60;                 // callback budget (deterministic runaway detection)
   long calls = 0;
   double none() const { return minimize ? INF : -INF;}
   bool better(double a,double b) const { return minimize ? a < b : a > b;}
   double best() const { return V[0];}
   bool feasible() const { return V[0] != none();}
   const Arc* find(int s,int l) const {
      auto& v = arcs[(std::size_t)s];
      if (v.size() > 400) { auto it = std::lower_bound(v.begin(),v.end(),l,[](const Arc& a,int x) { return a.lbl < x;}); if (it != v.end() && it->lbl == l) return &*it; }
      for (auto& a : v) if (a.lbl == l) return &a;
      return nullptr;
   }
   double sentinel() const { return minimize ? (double)std::numeric_limits<int>::max() : -(double)std::numeric_limits<int>::max();}
   void tick(const char* who) {
      if (++calls > budget) FAIL("runaway: more than " << budget << " model callbacks (last: " << who << ")");
   }
   // best value over the paths of a set of base states
   double bestOf(const TS& s) const {
      double r = none();
      for (auto x : s.m) if (better(V[(std::size_t)x],r)) r = V[(std::size_t)x];
      return r;
   }
   // replay a label sequence over base states from `from`; false when infeasible or not ending at the sink
   bool replay(const std::vector<int>& lbls,double& cost,int from = 0,double c0 = 0) const {
      int s = from; cost = c0;
      for (auto l : lbls) {
         if (s == sink) return false;
         auto a = find(s,l);
         if (!a) return false;
         cost += a->cost; s = a->to;
      }
      return s == sink;
   }
   // where a label sequence leads from the root (-1: nowhere)
   int walk(const std::vector<int>& lbls,double& cost) const {
      int s = 0; cost = 0;
      for (auto l : lbls) {
         auto a = s == sink ? nullptr : find(s,l);
         if (!a) return -1;
         cost += a->cost; s = a->to;
      }
      return s;
   }
   bool dominatesBase(int a,int b) const {  // valid: a's best completion is at least as good as b's
      if (a == b) return true;
      if (a == sink) return false;
      if (b == sink ? !domSink : depth[(std::size_t)a] != depth[(std::size_t)b]) return false;
      if (better(V[(std::size_t)b],V[(std::size_t)a])) return false;
      return pbt::mix(((uint64_t)a << 32) ^ (uint64_t)b ^ domSalt) % 8 < domDensity;
   }
   bool dominates(const TS& a,const TS& b) const {
      // every member of b is dominated by some member of a: sound for sets since completions of the set a
      // include the completions of each of its members.
      for (auto y : b.m) {
         bool ok = false;
         for (auto x : a.m) if (dominatesBase(x,y)) { ok = true; break; }
         if (!ok) return false;
      }
      return true;
   }
   double local(const TS& s,bool bb) const {
      double r = none(); 
      for (auto x : s.m) {
         double v = V[(std::size_t)x];
         if (v == none()) v = minimize ? deadEst : -deadEst;  // no completion: any finite estimate is admissible
         double sl = bb ? slackB[(std::size_t)x] : slackD[(std::size_t)x];
         v = minimize ? v - sl : v + sl;
         if (better(v,r)) r = v;
      }
      return r;
   }
   int stage(const TS& s) const {
      int d = 1 << 20;
      for (auto x : s.m) d = std::min(d,depth[(std::size_t)x]);
      return d;
   }
   void computeSim() {   // states are numbered along the arcs, so the targets are decided first
      sim.assign((std::size_t)n,std::vector<bool>((std::size_t)n,false));
      for (int a = n - 1;a >= 0;a--)
         for (int b = n - 1;b >= 0;b--) {
            if (a == b) { sim[(std::size_t)a][(std::size_t)b] = true; continue; }
            if (a == sink || b == sink || depth[(std::size_t)a] != depth[(std::size_t)b]) continue;
            bool ok = true;
            for (auto& y : arcs[(std::size_t)b]) {
               auto x = find(a,y.lbl);
               if (!x || better(y.cost,x->cost) || !sim[(std::size_t)x->to][(std::size_t)y.to]) { ok = false; break; }
            }
            sim[(std::size_t)a][(std::size_t)b] = ok;
         }
   }
   void reduce(std::vector<int>& v) const { // canonical: keeps, of mutually simulating members, the smallest
      if (!absorb) return;
      std::vector<int> r;
      for (auto y : v) {
         bool drop = false;
         for (auto x : v) if (x != y && sim[(std::size_t)x][(std::size_t)y] && (!sim[(std::size_t)y][(std::size_t)x] || x < y)) { drop = true; break; }
         if (!drop) r.push_back(y);
      }
      v.swap(r);
   }
   bool mayMerge(const TS& a,const TS& b) const {
      if (stage(a) != stage(b)) return false;   // keeps the relaxed state graph acyclic (stages only grow along arcs)
      if (mergeMode == 0) return true;
      if (mergeMode == 2) return false;
      // a predicate on states only; symmetric
      uint64_t h = 0;
      for (auto x : a.m) h += pbt::mix((uint64_t)x * 31 + mergeSalt);
      for (auto x : b.m) h += pbt::mix((uint64_t)x * 31 + mergeSalt);
      return pbt::mix(h) % 3 != 0;
   }
   std::string show() const {
      std::ostringstream o;
      o << (minimize ? "min" : "max") << " n=" << n << " layers=" << nLayers << (layered ? "" : " skips") << " hash=" << hashMode << " merge=" << mergeMode << (absorb ? "a" : "")
        << (hasLocal ? " local" : "") << (hasDom ? " dom" : "") << " best=" << (feasible() ? std::to_string(best()) : std::string("none")) << " {";
      for (int i = 0;i < n && o.str().size() < 700;i++) {
         if (i == sink) continue;
         o << i << ":";
         for (auto& a : arcs[(std::size_t)i]) o << a.lbl << "->" << a.to << "(" << a.cost << ") ";
         o << "; ";
      }
      o << "}";
      return o.str();
   }
};
typedef std::shared_ptr<Model> MP;

struct GenOpt {
   int minLayers = 1,maxLayers = 5,maxWidth = 5,maxArcs = 4;
   bool allowSkips = false, allowLocal = true, allowDom = true, allowInfeasible = true;
   bool intCosts = false; bool negatives = true; bool allowRefuse = true; int dense = 1; bool allowDomSink = false; int rootArcs = 0; bool deep = false; bool allowAbsorb = true, absorbing = false, extremes = true; long budget = 2000000;
};

inline double drawCost(Src& s,int style) {
   switch (style) {
      case 0: return s.range(0,3);                       // many ties
      case 1: return s.range(0,20);
      case 2: return s.range(-6,6);
      case 3: return s.range(-40,40) / 4.0;              // dyadic fractions
      case 5: return s.range(-20,20) * 1000003 + s.range(0,3) / 4.0;     // more digits than a float has
      case 6: return s.range(0,2) + s.range(0,3) / 1073741824.0;         // nearly equal
      default: return s.range(0,1) * 0.5;
   }
}

inline MP genModel(Src& s,const GenOpt& g) {
   auto m = std::make_shared<Model>();
   m->minimize = !s.coin();
   const bool dense = g.dense == 2 || (g.dense == 1 && s.coin());  // no accidental dead ends, more convergence
   int L = dense ? s.range(std::max(g.minLayers,g.maxLayers / 2),g.maxLayers) : s.range(g.minLayers,g.maxLayers);
   m->nLayers = L;
   const bool expanding = g.deep || (!g.rootArcs && s.coin());     // layers grow: cutsets strictly below the root
   int maxW = dense ? g.maxWidth : s.range(1,g.maxWidth);
   std::vector<std::vector<int>> layers;
   layers.push_back({0});
   m->depth.push_back(0);
   int n = 1;
   for (int l = 1;l < L;l++) {
      const int maxW0 = maxW; if (expanding) maxW = std::min(maxW,1 + l);
      int w = s.range(dense ? std::min(maxW,std::max(2,maxW / 2)) : 1,maxW);
      std::vector<int> ly;
      maxW = maxW0;
      for (int i = 0;i < w;i++) { ly.push_back(n++); m->depth.push_back(l); }
      layers.push_back(ly);
   }
   m->sink = n++; m->depth.push_back(L);
   m->n = n;
   m->arcs.resize((std::size_t)n);
   int costStyle = g.deep && s.coin() ? (s.coin() ? 1 : 3) : g.intCosts ? (g.negatives ? s.range(0,2) : s.range(0,1)) : s.range(0,g.negatives ? 4 : 1);
   if (!g.negatives && costStyle > 1) costStyle = 1;
   if (g.extremes && g.negatives && !g.intCosts && s.chance(1,8)) costStyle = g.maxLayers > 50 || s.coin() ? 6 : 5;
   m->big = costStyle == 5;
   // label alphabet: labels < K are moves; labels >= K go to the sink.  Scattered ids exercise the sets.
   int K = s.range(dense ? std::max(2,g.maxArcs - 1) : 1,g.maxArcs + 2);
   if (g.rootArcs) K = g.rootArcs;
   int stride = std::vector<int>{1,1,3,17,63}[s.draw(5)];
   if (g.rootArcs > 5000) stride = s.range(1,7);
   int off = s.draw(3) == 2 ? s.range(0,70) : 0;
   int nSinkLbl = s.range(1,2);
   auto lab = [&](int i) { return off + i * stride;};
   m->layered = true;
   const bool skips = g.allowSkips && s.coin();
   const bool early = s.chance(1,3);  // arcs to the sink before the last layer
   for (int l = 0;l < L;l++) {
      for (auto st : layers[(std::size_t)l]) {
         std::vector<int> order;
         for (int i = 0;i < K && (l == 0 || i < 5000);i++) order.push_back(i);
         if (l + 1 < L) {
            int na = s.range(dense ? 1 + (l == 0) : g.allowInfeasible ? 0 : 1,std::max(1,std::min(K,g.maxArcs)));
            if (l == 0 && g.rootArcs) na = s.range(g.rootArcs / 2,g.rootArcs);
            if (na == 0 && s.chance(3,4)) na = 1;         // dead ends exist but are not the rule
            for (int k = 0;k < na;k++) {
               auto pick = s.draw((uint32_t)order.size());
               int li = order[pick]; if (order.size() > 5000) { order[pick] = order.back(); order.pop_back(); } else order.erase(order.begin() + pick);
               int tl = l + 1;
               if (skips && l + 2 < L && s.chance(1,3)) { tl = s.range(l + 2,L - 1); m->layered = false; }
               int to = l == 0 && g.rootArcs ? layers[1][(std::size_t)k % layers[1].size()] : s.pick(layers[(std::size_t)tl]);
               m->arcs[(std::size_t)st].push_back({lab(li),to,drawCost(s,costStyle)});
            }
         }
         if (l == L - 1 || (early && s.chance(1,5))) {
            int ns = s.range(l == L - 1 && !dense && s.chance(1,8) && g.allowInfeasible ? 0 : 1,nSinkLbl);
            for (int k = 0;k < ns;k++)
               m->arcs[(std::size_t)st].push_back({lab(K + k),m->sink,drawCost(s,costStyle)});
         }
      }
   }
   m->maxLabel = lab(K + 1);
   m->absorb = g.absorbing || (g.allowAbsorb && s.chance(1,4));
   if (m->absorb)          // some states are made to offer all that a sibling offers
      for (auto& ly : layers)
         for (auto a : ly) {
            if (ly.size() < 2 || !(g.absorbing ? s.chance(7,10) : s.chance(2,5))) continue;
            const int b = s.pick(ly);
            if (a == b) continue;
            auto& A = m->arcs[(std::size_t)a];
            for (auto y : m->arcs[(std::size_t)b]) {
               const double gain = s.chance(1,3) ? s.range(0,3) : 0; y.cost += m->minimize ? -gain : gain;
               bool had = false;
               for (auto& x : A) if (x.lbl == y.lbl) { x = y; had = true; }
               if (!had) A.push_back(y);
            }
         }
   for (auto& v : m->arcs) {
      std::sort(v.begin(),v.end(),[](auto& a,auto& b) { return a.lbl < b.lbl;});
      for (auto& a : v) m->allLabels.insert(a.lbl);
   }
   // oracle: base states are numbered so that arcs go from lower to higher number
   m->V.assign((std::size_t)n,m->none());
   m->V[(std::size_t)m->sink] = 0;
   for (int i = n - 1;i >= 0;i--)
      for (auto& a : m->arcs[(std::size_t)i]) {
         if (m->V[(std::size_t)a.to] == m->none()) continue;
         double v = a.cost + m->V[(std::size_t)a.to];
         if (m->better(v,m->V[(std::size_t)i])) m->V[(std::size_t)i] = v;
      }
   if (m->absorb) m->computeSim();
   m->hasLocal = g.allowLocal && s.chance(2,5);
   m->slackD.assign((std::size_t)n,0); m->slackB.assign((std::size_t)n,0);
   if (m->hasLocal) {
      int sm = s.range(0,3);   // 0 perfect bounds, 1 uniform slack, 2 mixed, 3 very loose
      for (int i = 0;i < n;i++) {
         if (i == m->sink && sm < 3) continue;
         double a = sm == 0 ? 0 : sm == 1 ? 2 : sm == 2 ? s.range(0,6) : 50;
         double b = sm == 2 ? s.range(0,6) : a;
         m->slackD[(std::size_t)i] = a; m->slackB[(std::size_t)i] = b;
      }
   }
   m->hasDom = g.allowDom && s.chance(1,4);
   if (m->hasDom) { m->domSalt = s.draw(1000); m->domDensity = (unsigned)s.range(2,8); m->domSink = g.allowDomSink && s.coin(); }
   m->mergeMode = g.allowRefuse ? (int)s.weighted({6,2,1}) : 0;
   if (m->mergeMode == 1) m->mergeSalt = s.draw(1000);
   m->hashMode = (int)s.weighted({4,2,1});
   m->budget = g.budget;
   return m;
}

// ---- the engine-side instantiation -------------------------------------------------------------
typedef std::function<GNSet(const TS&)> LGFn;
typedef std::function<std::optional<TS>(const TS&,int)> STFn;
typedef std::function<double(const TS&,int)> STCn;
typedef std::function<std::optional<TS>(const TS&,const TS&)> SMFn;
typedef std::function<bool(const TS&)> EQn;
typedef std::function<TS()> TRn;
typedef std::function<double(const TS&,LocalContext)> LOCn;
typedef std::function<bool(const TS&,const TS&)> DOMn;

struct Hooks { // observation points
   std::function<void(const TS&)> onExpand;    // label generation (state expanded)
   std::function<void(const TS&,const TS&,const TS&)> onMerge;
   std::function<void(const TS&,const TS&)> onMergeAsked;           // before the model decides
   std::function<void(const TS&,int,const std::optional<TS>&)> onTransition;
   std::function<void(const TS&,int,double)> onCost;
   std::function<void(const TS&,bool,double)> onLocal;
   std::function<void(const TS&,const TS&,bool)> onDom;
};
typedef std::shared_ptr<Hooks> HP;

template <class CMP,class LG> AbstractDD::Ptr makeWith(MP m,HP h,LG lg) {
   gHashMode = m->hashMode;
   LOCn loc = nullptr; if (m->hasLocal) loc = [m,h](const TS& s,LocalContext c) { m->tick("local"); auto v = m->local(s,c == BBCtx); if (h && h->onLocal) h->onLocal(s,c == BBCtx,v); return v;};
   DOMn dom = nullptr; if (m->hasDom) dom = [m,h](const TS& a,const TS& b) { m->tick("dom"); auto v = m->dominates(a,b); if (h && h->onDom) h->onDom(a,b,v); return v;};
   return DD<TS,CMP,TRn,LG,STFn,STCn,SMFn,EQn,LOCn,DOMn>::makeDD(
      std::function<TS()>([]() { return TS{{0}};}),
      TRn([m]() { return TS{{m->sink}};}),
      lg,
      STFn([m,h](const TS& s,int l) -> std::optional<TS> {
         m->tick("transition");
         TS r;
         for (auto x : s.m) { if (x == m->sink) continue; auto a = m->find(x,l); if (a) r.m.push_back(a->to); }
         std::sort(r.m.begin(),r.m.end());
         r.m.erase(std::unique(r.m.begin(),r.m.end()),r.m.end());
         std::optional<TS> rv; if (!r.m.empty()) rv = r;
         if (h && h->onTransition) h->onTransition(s,l,rv);
         return rv;
      }),
      STCn([m,h](const TS& s,int l) {
         double c = m->none();
         for (auto x : s.m) { auto a = m->find(x,l); if (a && m->better(a->cost,c)) c = a->cost; }
         if (h && h->onCost) h->onCost(s,l,c);
         return c;
      }),
      SMFn([m,h](const TS& a,const TS& b) -> std::optional<TS> {
         m->tick("merge");
         if (h && h->onMergeAsked) h->onMergeAsked(a,b);
         if (!m->mayMerge(a,b)) return std::nullopt;
         TS r;
         std::set_union(a.m.begin(),a.m.end(),b.m.begin(),b.m.end(),std::back_inserter(r.m));
         m->reduce(r.m);
         if (h && h->onMerge) h->onMerge(a,b,r);
         return r;
      }),
      EQn([m](const TS& s) { return s.m.size() == 1 && s.m[0] == m->sink;}),
      m->allLabels,loc,dom);
}
inline std::vector<int> labelsOf(const Model& m,const TS& s) {
   std::vector<int> r;
   for (auto x : s.m) { if (x == m.sink) continue; for (auto& a : m.arcs[(std::size_t)x]) r.push_back(a.lbl); }
   std::sort(r.begin(),r.end()); r.erase(std::unique(r.begin(),r.end()),r.end());
   return r;
}
inline LGFn gnLabels(MP m,HP h) {
   return [m,h](const TS& s) {
      m->tick("labels");
      if (h && h->onExpand) h->onExpand(s);
      GNSet r; for (auto l : labelsOf(*m,s)) r.insert(l);
      return r;
   };
}
inline AbstractDD::Ptr makeDD(MP m,HP h = nullptr) {
   return m->minimize ? makeWith<Minimize<double>>(m,h,gnLabels(m,h)) : makeWith<Maximize<double>>(m,h,gnLabels(m,h));
}
inline const TS& stateOf(ANode::Ptr n) { return static_cast<const Node<TS>*>(n.get())->get();}

// stdout of the engine: swallowed, or captured
struct NullBuf :std::streambuf { int overflow(int c) override { return c;} std::streamsize xsputn(const char*,std::streamsize n) override { return n;}};
struct Quiet {
   NullBuf nb; std::streambuf* old;
   Quiet() { old = std::cout.rdbuf(&nb);}
   ~Quiet() { std::cout.rdbuf(old);}
};
struct Capture {
   std::ostringstream os; std::streambuf* old;
   Capture() { std::cout.copyfmt(std::ios(nullptr)); old = std::cout.rdbuf(os.rdbuf());}  // every run starts from default formatting
   ~Capture() { std::cout.rdbuf(old);}
};
inline void describe(Case& c,const Model& m) {
   c.note(m.show());
   c.print(pbt::hashStr(m.show()));
   c.label(m.minimize ? "min" : "max");
   if (m.hasLocal) c.label("local");
   if (m.hasDom) c.label("dominance");
   if (!m.feasible()) c.label("infeasible");
   if (!m.layered) c.label("skip-arcs");
   if (m.mergeMode) c.label("merge-refusal");
   if (m.absorb) c.label("merge into a real state");
   if (m.hashMode) c.label("hash-collisions");
}
} // namespace mdl
