// engine.hpp - what the engine checks share: a problem abstraction (generated transition systems and
// concrete user-style models, each with its own oracle) and observed runs of the branch-and-bound.
#pragma once
#include "model.hpp"
#include <ranges>

namespace eng {
using namespace mdl;

struct Prob {
   bool minimize = true, feasible = true;
   double opt = 0;                                             // meaningful when feasible
   std::function<AbstractDD::Ptr(Bounds*)> make;               // the user model (may look at the bounds)
   std::function<bool(const std::vector<int>&,double&)> eval;  // independent evaluation of a label sequence
   std::string desc,kind;
   MP model;                                                   // when it is a generated transition system
   bool better(double a,double b) const { return minimize ? a < b : a > b;}
   double sentinel() const { return minimize ? (double)std::numeric_limits<int>::max() : -(double)std::numeric_limits<int>::max();}
};

struct Sol { std::vector<int> labels; double primal; };
struct BBRun { std::vector<Sol> sols; double fin = 0; int lim = -1; std::string out; unsigned nodes = 0; };
inline std::string str(const std::vector<int>& v) {
   std::ostringstream o; o << '['; for (auto x : v) o << x << ' '; o << ']'; return o.str();
}

struct BBOpt {
   unsigned width = 1;
   std::optional<double> init;                       // user-provided primal bound
   std::function<bool(double)> limit;                // time limit callback
   bool viaCtor = false;                             // register the checker through the Bounds constructor
};
inline BBRun runBB(const Prob& p,const BBOpt& o) {
   BBRun r;
   Bounds* pb = nullptr;
   auto cb = [&](const std::vector<int>& inc) { r.sols.push_back({inc,pb->getPrimal()});};
   Bounds viaC(cb), plain;
   Bounds& b = o.viaCtor ? viaC : plain;
   pb = &b;
   if (!o.viaCtor) b.onSolution(cb);
   if (o.init) b.setPrimal(*o.init);
   auto dd = p.make(&b);
   {
      Capture q;
      BAndB engine(dd,o.width);
      if (o.limit) engine.setTimeLimit(o.limit);
      engine.search(b);
      r.out = q.os.str();
   }
   r.fin = b.getPrimal();
   auto at = r.out.rfind("LIM?:");
   if (at != std::string::npos) r.lim = r.out[at + 5] == '1' ? 1 : r.out[at + 5] == '0' ? 0 : -1;
   at = r.out.rfind("#nodes:");
   if (at != std::string::npos) r.nodes = (unsigned)strtoul(r.out.c_str() + at + 7,nullptr,10);
   return r;
}

// ---------------------------------------------------------------- concrete user models
struct KS { int n,c;
   friend std::ostream& operator<<(std::ostream& os,const KS& m) { return os << "<" << m.n << ',' << m.c << ">";}
   friend bool operator==(const KS& a,const KS& b) { return a.n == b.n && a.c == b.c;} };
struct MS { GNSet sel; int n;
   friend std::ostream& operator<<(std::ostream& os,const MS& m) { return os << "<" << m.sel << ',' << m.n << ">";}
   friend bool operator==(const MS& a,const MS& b) { return a.n == b.n && a.sel == b.sel;} };
struct TP { GNSet s; int e,hops;
   friend std::ostream& operator<<(std::ostream& os,const TP& m) { return os << "<" << m.s << ',' << m.e << ',' << m.hops << ">";}
   friend bool operator==(const TP& a,const TP& b) { return a.e == b.e && a.hops == b.hops && a.s == b.s;} };
typedef NatSet<2> GRSet;
struct GR { GRSet m,d; int k,e;
   friend std::ostream& operator<<(std::ostream& os,const GR& m) { return os << "<" << m.m << ',' << m.d << ',' << m.k << ',' << m.e << ">";}
   friend bool operator==(const GR& a,const GR& b) { return a.k == b.k && a.e == b.e && a.m == b.m && a.d == b.d;} };
struct CL { std::vector<GNSet> s; int last,vtx;
   friend std::ostream& operator<<(std::ostream& os,const CL& m) { return os << "<" << m.s << ',' << m.last << ',' << m.vtx << ">";}
   friend bool operator==(const CL& a,const CL& b) { return a.last == b.last && a.vtx == b.vtx && a.s == b.s;} };
struct JS { NatSet<1> done; int t,k;
   friend std::ostream& operator<<(std::ostream& os,const JS& m) { return os << "<" << m.done << ',' << m.t << ',' << m.k << ">";}
   friend bool operator==(const JS& a,const JS& b) { return a.t == b.t && a.k == b.k && a.done == b.done;} };
}
template <> struct std::hash<eng::KS> { std::size_t operator()(const eng::KS& v) const noexcept { return std::rotl(std::hash<int>{}(v.n),32) ^ std::hash<int>{}(v.c);} };
template <> struct std::hash<eng::MS> { std::size_t operator()(const eng::MS& v) const noexcept { return std::rotl(std::hash<GNSet>{}(v.sel),32) ^ std::hash<int>{}(v.n);} };
template <> struct std::hash<eng::TP> { std::size_t operator()(const eng::TP& v) const noexcept { return (std::hash<GNSet>{}(v.s) << 24) | (std::hash<int>{}(v.e) << 16) | std::hash<int>{}(v.hops);} };
template <> struct std::hash<eng::GR> { std::size_t operator()(const eng::GR& v) const noexcept { return std::rotl(std::hash<eng::GRSet>{}(v.m),20) | std::rotl(std::hash<eng::GRSet>{}(v.d),10) | std::rotl(std::hash<int>{}(v.k),8) | std::hash<int>{}(v.e);} };
template <> struct std::hash<eng::CL> { std::size_t operator()(const eng::CL& v) const noexcept { return (std::hash<std::vector<GNSet>>{}(v.s) << 24) | (std::hash<int>{}(v.last) << 16) | std::hash<int>{}(v.vtx);} };
template <> struct std::hash<eng::JS> { std::size_t operator()(const eng::JS& v) const noexcept { return std::rotl(std::hash<NatSet<1>>{}(v.done),20) ^ (std::size_t)(v.t * 64 + v.k);} };

namespace eng {

// bounded knapsack, maximise; labels are copies of the item (Range, ascending or descending)
inline Prob knapsack(Src& s,int maxItems,int maxCap) {
   const int I = s.range(1,maxItems), capa = s.range(0,maxCap), q = s.range(1,3);
   std::vector<int> w,p;
   for (int i = 0;i < I;i++) { w.push_back(s.range(1,std::max(2,maxCap / 3))); p.push_back(s.range(0,12)); }
   const bool desc = s.coin(), loc = s.coin(), dom = s.coin(), tight = s.coin();
   std::vector<int> suf((std::size_t)I + 1,0);
   for (int i = I - 1;i >= 0;i--) suf[(std::size_t)i] = suf[(std::size_t)i + 1] + q * p[(std::size_t)i];
   std::vector<double> best((std::size_t)capa + 1,0);
   for (int i = 0;i < I;i++)
      for (int c = capa;c >= 0;c--)
         for (int k = 1;k <= q && k * w[(std::size_t)i] <= c;k++)
            best[(std::size_t)c] = std::max(best[(std::size_t)c],best[(std::size_t)(c - k * w[(std::size_t)i])] + k * p[(std::size_t)i]);
   Prob r; r.minimize = false; r.opt = best[(std::size_t)capa]; r.kind = "knapsack";
   r.desc = PBT_STR("knapsack capa=" << capa << " copies=" << q << " w=" << str(w) << " p=" << str(p) << (desc ? " desc" : "") << (loc ? " local" : "") << (dom ? " dom" : ""));
   r.make = [=](Bounds*) -> AbstractDD::Ptr {
      const auto init = [capa]() { return KS {0,capa};};
      const auto target = [I]() { return KS {I,0};};
      const auto lgf = [w,q,desc](const KS& a) { auto r = Range::closeInc(0,std::min(q,a.c / w[(std::size_t)a.n])); return desc ? r.flip() : r;};
      const auto stf = [I,w](const KS& a,const int l) -> std::optional<KS> {
         if (a.n < I - 1) return KS {a.n + 1,a.c - l * w[(std::size_t)a.n]};
         return KS {I,0};
      };
      const auto scf = [p](const KS& a,int l) { return (double)p[(std::size_t)a.n] * l;};
      const auto smf = [capa,tight](const KS& a,const KS& b) -> std::optional<KS> {
         if (a.n == b.n && (!tight || std::abs(a.c - b.c) <= 1 + capa / 5)) return KS {a.n,std::max(a.c,b.c)};
         return std::nullopt;
      };
      const auto eqs = [I](const KS& a) { return a.n == I;};
      const auto local = [suf,w,p,I,q](const KS& a,LocalContext c) -> double {
         if (c == DDCtx) return suf[(std::size_t)a.n];
         double v = 0; int wmin = 1 << 20;
         for (int i = a.n;i < I;i++) { wmin = std::min(wmin,w[(std::size_t)i]); if (w[(std::size_t)i] <= a.c) v += std::min(q,a.c / w[(std::size_t)i]) * p[(std::size_t)i]; }
         return v;
      };
      const auto sdom = [](const KS& a,const KS& b) -> bool { return a.n == b.n && a.c >= b.c;};
      const auto labels = GNSet(0,q);
      typedef std::function<bool(const KS&,const KS&)> DF;
      typedef std::function<double(const KS&,LocalContext)> LF;
      return DD<KS,Maximize<double>,decltype(target),decltype(lgf),decltype(stf),decltype(scf),decltype(smf),decltype(eqs),LF,DF>::makeDD(
         init,target,lgf,stf,scf,smf,eqs,labels,loc ? LF(local) : LF(nullptr),dom ? DF(sdom) : DF(nullptr));
   };
   r.eval = [=](const std::vector<int>& l,double& v) {
      if ((int)l.size() != I) return false;
      int c = capa; v = 0;
      for (int i = 0;i < I;i++) { if (l[(std::size_t)i] < 0 || l[(std::size_t)i] > q) return false; c -= l[(std::size_t)i] * w[(std::size_t)i]; v += l[(std::size_t)i] * p[(std::size_t)i]; }
      return c >= 0;
   };
   return r;
}

// weighted maximum independent set; labels are a set
inline Prob misp(Src& s,int maxN) {
   const int n = s.range(1,maxN); const int dens = s.range(0,3);
   std::vector<unsigned> adj((std::size_t)n,0); std::vector<int> wt;
   for (int i = 0;i < n;i++) wt.push_back(s.range(1,4));
   for (int i = 0;i < n;i++) for (int j = i + 1;j < n;j++) if (s.chance((unsigned)dens + 1,5)) { adj[(std::size_t)i] |= 1u << j; adj[(std::size_t)j] |= 1u << i; }
   const int ofs = s.pick(std::vector<int>{0,0,60,120});      // vertex i is element i+ofs of the sets
   const bool loc = s.coin(), dom = s.chance(1,3);
   Prob r; r.minimize = false; r.kind = "misp"; r.opt = 0;
   for (unsigned m = 0;m < (1u << n);m++) {
      bool ok = true; int v = 0;
      for (int i = 0;i < n && ok;i++) if (m >> i & 1) { ok = !(adj[(std::size_t)i] & m); v += wt[(std::size_t)i]; }
      if (ok) r.opt = std::max(r.opt,(double)v);
   }
   r.desc = PBT_STR("misp n=" << n << " ofs=" << ofs << " w=" << str(wt) << " adj="; for (auto a : adj) _o << std::hex << a << std::dec << ','; _o << (loc ? " local" : "") << (dom ? " dom" : ""));
   r.make = [=](Bounds*) -> AbstractDD::Ptr {
      std::vector<GNSet> nb;
      for (int i = 0;i < n;i++) { GNSet a; a.insert(i + ofs); for (int j = 0;j < n;j++) if (adj[(std::size_t)i] >> j & 1) a.insert(j + ofs); nb.push_back(a); }
      const auto init = [n,ofs]() { return MS {GNSet(ofs,ofs + n - 1),0};};
      const auto target = [n]() { return MS {GNSet {},n};};
      const auto lgf = [ofs](const MS& a) { return a.sel.contains(a.n + ofs) ? GNSet {0,1} : GNSet {0};};
      const auto stf = [n,ofs,nb](const MS& a,const int l) -> std::optional<MS> {
         if (a.n + 1 >= n) return MS {GNSet {},n};
         if (l) { if (!a.sel.contains(a.n + ofs)) return std::nullopt; return MS {a.sel - nb[(std::size_t)a.n],a.n + 1}; }
         auto o = a.sel; o.remove(a.n + ofs); return MS {o,a.n + 1};
      };
      const auto scf = [wt](const MS& a,int l) { return (double)wt[(std::size_t)a.n] * l;};
      const auto smf = [](const MS& a,const MS& b) -> std::optional<MS> { if (a.n == b.n) return MS {a.sel | b.sel,a.n}; return std::nullopt;};
      const auto eqs = [n](const MS& a) { return a.n == n;};
      const auto local = [wt,ofs](const MS& a,LocalContext) -> double { double v = 0; for (auto x : a.sel) v += wt[(std::size_t)(x - ofs)]; return v;};
      const auto sdom = [](const MS& a,const MS& b) -> bool { return a.n == b.n && (b.sel - a.sel).empty();};
      const auto labels = GNSet {0,1};
      typedef std::function<bool(const MS&,const MS&)> DF;
      typedef std::function<double(const MS&,LocalContext)> LF;
      return DD<MS,Maximize<double>,decltype(target),decltype(lgf),decltype(stf),decltype(scf),decltype(smf),decltype(eqs),LF,DF>::makeDD(
         init,target,lgf,stf,scf,smf,eqs,labels,loc ? LF(local) : LF(nullptr),dom ? DF(sdom) : DF(nullptr));
   };
   r.eval = [=](const std::vector<int>& l,double& v) {
      if ((int)l.size() != n) return false;
      unsigned m = 0; v = 0;
      for (int i = 0;i < n;i++) { if (l[(std::size_t)i] != 0 && l[(std::size_t)i] != 1) return false; if (l[(std::size_t)i]) { if (adj[(std::size_t)i] & m) return false; m |= 1u << i; v += wt[(std::size_t)i]; } }
      return true;
   };
   return r;
}

// travelling salesman from city 1 (as in examples/tsp.cpp), asymmetric distances in a Matrix
inline Prob tsp(Src& s,int maxN) {
   const int n = s.range(3,maxN); const bool loc = s.coin();
   std::vector<std::vector<int>> d((std::size_t)n,std::vector<int>((std::size_t)n,0)); int mn = 1000;
   for (int i = 0;i < n;i++) for (int j = 0;j < n;j++) if (i != j) { d[(std::size_t)i][(std::size_t)j] = s.range(1,15); mn = std::min(mn,d[(std::size_t)i][(std::size_t)j]); }
   Prob r; r.minimize = true; r.kind = "tsp"; r.opt = 1e9;
   std::vector<int> perm; for (int i = 0;i < n;i++) if (i != 1) perm.push_back(i);
   auto tour = [d](const std::vector<int>& p) { int at = 1; double c = 0; for (auto x : p) { c += d[(std::size_t)at][(std::size_t)x]; at = x; } return c + d[(std::size_t)at][1];};
   do r.opt = std::min(r.opt,tour(perm)); while (std::next_permutation(perm.begin(),perm.end()));
   r.desc = PBT_STR("tsp n=" << n << (loc ? " local" : "") << " d="; for (auto& v : d) _o << str(v));
   r.make = [=](Bounds*) -> AbstractDD::Ptr {
      auto M = std::make_shared<Matrix<double,2>>(n,n);
      for (int i = 0;i < n;i++) for (int j = 0;j < n;j++) (*M)[i][j] = d[(std::size_t)i][(std::size_t)j];
      GNSet C(0,n - 1);
      const auto init = []() { return TP {GNSet {},1,0};};
      const auto target = [n,C]() { return TP {C,1,n};};
      const auto lgf = [n,C](const TP& a) -> GNSet { if (a.hops >= n - 1) return GNSet {1}; return (C - a.s).remove(1).remove(a.e);};
      const auto stf = [n,C](const TP& a,const int l) -> std::optional<TP> { if (l == 1) return TP {C,1,n}; return TP {a.s | GNSet {l},l,a.hops + 1};};
      const auto scf = [M](const TP& a,int l) { return (double)(*M)[a.e][l];};
      const auto smf = [](const TP& a,const TP& b) -> std::optional<TP> { if (a.e == b.e && a.hops == b.hops) return TP {a.s & b.s,a.e,a.hops}; return std::nullopt;};
      const auto eqs = [n](const TP& a) { return a.e == 1 && a.hops == n;};
      const auto local = [n,mn](const TP& a,LocalContext) -> double { return (double)mn * (n - a.hops);};
      typedef std::function<double(const TP&,LocalContext)> LF;
      return DD<TP,Minimize<double>,decltype(target),decltype(lgf),decltype(stf),decltype(scf),decltype(smf),decltype(eqs),LF>::makeDD(
         init,target,lgf,stf,scf,smf,eqs,C,loc ? LF(local) : LF(nullptr));
   };
   r.eval = [=](const std::vector<int>& l,double& v) {
      if ((int)l.size() != n || l.back() != 1) return false;
      std::vector<int> p(l.begin(),l.end() - 1), q = p; std::sort(q.begin(),q.end());
      std::vector<int> want; for (int i = 0;i < n;i++) if (i != 1) want.push_back(i);
      if (q != want) return false;
      v = tour(p); return true;
   };
   return r;
}

// Golomb ruler with at most L as length (as in examples/gruler.cpp: NatSets, reflection, labels cut by the primal bound)
inline Prob golomb(Src& s) {
   const int n = s.range(3,5), L = s.range(n,n == 5 ? 14 : 12); const bool usePrimal = s.coin();
   Prob r; r.minimize = true; r.kind = "golomb"; r.feasible = false;
   std::function<void(std::vector<int>&,unsigned)> rec = [&](std::vector<int>& m,unsigned ds) {
      if ((int)m.size() == n) { if (!r.feasible || m.back() < r.opt) { r.opt = m.back(); r.feasible = true; } return; }
      for (int x = m.back() + 1;x <= L;x++) {
         unsigned nd = 0; bool ok = true;
         for (auto y : m) { unsigned bit = 1u << (x - y); if ((ds | nd) & bit) { ok = false; break; } nd |= bit; }
         if (ok) { m.push_back(x); rec(m,ds | nd); m.pop_back(); }
      }
   };
   std::vector<int> m0 {0}; rec(m0,0);
   r.desc = PBT_STR("golomb marks=" << n << " L=" << L << (usePrimal ? " labels<primal" : ""));
   r.make = [=](Bounds* b) -> AbstractDD::Ptr {
      const auto init = []() { return GR {GRSet {0},GRSet {},1,0};};
      const auto target = [n]() { return GR {GRSet {},GRSet {},n,0};};
      const auto lgf = [n,L,b,usePrimal](const GR& a) { int ub = L; if (usePrimal && b && b->hasPrimal()) ub = std::min<int>(ub,(int)std::ceil(b->getPrimal()) - 1); return Range::closeInc(a.e + 1,std::max(ub,a.e));};
      const auto stf = [n](const GR& a,const int l) -> std::optional<GR> {
         bool legal = !std::foldl(a.m,[l,&a](bool acc,int i) { return acc || a.d.contains(l - i);},false);
         if (!legal) return std::nullopt;
         if (a.k == n - 1) return GR {GRSet {},GRSet {},n,0};
         return GR {a.m | GRSet {l},(l - a.m) | a.d,a.k + 1,l};
      };
      const auto scf = [](const GR& a,int l) { return (double)(l - a.e);};
      const auto smf = [](const GR& a,const GR& b) -> std::optional<GR> { if (a.k == b.k && a.e == b.e) return GR {a.m & b.m,a.d & b.d,a.k,a.e}; return std::nullopt;};
      const auto eqs = [n](const GR& a) { return a.k == n;};
      return DD<GR,Minimize<double>,decltype(target),decltype(lgf),decltype(stf),decltype(scf),decltype(smf),decltype(eqs)>::makeDD(
         init,target,lgf,stf,scf,smf,eqs,GNSet(1,L));
   };
   r.eval = [=](const std::vector<int>& l,double& v) {
      if ((int)l.size() != n - 1) return false;
      std::vector<int> m {0}; std::set<int> ds;
      for (auto x : l) { if (x <= m.back() || x > L) return false; for (auto y : m) if (!ds.insert(x - y).second) return false; m.push_back(x); }
      v = m.back(); return true;
   };
   return r;
}

// graph colouring (as in examples/coloringtoy.cpp: states holding a vector of label sets)
inline Prob coloring(Src& s,int maxN) {
   const int n = s.range(1,maxN); const bool usePrimal = s.coin(); const unsigned dens = (unsigned)s.range(1,4);
   std::vector<std::vector<bool>> e((std::size_t)n,std::vector<bool>((std::size_t)n,false));
   for (int i = 0;i < n;i++) for (int j = i + 1;j < n;j++) e[(std::size_t)i][(std::size_t)j] = e[(std::size_t)j][(std::size_t)i] = s.chance(dens,5);
   Prob r; r.minimize = true; r.kind = "coloring"; r.opt = n;
   std::vector<int> col((std::size_t)n,0);
   std::function<void(int,int)> rec = [&](int v,int mx) {
      if (v == n) { r.opt = std::min(r.opt,(double)mx); return; }
      for (int k = 1;k <= mx + 1;k++) {
         bool ok = true; for (int u = 0;u < v && ok;u++) ok = !(e[(std::size_t)u][(std::size_t)v] && col[(std::size_t)u] == k);
         if (ok) { col[(std::size_t)v] = k; rec(v + 1,std::max(mx,k)); }
      }
   };
   rec(0,0);
   r.desc = PBT_STR("coloring n=" << n << (usePrimal ? " labels<=primal" : "") << " edges="; for (int i = 0;i < n;i++) for (int j = i + 1;j < n;j++) if (e[(std::size_t)i][(std::size_t)j]) _o << i << '-' << j << ' ');
   r.make = [=](Bounds* b) -> AbstractDD::Ptr {
      const auto init = [n]() { return CL {std::vector<GNSet>((std::size_t)n,GNSet(1,n)),0,0};};
      const auto target = [n]() { return CL {std::vector<GNSet>{},0,n};};
      const auto lgf = [n,b,usePrimal](const CL& a) -> Range {
         if (a.vtx >= n) return Range::open(0,0);
         int ub = std::min(a.last + 1,n);
         if (usePrimal && b && b->hasPrimal()) ub = std::min<int>(ub,(int)b->getPrimal());
         return Range::closeInc(1,ub);
      };
      const auto stf = [n,e](const CL& a,const int l) -> std::optional<CL> {
         if (!a.s[(std::size_t)a.vtx].contains(l)) return std::nullopt;
         auto B = a.s;
         for (int v = a.vtx + 1;v < n;v++) if (e[(std::size_t)a.vtx][(std::size_t)v] && a.s[(std::size_t)v].contains(l)) B[(std::size_t)v].remove(l);
         B[(std::size_t)a.vtx] = GNSet {l};
         if (a.vtx + 1 == n) return CL {std::vector<GNSet>{},0,n};
         return CL {B,std::max(l,a.last),a.vtx + 1};
      };
      const auto scf = [](const CL& a,int l) { return (double)std::max(0,l - a.last);};
      const auto smf = [n](const CL& a,const CL& b) -> std::optional<CL> {
         if (a.last != b.last || a.vtx != b.vtx) return std::nullopt;
         std::vector<GNSet> B((std::size_t)n,GNSet {});
         for (int i = 0;i < n;i++) B[(std::size_t)i] = a.s[(std::size_t)i] | b.s[(std::size_t)i];
         return CL {B,a.last,a.vtx};
      };
      const auto eqs = [n](const CL& a) { return a.vtx == n;};
      return DD<CL,Minimize<double>,decltype(target),decltype(lgf),decltype(stf),decltype(scf),decltype(smf),decltype(eqs)>::makeDD(
         init,target,lgf,stf,scf,smf,eqs,GNSet(1,n));
   };
   r.eval = [=](const std::vector<int>& l,double& v) {
      if ((int)l.size() != n) return false;
      v = 0;
      for (int i = 0;i < n;i++) { if (l[(std::size_t)i] < 1) return false; v = std::max(v,(double)l[(std::size_t)i]); for (int j = 0;j < i;j++) if (e[(std::size_t)i][(std::size_t)j] && l[(std::size_t)i] == l[(std::size_t)j]) return false; }
      return true;
   };
   return r;
}

// one machine, total weighted tardiness; labels are a NatSet
inline Prob jobs(Src& s,int maxN) {
   const int n = s.range(1,maxN); std::vector<int> p,d,w;
   for (int i = 0;i < n;i++) { p.push_back(s.range(1,6)); d.push_back(s.range(0,14)); w.push_back(s.range(0,3)); }
   const bool loc = s.coin(), dom = s.coin();
   Prob r; r.minimize = true; r.kind = "jobs"; r.opt = 1e9;
   auto cost = [=](const std::vector<int>& o) { int t = 0; double c = 0; for (auto j : o) { t += p[(std::size_t)j]; c += w[(std::size_t)j] * std::max(0,t - d[(std::size_t)j]); } return c;};
   std::vector<int> perm; for (int i = 0;i < n;i++) perm.push_back(i);
   do r.opt = std::min(r.opt,cost(perm)); while (std::next_permutation(perm.begin(),perm.end()));
   r.desc = PBT_STR("jobs p=" << str(p) << " d=" << str(d) << " w=" << str(w) << (loc ? " local" : "") << (dom ? " dom" : ""));
   r.make = [=](Bounds*) -> AbstractDD::Ptr {
      const auto init = []() { return JS {NatSet<1>{},0,0};};
      const auto target = [n]() { return JS {NatSet<1>{},0,n};};
      const auto lgf = [n](const JS& a) { NatSet<1> r; for (int i = 0;i < n;i++) if (!a.done.contains(i)) r.insert(i); return r;};
      const auto stf = [n,p](const JS& a,const int l) -> std::optional<JS> {
         if (a.done.contains(l)) return std::nullopt;
         if (a.k + 1 == n) return JS {NatSet<1>{},0,n};
         return JS {a.done | NatSet<1>{l},a.t + p[(std::size_t)l],a.k + 1};
      };
      const auto scf = [p,d,w](const JS& a,int l) { return (double)w[(std::size_t)l] * std::max(0,a.t + p[(std::size_t)l] - d[(std::size_t)l]);};
      const auto smf = [](const JS& a,const JS& b) -> std::optional<JS> { if (a.k == b.k) return JS {a.done & b.done,std::min(a.t,b.t),a.k}; return std::nullopt;};
      const auto eqs = [n](const JS& a) { return a.k == n;};
      const auto local = [](const JS&,LocalContext) -> double { return 0;};
      const auto sdom = [](const JS& a,const JS& b) -> bool { return a.k == b.k && a.done == b.done && a.t <= b.t;};
      typedef std::function<bool(const JS&,const JS&)> DF;
      typedef std::function<double(const JS&,LocalContext)> LF;
      return DD<JS,Minimize<double>,decltype(target),decltype(lgf),decltype(stf),decltype(scf),decltype(smf),decltype(eqs),LF,DF>::makeDD(
         init,target,lgf,stf,scf,smf,eqs,GNSet(0,n - 1),loc ? LF(local) : LF(nullptr),dom ? DF(sdom) : DF(nullptr));
   };
   r.eval = [=](const std::vector<int>& l,double& v) {
      auto q = l; std::sort(q.begin(),q.end());
      if ((int)q.size() != n) return false;
      for (int i = 0;i < n;i++) if (q[(std::size_t)i] != i) return false;
      v = cost(l); return true;
   };
   return r;
}

inline Prob fromModel(MP m) {
   Prob r; r.minimize = m->minimize; r.feasible = m->feasible(); r.opt = m->best(); r.model = m; r.kind = "table";
   r.desc = m->show();
   r.make = [m](Bounds*) { return makeDD(m);};
   r.eval = [m](const std::vector<int>& l,double& v) { return m->replay(l,v);};
   return r;
}
enum Size { Tiny, Medium, Wide, Deep, Huge, Absorb, Long, Fan };
inline GenOpt sizeOpt(Size z) {
   GenOpt g; g.allowDomSink = true;
   if (z == Medium) { g.minLayers = 3; g.maxLayers = 8; g.maxWidth = 10; g.maxArcs = 5; }
   if (z == Wide) { g.minLayers = 2; g.maxLayers = 4; g.maxWidth = 200; g.maxArcs = 3; g.rootArcs = 190; g.dense = 2; g.allowAbsorb = false; }
   if (z == Huge) { g.minLayers = 4; g.maxLayers = 7; g.maxWidth = 600; g.maxArcs = 3; g.rootArcs = 500; g.dense = 2; g.allowRefuse = false; g.allowAbsorb = false; g.budget = 60000000; }
   if (z == Deep) { g.minLayers = 8; g.maxLayers = 24; g.maxWidth = 14; g.maxArcs = 3; g.dense = 2; g.deep = true; }
   if (z == Absorb) { g.minLayers = 3; g.maxLayers = 7; g.maxWidth = 7; g.maxArcs = 4; g.absorbing = true; g.allowRefuse = false; g.allowDom = false; g.dense = 2; }
   if (z == Long) { g.minLayers = 258; g.maxLayers = 420; g.maxWidth = 3; g.maxArcs = 2; g.dense = 2; g.allowAbsorb = false; g.budget = 60000000; }
   if (z == Fan) { g.minLayers = 2; g.maxLayers = 4; g.maxWidth = 4; g.maxArcs = 3; g.rootArcs = 70000; g.dense = 2; g.allowRefuse = false; g.allowAbsorb = false; g.budget = 60000000; }
   return g;
}
inline Prob concrete(Src& s,bool large = false) {
   switch (s.draw(6)) {
      case 0: return large ? knapsack(s,22,150) : knapsack(s,8,20);
      case 1: return misp(s,large ? 14 : 9);
      case 2: return tsp(s,large ? 8 : 6);
      case 3: return golomb(s);
      case 4: return coloring(s,large ? 8 : 6);
      default: return jobs(s,large ? 8 : 6);
   }
}
inline unsigned drawWidth(Src& s,Size z) {
   switch (z) {
      case Tiny: return (unsigned)s.range(1,5);
      case Medium: return (unsigned)s.range(1,10);
      case Deep: return (unsigned)s.range(2,7);
      case Absorb: return (unsigned)s.range(1,6);
      case Long: case Fan: return (unsigned)s.range(1,3);
      case Huge: return s.chance(1,4) ? (unsigned)s.range(20,200) : (unsigned)s.range(200,650);
      default: return s.coin() ? (unsigned)s.range(1,20) : (unsigned)s.range(20,220);
   }
}
inline void describe(Case& c,const Prob& p,const std::string& extra = "") {
   c.note(extra + " " + p.desc);
   c.print(pbt::hashStr(extra + p.desc));
   c.label(p.kind);
   if (!p.feasible) c.label("infeasible");
   if (p.model) { auto& m = *p.model; if (m.hasLocal) c.label("local"); if (m.hasDom) c.label("dominance"); if (m.mergeMode) c.label("merge-refusal"); if (m.absorb) c.label("merge into a real state"); if (m.hashMode) c.label("hash-collisions"); }
}
} // namespace eng
