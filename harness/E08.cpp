// E08 - a diagram object can be reused: whatever was compiled in it before, compiling below a node gives what a fresh duplicate
// gives (value, incumbent, exactness, cutset, effect on the bounds), and diagrams do not disturb one another.
// Oracle: differential, reused diagram against a fresh duplicate() at every step of a random history.
#include "engine.hpp"
using namespace eng;
struct Obs { bool ret,exact; double v,prim; std::vector<int> inc; std::vector<std::string> cs; std::vector<Sol> sols; };
static Obs observe(AbstractDD::Ptr dd,Strategy* st,ANode::Ptr from,double prim,bool relaxed) {
   Obs o; Bounds b(dd); b.setPrimal(prim);
   b.onSolution([&](const std::vector<int>& l) { o.sols.push_back({l,b.getPrimal()});});
   dd->setStrategy(st);
   o.ret = dd->apply(from,b);
   o.exact = dd->isExact(); o.v = dd->currentOpt(); o.inc = dd->incumbent();
   if (relaxed) for (auto n : dd->computeCutSet()) { std::ostringstream s; s << stateOf(n) << n->getBound() << ' ' << n->getBackwardBound() << str(std::vector<int>(n->beginOptLabels(),n->endOptLabels())); o.cs.push_back(s.str()); }
   std::sort(o.cs.begin(),o.cs.end());
   o.prim = b.getPrimal();
   return o;
}
static std::string diff(const Obs& a,const Obs& b) {
   if (a.ret != b.ret) return "apply's answer";
   if (a.exact != b.exact) return "exactness";
   if (a.v != b.v) return PBT_STR("value " << a.v << " / " << b.v);
   if (a.inc != b.inc) return PBT_STR("incumbent " << str(a.inc) << " / " << str(b.inc));
   if (a.prim != b.prim) return PBT_STR("primal bound " << a.prim << " / " << b.prim);
   if (a.sols.size() != b.sols.size()) return "number of solutions reported";
   for (std::size_t i = 0;i < a.sols.size();i++) if (a.sols[i].labels != b.sols[i].labels || a.sols[i].primal != b.sols[i].primal) return "solution reported";
   if (a.cs != b.cs) return PBT_STR("cutset of " << a.cs.size() << " / " << b.cs.size());
   return "";
}
static void check(Src& s,Case& c,MP m,Size z) {
   describe(c,*m);
   std::ostringstream log; Quiet q;
   auto base = makeDD(m); auto dd = base->duplicate(); auto other = base->duplicate(); auto rootDD = base->duplicate();
   auto al = dd->makeNDAllocator();
   std::vector<ANode::Ptr> nodes; nodes.push_back(al->cloneNode(rootDD->init()));
   Relaxed rl(1); Restricted rs(1); Exact ex; Relaxed rl2(1);
   const int steps = s.range(2,7); int below = 0,kinds = 0,last = -1;
   for (int k = 0;k < steps;k++) {
      unsigned w = drawWidth(s,z); const unsigned kind = s.weighted({4,3,1});
      auto from = nodes[s.draw((uint32_t)nodes.size())];
      double prim = m->sentinel(); if (m->feasible() && s.chance(1,3)) prim = m->minimize ? m->best() + s.range(-8,24) / 4.0 : m->best() - s.range(-8,24) / 4.0;
      log << (kind == 0 ? "relaxed" : kind == 1 ? "restricted" : "exact") << w << "@" << stateOf(from) << "p" << prim << ' ';
      rl.setWidth(w); rs.setWidth(w);
      if (s.chance(1,4)) { rl2.setWidth(drawWidth(s,z)); observe(other,&rl2,nodes[s.draw((uint32_t)nodes.size())],m->sentinel(),true); log << "(other) "; }
      if (s.chance(1,5)) { dd->reset(); log << "(reset) "; }
      Strategy* st = kind == 0 ? (Strategy*)&rl : kind == 1 ? (Strategy*)&rs : (Strategy*)&ex;
      auto a = observe(dd,st,from,prim,kind == 0);
      std::vector<ANode::Ptr> fresh;
      if (kind == 0 && !dd->isExact()) for (auto n : dd->computeCutSet()) if (n != dd->getRoot() && nodes.size() + fresh.size() < 30) { auto k2 = al->cloneNode(n); if (k2) fresh.push_back(k2); }
      auto f = base->duplicate(); Relaxed frl(w); Restricted frs(w); Exact fex;
      auto b = observe(f,kind == 0 ? (Strategy*)&frl : kind == 1 ? (Strategy*)&frs : (Strategy*)&fex,from,prim,kind == 0);
      auto d = diff(a,b);
      REQUIRE(d.empty(),"reused and fresh diagrams disagree on " << d << " at step " << k << " of " << log.str() << " :: " << m->show());
      below += stateOf(from).m[0] != 0; kinds += last >= 0 && last != (int)kind; last = (int)kind;
      for (auto n : fresh) nodes.push_back(n);
   }
   c.note(" history: " + log.str()); c.print(pbt::hashStr(log.str()));
   c.nontrivial = steps >= 3; if (below) c.label("below a cutset node"); if (kinds) c.label("strategy switched");
}
#define R "three or more compilations in the same diagram object"
PROPERTY(tiny,R,3000,120000,400,5000,20) { check(s,c,genModel(s,sizeOpt(Tiny)),Tiny); }
PROPERTY(medium,R,3000,100000,400,5000,20) { check(s,c,genModel(s,sizeOpt(Medium)),Medium); }
PROPERTY(deep,R,5000,150000,600,8000,20) { check(s,c,genModel(s,sizeOpt(Deep)),Deep); }
PROPERTY(wide,R,120,3000,12,120,2) { check(s,c,genModel(s,sizeOpt(Wide)),Wide); }
PROPERTY(huge,R,24,600,2,20,1) { check(s,c,genModel(s,sizeOpt(Huge)),Huge); }
PROPERTY(lengthy,R,1200,24000,60,600,8) { check(s,c,genModel(s,sizeOpt(Long)),Long); }
PBT_MAIN
