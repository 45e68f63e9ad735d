// E01 - branch-and-bound returns the optimum (or reports no solution), and terminates.
// Oracle: dynamic programming over the explicit transition table / brute force for the concrete models.
#include "engine.hpp"
using namespace eng;
static void check(Src& s,Case& c,const Prob& p,unsigned w) {
   BBOpt o; o.width = w; o.viaCtor = s.coin();
   describe(c,p,PBT_STR("width=" << w));
   auto r = runBB(p,o);
   if (p.feasible) REQUIRE(r.fin == p.opt,"width " << w << ": search ended with " << r.fin << ", the optimum is " << p.opt << " :: " << p.desc);
   else REQUIRE(r.fin == p.sentinel() && r.sols.empty(),"width " << w << ": search ended with " << r.fin << " and " << r.sols.size() << " solutions, the model has none :: " << p.desc);
   c.nontrivial = p.feasible && r.nodes > 1;
   if (r.nodes > 1) c.label("branched");
   if (r.nodes > 20) c.label("branched>20");
   if (r.out.find("widening") != std::string::npos) c.label("widened");
}
#define R "the search explored more than one B&B node and the model has a solution"
PROPERTY(tiny,R,20000,700000,3000,40000,100) { check(s,c,fromModel(genModel(s,sizeOpt(Tiny))),drawWidth(s,Tiny)); }
PROPERTY(medium,R,8000,250000,1000,12000,60) { check(s,c,fromModel(genModel(s,sizeOpt(Medium))),drawWidth(s,Medium)); }
PROPERTY(deep,R,20000,600000,2000,30000,60) { check(s,c,fromModel(genModel(s,sizeOpt(Deep))),drawWidth(s,Deep)); }
PROPERTY(wide,R,480,12000,48,480,4) { check(s,c,fromModel(genModel(s,sizeOpt(Wide))),drawWidth(s,Wide)); }
PROPERTY(absorb,R,8000,200000,800,8000,60) { check(s,c,fromModel(genModel(s,sizeOpt(Absorb))),drawWidth(s,Absorb)); }
PROPERTY(huge,R,48,1200,4,40,1) { check(s,c,fromModel(genModel(s,sizeOpt(Huge))),(unsigned)s.range(240,650)); }
PROPERTY(lengthy,R,1200,24000,60,600,4) { check(s,c,fromModel(genModel(s,sizeOpt(Long))),drawWidth(s,Long)); }
PROPERTY(concrete_small,R,8000,200000,800,8000,40) { auto p = concrete(s); check(s,c,p,(unsigned)s.range(1,8)); }
PROPERTY(concrete_large,R,600,15000,48,480,4) { auto p = concrete(s,true); check(s,c,p,(unsigned)s.range(1,60)); }
// listed in known-findings.txt: a state reachable at two depths (outside the domain of the generators above)
KNOWN(twoDepths,"two-depths-max5") {
   auto m = std::make_shared<Model>();
   m->minimize = false; m->n = 5; m->sink = 4; m->nLayers = 4; m->layered = false; m->depth = {0,1,2,3,4};
   m->arcs = {{{0,2,0},{1,1,0}},{{0,2,1}},{{0,3,0}},{{2,4,0}},{}};
   for (int l = 0;l < 3;l++) m->allLabels.insert(l);
   m->V = {1,1,0,0,0}; m->slackD.assign(5,0); m->slackB.assign(5,0);
   BBOpt o; o.width = 1;
   return runBB(fromModel(m),o).fin != 1;
}
PBT_MAIN
