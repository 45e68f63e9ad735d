// E02 - every solution handed to a solution callback is a real solution of the model with the announced value,
// each one strictly better than the one before, and the last one is what the search ends with.
// Oracle: independent replay of the label sequence over the transition table / the problem data.
#include "engine.hpp"
#include <list>
using namespace eng;
static void check(Src& s,Case& c,const Prob& p,unsigned w) {
   std::optional<double> init;
   if (p.feasible && s.chance(1,4)) init = p.minimize ? p.opt + s.range(0,24) / 4.0 : p.opt - s.range(0,24) / 4.0;
   long lim = s.chance(1,4) ? s.range(1,12) : -1;
   describe(c,p,PBT_STR("width=" << w << " init=" << (init ? std::to_string(*init) : "-") << " limit@" << lim));
   // two callbacks and the primal bound seen by each
   Bounds b; std::vector<Sol> a1,a2;
   b.onSolution([&](const std::vector<int>& l) { a1.push_back({l,b.getPrimal()});});
   b.onSolution([&](const std::vector<int>& l) { a2.push_back({l,b.getPrimal()});});
   if (init) b.setPrimal(*init);
   auto dd = p.make(&b);
   std::string out;
   { Capture q; BAndB e(dd,w); long k = 0; if (lim > 0) e.setTimeLimit([&k,lim](double) { return ++k >= lim;}); e.search(b); out = q.os.str(); }
   double cur = init ? *init : p.sentinel();
   const std::string tail = PBT_STR(" (width " << w << ") :: " << p.desc);
   for (std::size_t i = 0;i < a1.size();i++) {
      double v = 0;
      REQUIRE(p.eval(a1[i].labels,v),"solution #" << i << " " << str(a1[i].labels) << " is not a solution of the model" << tail);
      REQUIRE(v == a1[i].primal,"solution #" << i << " " << str(a1[i].labels) << " costs " << v << " but the primal bound says " << a1[i].primal << tail);
      REQUIRE(p.better(v,cur),"solution #" << i << " of value " << v << " does not improve on " << cur << tail);
      cur = v;
   }
   REQUIRE(b.getPrimal() == cur,"the search ended with primal " << b.getPrimal() << " but the last solution given is worth " << cur << tail);
   REQUIRE(a1.size() == a2.size(),"the callbacks were called " << a1.size() << " and " << a2.size() << " times" << tail);
   for (std::size_t i = 0;i < a1.size();i++) REQUIRE(a1[i].labels == a2[i].labels && a1[i].primal == a2[i].primal,"the two callbacks saw different solutions" << tail);
   if (p.feasible) REQUIRE(!p.better(cur,p.opt) || (init && cur == *init),"value " << cur << " beats the optimum " << p.opt << tail);
   // the incumbent printed with the bounds is the last solution
   if (!a1.empty()) {
      std::ostringstream o; o << b;
      std::ostringstream want; want << a1.back().labels;
      REQUIRE(o.str().find(want.str()) != std::string::npos,"the bounds print as " << o.str() << " but the last solution is " << want.str() << tail);
   }
   c.nontrivial = a1.size() >= 1 && a1.back().labels.size() >= 2;
   if (a1.size() >= 2) c.label("2+ solutions");
   if (a1.size() >= 4) c.label("4+ solutions");
   if (out.find("D TIGHTEN") != std::string::npos) c.label("solution from the relaxed diagram");
   if (out.find("LIM?:1") != std::string::npos) c.label("limit hit");
}
#define R "at least one solution of two or more decisions was reported"
PROPERTY(tiny,R,12000,500000,2000,30000,100) { check(s,c,fromModel(genModel(s,sizeOpt(Tiny))),drawWidth(s,Tiny)); }
PROPERTY(medium,R,8000,250000,1000,12000,60) { check(s,c,fromModel(genModel(s,sizeOpt(Medium))),drawWidth(s,Medium)); }
PROPERTY(deep,R,16000,500000,2000,30000,60) { check(s,c,fromModel(genModel(s,sizeOpt(Deep))),drawWidth(s,Deep)); }
PROPERTY(wide,R,320,8000,32,320,4) { check(s,c,fromModel(genModel(s,sizeOpt(Wide))),drawWidth(s,Wide)); }
PROPERTY(lengthy,R,1200,24000,60,600,4) { check(s,c,fromModel(genModel(s,sizeOpt(Long))),drawWidth(s,Long)); }
PROPERTY(concrete_small,R,8000,200000,800,8000,40) { auto p = concrete(s); check(s,c,p,(unsigned)s.range(1,8)); }
PROPERTY(concrete_large,R,400,10000,32,320,4) { auto p = concrete(s,true); check(s,c,p,(unsigned)s.range(1,60)); }
// the bookkeeping itself: every callback registered so far hears of every solution once, in order, with exactly its labels
PROPERTY(bookkeeping,"two or more callbacks and two or more solutions",60000,1000000,8000,80000,2000) {
   std::vector<std::vector<std::vector<int>>> got(24); std::vector<std::size_t> since; std::vector<std::vector<int>> all; std::vector<int> order; std::ostringstream log; int nc = 0;
   auto cb = [&](int id) { return [&,id](const std::vector<int>& l) { got[(std::size_t)id].push_back(l); order.push_back(id);};};
   const bool ctor = s.coin(); Bounds viaC(cb(0)),plain; Bounds& b = ctor ? viaC : plain; if (ctor) { since.push_back(0); nc = 1; log << "ctor "; }
   REQUIRE(!b.hasPrimal(),"a new Bounds claims to have a primal bound");
   double prim = 0; bool set = false; const int ops = s.range(1,40);
   for (int o = 0;o < ops;o++) switch (s.weighted({2,3,1})) {
      case 0: if (nc < 24) { b.onSolution(cb(nc++)); since.push_back(all.size()); log << "on "; } break;
      case 1: { std::vector<int> l((std::size_t)(s.chance(1,20) ? s.range(0,400) : s.range(0,6))); for (auto& x : l) x = s.range(-3,300); log << str(l).substr(0,40) << ' '; order.clear(); all.push_back(l);
                 if (s.coin()) b.setIncumbent(l.begin(),l.end()); else { std::list<int> li(l.begin(),l.end()); b.setIncumbent(li.begin(),li.end()); }
                 REQUIRE((int)order.size() == nc,order.size() << " callbacks ran, " << nc << " are registered, after " << log.str());
                 for (int i = 0;i < nc;i++) REQUIRE(order[(std::size_t)i] == i,"callbacks ran out of order after " << log.str());
                 std::ostringstream os,want; os << b; want << l; REQUIRE(os.str().find("INC:" + want.str()) != std::string::npos,"the bounds print as " << os.str() << " after " << log.str()); break; }
      default: prim = s.range(-40,40) / 4.0; set = true; b.setPrimal(prim); log << "P=" << prim << ' ';
   }
   for (int i = 0;i < nc;i++) REQUIRE(got[(std::size_t)i] == std::vector<std::vector<int>>(all.begin() + (long)since[(std::size_t)i],all.end()),"callback " << i << " heard of other solutions after " << log.str());
   REQUIRE(b.hasPrimal() == set && (!set || b.getPrimal() == prim),"primal bound after " << log.str());
   c.nontrivial = nc >= 2 && all.size() >= 2; c.note(log.str()); c.print(pbt::hashStr(log.str()));
}
PBT_MAIN
