// E14 - lifetimes: every state object a diagram makes is destroyed by the time the diagram is reset or destroyed (exactly once), and
// compiling again and again in one diagram, or searching again and again, does not keep taking memory for the diagrams.
// Oracle: counting live state objects; live bytes of the allocator after the same history ran once and several times.
#include "engine.hpp"
using namespace eng;
static void check(Src& s,Case& c,MP m,Size z) {
   describe(c,*m); const std::string tail = " :: " + m->show();
   Quiet q;
   const unsigned w = drawWidth(s,z); c.print(w);
   Relaxed rl(w); Restricted rs(w); Exact ex;
   const int steps = s.range(1,6);
   bool merged = false; auto h = std::make_shared<Hooks>(); h->onMerge = [&](const TS&,const TS&,const TS&) { merged = true;};
   const long before = Live::n; long mid = 0;
   {
      auto base = makeDD(m,h);
      auto dd = base->duplicate();
      REQUIRE(Live::n == before,"creating diagrams leaves " << Live::n - before << " states alive" << tail);
      std::string log;
      for (int k = 0;k < steps;k++) {
         const unsigned kind = s.weighted({3,2,1}); Strategy* st = kind == 0 ? (Strategy*)&rl : kind == 1 ? (Strategy*)&rs : (Strategy*)&ex;
         dd->setStrategy(st); log += "rcx"[kind];
         Bounds b(dd);
         if (k == 0 || s.coin()) { // from the model's own root
            auto r2 = base->duplicate(); auto r = r2->init(); dd->apply(r,b); if (kind == 0) dd->computeCutSet();
         } else { dd->reset(); auto d2 = base->duplicate(); d2->setStrategy(st); Bounds b2(d2); d2->compute(b2); log += "(compute)"; }
         mid = std::max(mid,Live::n - before);
         if (s.coin()) { dd->reset(); REQUIRE(Live::n == before,"after " << log << " and a reset, " << Live::n - before << " states are still alive" << tail); log += "-"; }
      }
      if (s.coin()) { dd->reset(); REQUIRE(Live::n == before,"after " << log << " and a reset, " << Live::n - before << " states are still alive" << tail);
                      dd->reset(); REQUIRE(Live::n == before,"a second reset changed the number of live states by " << Live::n - before << tail); }
      c.note(" " + log); c.print(pbt::hashStr(log));
   }
   REQUIRE(Live::n == before,"after the diagrams were destroyed " << Live::n - before << " states are still alive" << tail);
   c.nontrivial = mid > 3; if (merged) c.label("merged");
}
#define R "more than three states were alive at once"
PROPERTY(states_tiny,R,6000,200000,800,10000,50) { check(s,c,genModel(s,sizeOpt(Tiny)),Tiny); }
PROPERTY(states_medium,R,5000,150000,600,8000,50) { check(s,c,genModel(s,sizeOpt(Medium)),Medium); }
PROPERTY(states_deep,R,5000,150000,600,8000,50) { check(s,c,genModel(s,sizeOpt(Deep)),Deep); }
PROPERTY(states_wide,R,160,4000,16,160,2) { check(s,c,genModel(s,sizeOpt(Wide)),Wide); }

#if !defined(PBT_SAN)
static std::size_t bytes() { auto i = mallinfo2(); return i.uordblks + i.hblkhd;}
static void memory(Src& s,Case& c,MP m,Size z) {
   describe(c,*m); const std::string tail = " :: " + m->show();
   Quiet q;
   const unsigned w = drawWidth(s,z); c.print(w); c.note(PBT_STR(" width=" << w));
   Relaxed rl(w); Restricted rs(w); Exact ex; long calls = 0; auto h = std::make_shared<Hooks>(); h->onExpand = [&](const TS&) { ++calls;};
   auto base = makeDD(m,h); auto dd = base->duplicate(); auto r2 = base->duplicate(); auto root = r2->init();
   std::vector<unsigned> hist; const int n = s.range(1,5); for (int i = 0;i < n;i++) hist.push_back(s.weighted({3,2,1}));
   auto play = [&]() {
      for (auto k : hist) {
         Bounds b(dd); dd->setStrategy(k == 0 ? (Strategy*)&rl : k == 1 ? (Strategy*)&rs : (Strategy*)&ex);
         dd->apply(root,b);
         if (k == 0) dd->computeCutSet();
      }
   };
   play(); play();
   const long per = calls / 2; const auto m1 = bytes();
   const int rep = z == Wide ? 6 : 40;
   for (int i = 0;i < rep;i++) play();
   const auto m2 = bytes();
   REQUIRE(m2 <= m1 + 16384,"repeating the same " << n << " compilations " << rep << " times more takes " << m2 - m1 << " bytes more (" << m1 << " after the second time)" << tail);
   c.nontrivial = per > 3;
}
#define RM "the history expanded more than three states"
PROPERTY(memory_tiny,RM,800,20000,0,0,10) { memory(s,c,genModel(s,sizeOpt(Tiny)),Tiny); }
PROPERTY(memory_deep,RM,800,20000,0,0,10) { memory(s,c,genModel(s,sizeOpt(Deep)),Deep); }
PROPERTY(memory_wide,RM,60,1200,0,0,2) { memory(s,c,genModel(s,sizeOpt(Wide)),Wide); }
#endif
PBT_MAIN
