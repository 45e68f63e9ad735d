// D15 - handle_ptr and strict_ptr behave as the raw pointers they stand for: conversion to a base (at whatever offset), assignment,
// comparison, null tests, access, free.  Oracle: a parallel array of raw pointers, and objects that know whether they are alive.
#include "pbt.hpp"
#include "handle.hpp"
using namespace pbt;
static int alive = 0;
struct A { long a; A(long x) : a(x) { ++alive;} virtual ~A() { --alive; a = -1;} virtual long who() const { return a * 3;} };
struct B { long pad,b; B(long x) : pad(7),b(x) {} virtual ~B() { b = -1;} virtual long sec() const { return b * 5;} };
struct D : A,B { D(long x) : A(x),B(x + 1) {} long who() const override { return a * 3 + 1;} long sec() const override { return b * 5 + 1;} };
template <template <class> class H,bool UP> static void run(Src& s,Case& c,const char* nm) {
   alive = 0; std::vector<std::unique_ptr<D>> ds; std::vector<std::unique_ptr<A>> as; const int nd = s.range(1,4),na = s.range(1,3);
   for (int i = 0;i < nd;i++) ds.push_back(std::make_unique<D>(100 + i)); for (int i = 0;i < na;i++) as.push_back(std::make_unique<A>(200 + i));
   const int N = 4; H<A> ha[N]; H<B> hb[N]; H<D> hd[N]; A* ra[N] {}; B* rb[N] {}; D* rd[N] {};
   std::ostringstream log; log << nm << ' '; bool conv = false,nul = false; const int ops = s.range(1,40);
   for (int o = 0;o < ops;o++) {
      const int i = s.range(0,N - 1),j = s.range(0,N - 1);
      switch (s.range(0,11)) {
         case 0: { D* p = ds[s.draw((uint32_t)ds.size())].get(); hd[i] = p; rd[i] = p; log << "d" << i << "=new "; break; }
         case 1: { A* p = s.coin() ? as[s.draw((uint32_t)as.size())].get() : (A*)ds[s.draw((uint32_t)ds.size())].get(); ha[i] = p; ra[i] = p; log << "a" << i << "=raw "; break; }
         case 2: ha[i] = ha[j]; ra[i] = ra[j]; log << "a" << i << "=a" << j << ' '; break;
         case 3: if constexpr (UP) hb[i] = hd[j]; else hb[i] = (B*)rd[j]; rb[i] = rd[j]; conv |= rd[j] != nullptr; log << "b" << i << "=d" << j << ' '; break;
         case 4: if constexpr (UP) ha[i] = hd[j]; else ha[i] = (A*)hd[j].get(); ra[i] = rd[j]; log << "a" << i << "=d" << j << ' '; break;
         case 5: { H<B> t = [&]() { H<D> k(hd[j]); if constexpr (UP) return H<B>(std::move(k)); else return H<B>((B*)hd[j].get());}(); hb[i] = std::move(t); rb[i] = rd[j]; conv |= rd[j] != nullptr; log << "b" << i << "=move(d" << j << ") "; break; }
         case 6: ha[i] = nullptr; ra[i] = nullptr; nul = true; log << "a" << i << "=null "; break;
         case 7: { H<D> t(nullptr); hd[i] = t; rd[i] = nullptr; nul = true; log << "d" << i << "=null "; break; }
         case 8: { H<D> t(hd[j]); H<D> u(std::move(t)); const bool mv = s.coin(); H<B> v = [&]() { if constexpr (UP) return mv ? H<B>(std::move(u)) : H<B>(u); else return H<B>((B*)u.get());}(); hb[i] = v; rb[i] = rd[j]; log << "b" << i << "=b(d" << j << ") "; break; }
         case 9: { H<A> t((A*)rd[j]); if constexpr (UP) { H<B> q(rd[j]); REQUIRE(q.get() == (B*)rd[j],"a handle made of a derived pointer points elsewhere after " << log.str()); } ha[i] = t; ra[i] = rd[j]; log << "a" << i << "=a(raw d" << j << ") "; break; }
         case 10: { const int was = alive; H<A> t(s.coin() ? (A*)new D(9) : new A(9)); REQUIRE(alive == was + 1,"harness"); if (s.coin()) t.free(); else t.dealloc();
                    REQUIRE(alive == was,"free() did not destroy the object after " << log.str()); REQUIRE(!t,"a freed handle is not null after " << log.str()); t.free(); REQUIRE(alive == was,"freeing a null handle destroyed something after " << log.str()); log << "free "; } break;
         default: { H<D> t; REQUIRE(!t,"a default handle is not null"); std::swap(hd[i],hd[j]); std::swap(rd[i],rd[j]); log << "swap(d" << i << ",d" << j << ") "; break; }
      }
      for (int k = 0;k < N;k++) {
         REQUIRE(ha[k].get() == ra[k] && hb[k].get() == rb[k] && hd[k].get() == rd[k],"handle " << k << " points elsewhere after " << log.str());
         REQUIRE((bool)ha[k] == (ra[k] != nullptr) && (bool)hb[k] == (rb[k] != nullptr) && (bool)hd[k] == (rd[k] != nullptr),"the null test of handle " << k << " is wrong after " << log.str());
         if (ra[k]) REQUIRE(ha[k]->a == ra[k]->a && (*ha[k]).who() == ra[k]->who() && &*ha[k] == ra[k],"access through handle a" << k << " differs after " << log.str());
         if (rb[k]) REQUIRE(hb[k]->b == rb[k]->b && (*hb[k]).sec() == rb[k]->sec(),"access through handle b" << k << " differs after " << log.str());
         if (rd[k]) REQUIRE(hd[k]->sec() == rd[k]->sec() && hd[k]->who() == rd[k]->who(),"access through handle d" << k << " differs after " << log.str());
         for (int l = 0;l < N;l++) {
            REQUIRE((ha[k] == ha[l]) == (ra[k] == ra[l]),"a" << k << "==a" << l << " is wrong after " << log.str());
            REQUIRE((hb[k] == hb[l]) == (rb[k] == rb[l]) && (hb[k] != hb[l]) == (rb[k] != rb[l]),"b" << k << "==b" << l << " is wrong after " << log.str());
            REQUIRE((hd[k] == hd[l]) == (rd[k] == rd[l]),"d" << k << "==d" << l << " is wrong after " << log.str());
         }
         REQUIRE((ha[k] == nullptr) == (ra[k] == nullptr),"a" << k << "==nullptr is wrong after " << log.str());
      }
   }
   c.nontrivial = conv && nul && ops >= 6; c.note(log.str()); c.print(hashStr(log.str()));
}
PROPERTY(handle,"a non-null handle was converted to the second base, one was set to null, six or more steps",150000,3000000,20000,200000,1000) { run<handle_ptr,true>(s,c,"handle_ptr");}
PROPERTY(strict,"a non-null handle was converted to the second base, one was set to null, six or more steps",100000,2000000,10000,150000,1000) { run<strict_ptr,false>(s,c,"strict_ptr");}
PBT_MAIN
