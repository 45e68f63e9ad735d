// A virtual clock: while it is on, every clock the C library offers shows vclock::ns, which only the harness moves.  The code under
// test then runs in reproducible time, hours if need be, and its arithmetic on times can be checked exactly.
// Used by defining these functions in the executable (they take precedence over libc's, also for libstdc++).
#pragma once
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
namespace vclock {
   inline bool on = false;
   inline long long ns = 0;
   inline long reads = 0;   // how often the code under test looked at it: 0 = it uses a clock that is not covered
   struct On { On(long long at) { ns = at; reads = 0; on = true;} ~On() { on = false;} };
   inline void advance(long long d) { ns += d;}
   // pseudo-random steps, some of them nothing, below a millisecond, or many seconds long
   struct Steps {
      unsigned long long x;
      long long next() {
         x = x * 6364136223846793005ULL + 1442695040888963407ULL;
         const unsigned long long r = x >> 33;
         switch (r % 6) {
            case 0: return 0;
            case 1: return (long long)(r / 6 % 999999);
            case 2: return (long long)(r / 6 % 50) * 1000000;
            case 3: return (long long)(r / 6 % 4000) * 1000000 + 700000;
            case 4: return r / 6 % 8 ? 5001000000LL + (long long)(r / 6 % 3000) * 1000000 : (long long)(r / 48 % 900) * 3600000000000LL;  // up to five weeks
            default: return (long long)(r / 6 % 120) * 1000000000LL;
         }
      }
   };
}
extern "C" int clock_gettime(clockid_t id,struct timespec* ts) noexcept {
   if (vclock::on) { ++vclock::reads; ts->tv_sec = vclock::ns / 1000000000LL; ts->tv_nsec = vclock::ns % 1000000000LL; return 0; }
   return (int)syscall(SYS_clock_gettime,id,ts);
}
extern "C" int gettimeofday(struct timeval* __restrict tv,void* __restrict tz) noexcept {
   if (vclock::on) { ++vclock::reads; tv->tv_sec = vclock::ns / 1000000000LL; tv->tv_usec = vclock::ns % 1000000000LL / 1000; return 0; }
   return (int)syscall(SYS_gettimeofday,tv,tz);
}
