// pbt.hpp - a small property-based-testing runtime for /verif.
//
// A property is a function  void prop(Src& s, Case& c).  Every random decision is drawn
// from `s` and recorded on a *tape* of bounded integers; replaying a tape reproduces the case, and
// shrinking edits the tape (delete chunks, zero, halve, decrement) while the case keeps failing.
// Cases run in forked worker processes (crash, sanitizer report, runaway CPU are all observed from
// the parent).  The number of cases is fixed per tier; wall-clock never decides a verdict (a safety
// cap can only reduce how many cases are run, which evidence reports).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <iostream>
#include <sstream>
#include <fstream>
#include <chrono>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <poll.h>
#include <malloc.h>
#include <cmath>
#include <cassert>
#include <optional>
#include <limits>
#include <list>
#include <deque>
#include <memory>
#include <ranges>
#include <bit>
#include <iterator>
#include <numeric>
#include <iomanip>
#include <tuple>
#include <utility>

namespace pbt {

inline uint64_t mix(uint64_t x) {
   x += 0x9E3779B97F4A7C15ull;
   x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
   x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
   return x ^ (x >> 31);
}
inline uint64_t hashStr(const std::string& s,uint64_t h = 1469598103934665603ull) {
   for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
   return mix(h);
}

constexpr std::size_t TAPE_MAX = 1 << 19;
struct Shm {                       // one per worker slot, shared with the parent
   volatile uint64_t caseIdx;      // case being run
   volatile uint32_t tapeLen;
   volatile uint32_t failed;       // 1 when msg holds an oracle failure
   char msg[1 << 16];
   uint32_t tape[TAPE_MAX];
};
inline Shm* gShm = nullptr;        // current process' slot

class Src {
   uint64_t _st;
   bool     _replay;
   const std::vector<uint32_t>* _in;
   std::size_t _pos;
public:
   explicit Src(uint64_t seed) : _st(seed),_replay(false),_in(nullptr),_pos(0) { gShm->tapeLen = 0;}
   explicit Src(const std::vector<uint32_t>& t) : _st(0),_replay(true),_in(&t),_pos(0) { gShm->tapeLen = 0;}
   uint32_t draw(uint32_t n) {     // uniform in [0,n)
      if (n <= 1) return 0;        // no decision, nothing recorded
      uint32_t v;
      if (_replay) {
         v = _pos < _in->size() ? (*_in)[_pos] : 0;
         ++_pos;
         if (v >= n) v %= n;
      } else {
         _st += 0x9E3779B97F4A7C15ull;
         uint64_t z = _st;
         z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
         z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
         z ^= z >> 31;
         v = (uint32_t)(((z >> 32) * (uint64_t)n) >> 32);
      }
      if (gShm->tapeLen < TAPE_MAX) { gShm->tape[gShm->tapeLen] = v; gShm->tapeLen = gShm->tapeLen + 1;}
      return v;
   }
   // inclusive range; the simplest value is lo
   int range(int lo,int hi) { return lo + (int)draw((uint32_t)(hi - lo + 1));}
   // true with probability num/den; `false` is the simplest
   bool chance(unsigned num,unsigned den) { return draw(den) >= den - num;}
   bool coin() { return draw(2) == 1;}
   template <class T> const T& pick(const std::vector<T>& v) { return v[draw((uint32_t)v.size())];}
   // index according to weights; index 0 is the simplest
   unsigned weighted(std::initializer_list<unsigned> w) {
      unsigned ttl = 0; for (auto x : w) ttl += x;
      unsigned d = draw(ttl), i = 0;
      for (auto x : w) { if (d < x) return i; d -= x; ++i; }
      return 0;
   }
};

// bulk data of a large case, derived from one recorded draw (such cases shrink by their parameters)
class Rng {
   uint64_t _s;
public:
   explicit Rng(uint64_t s) : _s(mix(s ^ 0x5151)) {}
   uint32_t below(uint32_t n) { _s = mix(_s); return n ? (uint32_t)(((_s >> 32) * (uint64_t)n) >> 32) : 0;}
};

struct Case {
   bool nontrivial = false;
   uint64_t fp = 1469598103934665603ull;   // fingerprint of the generated case
   std::string desc;                       // human readable sample
   std::map<std::string,uint64_t>* labels;
   bool verbose = false;
   void label(const std::string& s,uint64_t n = 1) { (*labels)[s] += n;}
   void print(uint64_t x) { fp = mix(fp ^ x);}
   void note(const std::string& s) { if (desc.size() < 4000) desc += s;}
};

[[noreturn]] inline void failNow(const std::string& m) {
   std::size_t n = std::min(m.size(),sizeof(gShm->msg) - 1);
   memcpy(gShm->msg,m.data(),n);
   gShm->msg[n] = 0;
   gShm->failed = 1;
   _exit(10);
}
#define PBT_STR(...) ([&]() { std::ostringstream _o; _o << __VA_ARGS__; return _o.str();}())
#define FAIL(...) pbt::failNow(PBT_STR(__VA_ARGS__))
#define REQUIRE(cond,...) do { if (!(cond)) pbt::failNow(PBT_STR(__VA_ARGS__)); } while(0)

typedef void (*PropFn)(Src&,Case&);
struct Prop {
   std::string name;
   PropFn fn;
   unsigned quick,thorough,sanQuick,sanThorough; // number of cases per tier/variant
   unsigned block;                               // cases run per worker process
   std::string rule;
};
inline std::vector<Prop>& registry() { static std::vector<Prop> r; return r;}
struct Reg { Reg(Prop p) { registry().push_back(p);} };
#define PROPERTY(NAME,RULE,QUICK,THOROUGH,SQ,ST,BLOCK)                                              \
   static void NAME(pbt::Src&,pbt::Case&);                                                         \
   static pbt::Reg reg_##NAME(pbt::Prop{#NAME,NAME,QUICK,THOROUGH,SQ,ST,BLOCK,RULE});               \
   static void NAME(pbt::Src& s,pbt::Case& c)

// a listed finding: a fixed input the code is known to get wrong; returns true when it still does
struct KnownF { std::string name; bool (*fn)(); };
inline std::vector<KnownF>& knowns() { static std::vector<KnownF> r; return r;}
struct RegKnown { RegKnown(KnownF k) { knowns().push_back(k);} };
#define KNOWN(NAME,ID) static bool NAME(); static pbt::RegKnown regk_##NAME(pbt::KnownF{ID,NAME}); static bool NAME()

inline int gCpuLimit = 20;   // seconds of CPU per case before it is called a runaway
inline void onProf(int) {
   const char* m = "runaway: the case used more than its CPU allowance";
   strcpy(gShm->msg,m);
   gShm->failed = 2;
   _exit(12);
}
inline void armCpu() {
   struct itimerval it; memset(&it,0,sizeof it);
   it.it_value.tv_sec = gCpuLimit;
   setitimer(ITIMER_PROF,&it,nullptr);
}
inline void childInit(const std::string& errFile) {
   int dn = open("/dev/null",O_RDWR);
   dup2(dn,0); dup2(dn,1);
   int ef = open(errFile.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0600);
   if (ef >= 0) dup2(ef,2); else dup2(dn,2);
   signal(SIGPROF,onProf);
#if !defined(PBT_SAN)
   mallopt(M_MMAP_THRESHOLD,1 << 30);   // keep freed blocks: avoids page faults on every case
   mallopt(M_TRIM_THRESHOLD,1 << 30);
   struct rlimit rl{3ull << 30,3ull << 30};
   setrlimit(RLIMIT_AS,&rl);
#endif
   struct rlimit rc{0,0};
   setrlimit(RLIMIT_CORE,&rc);
}

struct Outcome { bool ok; bool timeout; std::string msg; std::vector<uint32_t> tape; uint64_t idx; };

struct Agg {
   uint64_t evals = 0;
   std::map<std::string,std::unordered_set<uint64_t>> fps; // per property
   std::map<std::string,uint64_t> nontriv;
   std::map<std::string,uint64_t> labels;
   std::map<std::string,std::vector<std::string>> samples;
};

inline std::string gDir;   // scratch
inline std::string slurp(const std::string& f,std::size_t mx = 3000) {
   std::ifstream in(f); std::stringstream ss; ss << in.rdbuf();
   auto s = ss.str();
   if (s.size() > mx) s.resize(mx);
   return s;
}
inline std::string describeStatus(int st,Shm* shm,const std::string& err) {
   if (shm->failed) return std::string(const_cast<const char*>(shm->msg));
   std::string r = WIFSIGNALED(st) ? ("crash: signal " + std::to_string(WTERMSIG(st))) : ("abnormal exit status " + std::to_string(WEXITSTATUS(st)));
   auto e = slurp(err);
   if (!e.empty()) r += "\n" + e;
   return r;
}

inline uint64_t caseSeed(uint64_t seed,const std::string& prop,uint64_t idx) {
   return mix(mix(seed ^ hashStr(prop)) + idx * 0xD1342543DE82EF95ull);
}

// run cases [a,b) of p in this (child) process, report through fd
inline void runBlock(const Prop& p,uint64_t seed,uint64_t a,uint64_t b,int fd) {
   std::map<std::string,uint64_t> labels;
   std::vector<uint64_t> fps;
   std::vector<std::string> samples;
   uint64_t nt = 0;
   for (uint64_t i = a;i < b;i++) {
      gShm->caseIdx = i; gShm->failed = 0;
      armCpu();
      Src s(caseSeed(seed,p.name,i));
      Case c; c.labels = &labels;
      p.fn(s,c);
      if (c.nontrivial) {
         ++nt; fps.push_back(c.fp);
         if (samples.empty() && !c.desc.empty()) samples.push_back("#" + std::to_string(i) + " " + c.desc);
      }
   }
   struct itimerval z; memset(&z,0,sizeof z); setitimer(ITIMER_PROF,&z,nullptr);
   std::ostringstream o;
   o << "N " << (b - a) << ' ' << nt << '\n';
   for (auto f : fps) o << "F " << f << '\n';
   for (auto& [k,v] : labels) o << "L " << v << ' ' << k << '\n';
   for (auto& s : samples) { std::string t = s; for (auto& ch : t) if (ch == '\n') ch = ' '; o << "S " << t << '\n'; }
   auto str = o.str();
   std::size_t off = 0;
   while (off < str.size()) {
      auto w = write(fd,str.data() + off,str.size() - off);
      if (w <= 0) break;
      off += (std::size_t)w;
   }
   close(fd);
   _exit(0);
}

// one case from a tape in a forked child
inline Outcome runTape(const Prop& p,const std::vector<uint32_t>& tape,Shm* shm,std::string* desc = nullptr,bool verbose = false) {
   Outcome r; r.idx = 0; r.timeout = false;
   shm->failed = 0; shm->tapeLen = 0;
   auto err = gDir + "/err.replay";
   int pfd[2]; if (pipe(pfd)) abort();
   pid_t pid = fork();
   if (pid == 0) {
      close(pfd[0]);
      if (!verbose) childInit(err); else { signal(SIGPROF,onProf); }
      gShm = shm;
      armCpu();
      std::map<std::string,uint64_t> labels;
      Src s(tape);
      Case c; c.labels = &labels; c.verbose = verbose;
      p.fn(s,c);
      (void)!write(pfd[1],c.desc.data(),c.desc.size());
      _exit(0);
   }
   close(pfd[1]);
   std::string d; char buf[4096]; ssize_t n;
   while ((n = read(pfd[0],buf,sizeof buf)) > 0) d.append(buf,(std::size_t)n);
   close(pfd[0]);
   int st = 0; waitpid(pid,&st,0);
   r.ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
   r.timeout = WIFEXITED(st) && WEXITSTATUS(st) == 12;
   r.tape.assign(shm->tape,shm->tape + shm->tapeLen);
   if (!r.ok) r.msg = describeStatus(st,shm,err);
   if (desc) *desc = d;
   return r;
}
// rerun a block [a,i] in a fresh child: true when it still fails
inline bool blockStillFails(const Prop& p,uint64_t seed,uint64_t a,uint64_t i,Shm* shm,std::string& msg) {
   shm->failed = 0;
   auto err = gDir + "/err.block";
   pid_t pid = fork();
   if (pid == 0) {
      childInit(err);
      gShm = shm;
      int dn = open("/dev/null",O_WRONLY);
      runBlock(p,seed,a,i + 1,dn);
   }
   int st = 0; waitpid(pid,&st,0);
   bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
   if (bad) msg = describeStatus(st,shm,err);
   return bad;
}

inline double nowS() {
   return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

inline std::vector<uint32_t> shrink(const Prop& p,std::vector<uint32_t> best,bool wasTimeout,Shm* shm,double budget) {
   const double t0 = nowS();
   int tries = 0;
   auto attempt = [&](const std::vector<uint32_t>& cand) {
      if (cand == best) return false;
      ++tries;
      auto r = runTape(p,cand,shm);
      if (!r.ok && (wasTimeout || !r.timeout)) {
         auto t = r.tape;
         if (t.size() > cand.size()) t.resize(std::max(cand.size(),(std::size_t)0));
         while (!t.empty() && t.back() == 0) t.pop_back();
         bool better = t.size() < best.size() || (t.size() == best.size() && t < best);
         if (better) { best = t; return true; }
      }
      return false;
   };
   auto out = [&]() { return nowS() - t0 > budget || tries > 4000;};
   bool changed = true;
   while (changed && !out()) {
      changed = false;
      for (std::size_t len = std::max<std::size_t>(best.size() / 2,1);len >= 1 && !out();len /= 2) {
         for (std::size_t i = 0;i + len <= best.size() && !out();) {
            auto c = best;
            c.erase(c.begin() + (long)i,c.begin() + (long)(i + len));
            if (attempt(c)) changed = true; else i += len;
         }
         if (len == 1) break;
      }
      for (std::size_t len = std::max<std::size_t>(best.size() / 4,1);len >= 1 && !out();len /= 2) {
         for (std::size_t i = 0;i + len <= best.size() && !out();i += len) {
            auto c = best;
            for (std::size_t k = i;k < i + len;k++) c[k] = 0;
            if (attempt(c)) changed = true;
         }
         if (len == 1) break;
      }
      for (std::size_t i = 0;i < best.size() && !out();i++) {
         for (int k = 0;k < 2 && i < best.size() && best[i] > 1;k++) {
            auto c = best; c[i] /= 2;
            if (!attempt(c)) break; else changed = true;
         }
         if (i < best.size() && best[i] > 0) { auto c = best; c[i] -= 1; if (attempt(c)) changed = true; }
      }
   }
   return best;
}

inline std::string clip(const std::string& s,std::size_t mx = 1800) { return s.size() <= mx ? s : s.substr(0,mx) + " ...";}
inline std::string jsonEsc(const std::string& s) {
   std::string o;
   for (unsigned char ch : s) {
      if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
      else if (ch == '\n') o += "\\n";
      else if (ch < 32 || ch > 126) { char b[8]; snprintf(b,sizeof b,"\\u%04x",ch); o += b; }
      else o += (char)ch;
   }
   return o;
}

// usage: harness --seed N --tier quick|thorough --dir SCRATCH --out RESULT.json --replay-out FILE [--jobs N] [--cap S]
//        harness --replay FILE --dir SCRATCH
//        harness --only PROP ...
inline int pbtMain(int argc,char* argv[]) {
   std::map<std::string,std::string> opt;
   for (int i = 1;i + 1 < argc;i += 2) opt[argv[i]] = argv[i + 1];
   uint64_t seed = opt.count("--seed") ? strtoull(opt["--seed"].c_str(),nullptr,10) : 1;
   const bool thorough = opt["--tier"] == "thorough";
   gDir = opt.count("--dir") ? opt["--dir"] : "/tmp";
   const unsigned jobs = opt.count("--jobs") ? (unsigned)atoi(opt["--jobs"].c_str()) : 8;
   const double cap = opt.count("--cap") ? atof(opt["--cap"].c_str()) : 1e9;
   const double mult = opt.count("--mult") ? atof(opt["--mult"].c_str()) : 1.0;
#if defined(PBT_SAN)
   const bool san = true;
   gCpuLimit = 60;
#else
   const bool san = false;
#endif
   if (opt.count("--cpu")) gCpuLimit = atoi(opt["--cpu"].c_str());
   auto mkShm = []() {
      void* p = mmap(nullptr,sizeof(Shm),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
      if (p == MAP_FAILED) { perror("mmap"); exit(3); }
      return (Shm*)p;
   };
   gShm = mkShm();
   Shm* rshm = gShm;

   if (opt.count("--known")) {
      for (auto& k : knowns()) {
         pid_t pid = fork();
         if (pid == 0) { childInit(gDir + "/err.known"); armCpu(); _exit(k.fn() ? 7 : 0); }
         int st = 0; waitpid(pid,&st,0);
         std::cout << (WIFEXITED(st) && WEXITSTATUS(st) == 0 ? "gone " : "STILL ") << k.name << std::endl;
      }
      return 0;
   }
   if (opt.count("--replay")) {
      std::ifstream in(opt["--replay"]);
      std::string line,prop; std::vector<uint32_t> tape; uint64_t bs = 0,ba = 0,bi = 0; bool isBlock = false;
      while (std::getline(in,line)) {
         std::istringstream is(line); std::string k; is >> k;
         if (k == "prop") is >> prop;
         else if (k == "tape") { uint32_t v; while (is >> v) tape.push_back(v); }
         else if (k == "block") { isBlock = true; is >> bs >> ba >> bi; }
      }
      for (auto& p : registry()) if (p.name == prop) {
         if (isBlock) {
            std::string m;
            bool bad = blockStillFails(p,bs,ba,bi,rshm,m);
            std::cout << (bad ? "REPRODUCED " : "not reproduced ") << m << std::endl;
            return bad ? 1 : 0;
         }
         std::string d;
         auto r = runTape(p,tape,rshm,&d,opt.count("--verbose"));
         std::cout << (r.ok ? "not reproduced " : "REPRODUCED ") << clip(r.ok ? d : r.msg,6000) << std::endl;
         return r.ok ? 0 : 1;
      }
      std::cerr << "no such property in this harness: " << prop << std::endl;
      return 3;
   }

   Agg agg;
   const double t0 = nowS();
   struct Job { std::size_t p; uint64_t a,b; };
   std::vector<Job> jobsV;
   {  // interleave the properties so a cap cuts all of them evenly
      std::vector<std::vector<Job>> per;
      for (std::size_t k = 0;k < registry().size();k++) {
         auto& p = registry()[k];
         if (opt.count("--only") && opt["--only"] != p.name) continue;
         uint64_t n = thorough ? (san ? p.sanThorough : p.thorough) : (san ? p.sanQuick : p.quick);
         n = (uint64_t)(n * mult);
         std::vector<Job> v;
         for (uint64_t a = 0;a < n;a += p.block) v.push_back({k,a,std::min<uint64_t>(n,a + p.block)});
         per.push_back(v);
      }
      std::vector<std::pair<double,Job>> all;
      for (auto& v : per) for (std::size_t i = 0;i < v.size();i++) all.push_back({(double)i / (double)v.size(),v[i]});
      std::stable_sort(all.begin(),all.end(),[](auto& x,auto& y) { return x.first < y.first;});
      for (auto& x : all) jobsV.push_back(x.second);
   }
   struct Worker { pid_t pid = -1; int fd = -1; Job job; Shm* shm; std::string buf,err; };
   std::vector<Worker> ws(jobs);
   for (unsigned i = 0;i < jobs;i++) { ws[i].shm = mkShm(); ws[i].err = gDir + "/err." + std::to_string(i); }
   struct Failure { Job job; uint64_t idx; std::vector<uint32_t> tape; std::string msg; bool timeout; };
   std::vector<Failure> fails;
   std::size_t next = 0; uint64_t skipped = 0;
   auto absorb = [&](const Prop& p,const std::string& buf) {
      std::istringstream is(buf); std::string line;
      while (std::getline(is,line)) {
         if (line.size() < 2) continue;
         std::istringstream ls(line.substr(2));
         if (line[0] == 'N') { uint64_t n,nt; ls >> n >> nt; agg.evals += n; agg.nontriv[p.name] += nt; }
         else if (line[0] == 'F') { uint64_t f; ls >> f; agg.fps[p.name].insert(f); }
         else if (line[0] == 'L') { uint64_t n; ls >> n; std::string k; std::getline(ls,k); agg.labels[p.name + ":" + k.substr(1)] += n; }
         else if (line[0] == 'S') { auto& v = agg.samples[p.name]; if (v.size() < 3) v.push_back(line.substr(2)); }
      }
   };
   while (true) {
      unsigned busy = 0;
      for (auto& w : ws) {
         if (w.pid < 0 && next < jobsV.size() && fails.empty()) {
            if (nowS() - t0 > cap) { for (;next < jobsV.size();next++) skipped += jobsV[next].b - jobsV[next].a; continue; }
            w.job = jobsV[next++];
            int pfd[2]; if (pipe(pfd)) { perror("pipe"); return 3; }
            w.shm->failed = 0; w.buf.clear();
            fflush(nullptr);
            w.pid = fork();
            if (w.pid == 0) {
               close(pfd[0]);
               for (auto& o : ws) if (o.fd >= 0) close(o.fd);
               childInit(w.err);
               gShm = w.shm;
               runBlock(registry()[w.job.p],seed,w.job.a,w.job.b,pfd[1]);
            }
            if (w.pid < 0) { perror("fork"); return 3; }
            close(pfd[1]);
            w.fd = pfd[0];
         }
         busy += w.pid >= 0;
      }
      if (!busy) break;
      std::vector<struct pollfd> pf; std::vector<Worker*> pw;
      for (auto& w : ws) if (w.fd >= 0) { pf.push_back({w.fd,POLLIN,0}); pw.push_back(&w); }
      poll(pf.data(),pf.size(),1000);
      for (std::size_t i = 0;i < pf.size();i++) {
         if (!(pf[i].revents & (POLLIN|POLLHUP|POLLERR))) continue;
         char buf[65536];
         auto n = read(pf[i].fd,buf,sizeof buf);
         if (n > 0) { pw[i]->buf.append(buf,(std::size_t)n); continue; }
         auto& w = *pw[i];
         close(w.fd); w.fd = -1;
         int st = 0; waitpid(w.pid,&st,0); w.pid = -1;
         auto& p = registry()[w.job.p];
         if (WIFEXITED(st) && WEXITSTATUS(st) == 0) absorb(p,w.buf);
         else {
            Failure f; f.job = w.job; f.idx = w.shm->caseIdx;
            f.tape.assign(w.shm->tape,w.shm->tape + w.shm->tapeLen);
            f.msg = describeStatus(st,w.shm,w.err);
            f.timeout = WIFEXITED(st) && WEXITSTATUS(st) == 12;
            fails.push_back(f);
            agg.evals += f.idx - f.job.a + 1;
         }
      }
   }
   // ---- failures: confirm, shrink, write the replay file
   int rc = 0; std::string verdictMsg,flake;
   std::sort(fails.begin(),fails.end(),[](auto& a,auto& b) { return a.timeout < b.timeout;});
   for (auto& f : fails) {
      if (rc) break;
      auto& p = registry()[f.job.p];
      int again = 0; Outcome last;
      for (int k = 0;k < 2;k++) { last = runTape(p,f.tape,rshm); again += !last.ok; }
      std::ostringstream rep;
      rep << "# replay file: the drawn choices of one failing case (see /verif/README.md)\n";
      rep << "prop " << p.name << "\n";
      if (again == 2) {
         auto small = shrink(p,f.tape,last.timeout,rshm,f.timeout ? 60 : 30);
         std::string d;
         auto r = runTape(p,small,rshm,&d);
         if (r.ok) { small = f.tape; r = runTape(p,small,rshm,&d); }
         rep << "tape"; for (auto v : small) rep << ' ' << v; rep << "\n";
         verdictMsg = r.msg;
         std::istringstream ms(clip(r.msg,6000)); std::string l;
         while (std::getline(ms,l)) rep << "# " << l << "\n";
         rc = 1;
      } else {
         std::string m;
         if (blockStillFails(p,seed,f.job.a,f.idx,rshm,m) && blockStillFails(p,seed,f.job.a,f.idx,rshm,m)) {
            rep << "block " << seed << ' ' << f.job.a << ' ' << f.idx << "\n# " << m << "\n";
            verdictMsg = m; rc = 1;
         } else flake += p.name + "#" + std::to_string(f.idx) + " (" + f.msg.substr(0,300) + ") not reproduced; ";
      }
      if (rc && opt.count("--replay-out")) { std::ofstream o(opt["--replay-out"]); o << rep.str(); }
   }
   std::ostringstream js;
   uint64_t dist = 0,nt = 0;
   for (auto& [k,v] : agg.fps) dist += v.size();
   for (auto& [k,v] : agg.nontriv) nt += v;
   js << "{\"evaluations\":" << agg.evals << ",\"nontrivial\":" << nt << ",\"distinct_nontrivial\":" << dist
      << ",\"skipped_by_cap\":" << skipped << ",\"wall_s\":" << (nowS() - t0)
      << ",\"rc\":" << rc << ",\"message\":\"" << jsonEsc(clip(verdictMsg)) << "\",\"flake\":\"" << jsonEsc(flake) << "\",\"rules\":{";
   bool first = true;
   for (auto& p : registry()) { js << (first ? "" : ",") << "\"" << p.name << "\":\"" << jsonEsc(p.rule) << "\""; first = false; }
   js << "},\"labels\":{"; first = true;
   for (auto& [k,v] : agg.labels) { js << (first ? "" : ",") << "\"" << jsonEsc(k) << "\":" << v; first = false; }
   js << "},\"per_property\":{"; first = true;
   for (auto& p : registry()) { js << (first ? "" : ",") << "\"" << p.name << "\":{\"nontrivial\":" << agg.nontriv[p.name] << ",\"distinct\":" << agg.fps[p.name].size() << "}"; first = false; }
   js << "},\"samples\":["; first = true;
   for (auto& [k,v] : agg.samples) for (auto& s : v) { js << (first ? "" : ",") << "\"" << jsonEsc(k + ": " + s) << "\""; first = false; }
   js << "]}";
   if (opt.count("--out")) { std::ofstream o(opt["--out"]); o << js.str() << "\n"; }
   else std::cout << js.str() << std::endl;
   if (rc) std::cout << "FAILED " << clip(verdictMsg) << std::endl;
   if (!flake.empty()) std::cout << "UNREPRODUCED " << clip(flake) << std::endl;
   return rc;
}
} // namespace pbt

#define PBT_MAIN int main(int argc,char* argv[]) { return pbt::pbtMain(argc,argv);}
