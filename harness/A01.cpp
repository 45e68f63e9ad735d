// A01 - the shipped applications (examples/) solve their problems: on generated instance files, at any width, each program ends
// normally, each solution it reports is one, and the value it ends with is the optimum.  Oracle: brute force.
// (Programs left out, and what is not checked of some: known-findings.txt.)
// The programs are built by check.py from /repo/examples and found through $CODD_EXAMPLES.
#include "pbt.hpp"
using pbt::Src; using pbt::Case;
typedef std::vector<std::pair<int,int>> Edges;
struct Tighten { double val; std::vector<int> inc; };
struct Out { std::string text; std::optional<double> dual; std::vector<Tighten> tight; double done = 0; bool hasDone = false; };
static std::string path(const char* ext) { return pbt::gDir + "/in." + std::to_string(getpid()) + ext;}
static Out run(const std::string& prog,const std::vector<std::string>& args,const std::string& tail) {
   const char* dir = getenv("CODD_EXAMPLES"); if (!dir) FAIL("CODD_EXAMPLES is not set");
   const std::string bin = std::string(dir) + "/" + prog,of = path(".out");
   int fd = open(of.c_str(),O_RDWR|O_CREAT|O_TRUNC,0600); if (fd < 0) FAIL("no scratch file");
   pid_t p = fork();
   if (p == 0) {
      rlimit rl { 40,41 }; setrlimit(RLIMIT_CPU,&rl); rlimit fs { 32u<<20,32u<<20 }; setrlimit(RLIMIT_FSIZE,&fs);
      itimerval off {}; setitimer(ITIMER_REAL,&off,nullptr); setitimer(ITIMER_PROF,&off,nullptr); setitimer(ITIMER_VIRTUAL,&off,nullptr);
      int nul = open("/dev/null",O_RDONLY); dup2(nul,0); dup2(fd,1); dup2(fd,2);
      std::vector<char*> av; av.push_back((char*)bin.c_str()); for (auto& a : args) av.push_back((char*)a.c_str()); av.push_back(nullptr);
      execv(bin.c_str(),av.data()); _exit(127);
   }
   int st = 0; while (waitpid(p,&st,0) < 0 && errno == EINTR); 
   Out o; { std::ifstream f(of); std::stringstream ss; ss << f.rdbuf(); o.text = ss.str(); } close(fd); unlink(of.c_str());
   auto end = o.text.size() > 900 ? o.text.substr(o.text.size() - 900) : o.text;
   REQUIRE(!(WIFEXITED(st) && WEXITSTATUS(st) == 127),prog << " cannot be run");
   REQUIRE(!WIFSIGNALED(st),prog << " died of signal " << WTERMSIG(st) << tail << " ... " << end);
   REQUIRE(WEXITSTATUS(st) == 0,prog << " ended with " << WEXITSTATUS(st) << tail << " ... " << end);
   std::istringstream is(o.text); std::string l;
   while (std::getline(is,l)) {
      auto t = l.find("TIGHTEN: <P:");
      if (t != std::string::npos) {
         Tighten x; const char* q = l.c_str() + t + 12; char* e; x.val = strtod(q,&e);
         const char* b = strchr(e,'['); REQUIRE(b,prog << " printed '" << l << "'" << tail);
         ++b; while (true) { long v = strtol(b,&e,10); if (e == b) break; x.inc.push_back((int)v); b = e; }
         o.tight.push_back(x);
      }
      if (l.rfind("dual@root:",0) == 0) o.dual = atof(l.c_str() + 10);
      auto d = l.find("Done(");
      if (d != std::string::npos) { auto c = l.find("):",d); REQUIRE(c != std::string::npos && !o.hasDone,prog << " printed '" << l << "'" << tail); o.done = atof(l.c_str() + c + 2); o.hasDone = true; }
   }
   REQUIRE(o.hasDone,prog << " printed no summary" << tail << " ... " << end);
   const bool ownChecker = prog != "misp" && prog != "misp2" && prog != "misp3" && prog != "misp5";   // see the listed findings
   REQUIRE(!ownChecker || o.text.find("CHECKER is 0") == std::string::npos,prog << "'s own checker rejects a solution" << tail << " ... " << end);
   return o;
}
static std::string show(const std::vector<int>& v) { std::ostringstream o; o << "["; for (int x : v) o << x << " "; o << "]"; return o.str();}
// each reported solution is one, with the value shown, better than those before; the last value is the optimum
static void judge(const Out& o,const std::string& prog,bool minimize,double best,bool seeded,const std::string& tail,const std::function<bool(const std::vector<int>&,double&)>& eval) {
   double last = 0; bool first = true;
   if (o.dual) REQUIRE(std::abs(*o.dual) < 1e7 && (minimize ? *o.dual <= best : *o.dual >= best),prog << " starts from the bound " << *o.dual << ", the optimum is " << best << tail);
   for (auto& t : o.tight) {
      double v = 0;
      REQUIRE(eval(t.inc,v),prog << " reports " << show(t.inc) << ", not a solution" << tail);
      REQUIRE(v == t.val,prog << " reports " << show(t.inc) << " as " << t.val << ", it is worth " << v << tail);
      REQUIRE(first || (minimize ? t.val < last : t.val > last),prog << " reports " << t.val << " after " << last << tail);
      last = t.val; first = false;
   }
   REQUIRE(seeded || !first,prog << " reports no solution" << tail);
   REQUIRE(o.done == best,prog << " ends with " << o.done << ", the optimum is " << best << tail);
   if (!first) REQUIRE(last == best,prog << " last reported " << last << ", the optimum is " << best << tail);
}
static std::string width(Src& s) { static const int W[] = {1,2,3,4,5,8,16,32,64}; return std::to_string(W[s.draw(9)]);}
static Edges graph(Src& s,int& n,int mx,bool some) {
   n = s.range(some ? 2 : 1,mx); const int p = s.range(0,10); Edges e;
   for (int i = 0;i < n;i++) for (int j = i+1;j < n;j++) if (s.chance(p,10)) e.push_back({i,j});
   if (some && e.empty()) e.push_back({0,1});
   if (s.chance(1,3)) for (auto& x : e) if (s.coin()) std::swap(x.first,x.second);
   return e;
}
static std::string gstr(int n,const Edges& e) { std::ostringstream o; o << " n=" << n << " edges {"; for (auto& x : e) o << x.first << "-" << x.second << " "; o << "}"; return o.str();}
#define KEEP(file) struct Rm_ { std::string f; ~Rm_() { unlink(f.c_str()); } } rm_ { file }
PROPERTY(knapsack,"at least three items and not all of them fit",1800,24000,300,3000,10) {
   const int n = s.range(1,s.chance(1,4) ? 14 : 9); std::vector<int> p(n),w(n); int tot = 0;
   const bool corr = s.chance(1,3);
   for (int i = 0;i < n;i++) { w[i] = s.range(1,20); p[i] = corr ? w[i] + s.range(0,2) : s.range(1,25); tot += w[i]; }
   const int cap = s.range(1,tot + 3);
   const std::string f = path(".kp"); KEEP(f);
   { std::ofstream o(f); o << n << " " << cap << "\n"; for (int i = 0;i < n;i++) { o << p[i] << " " << w[i]; if (i < n-1 || s.coin()) o << "\n"; } }
   int best = 0;
   for (int m = 0;m < (1 << n);m++) { int a = 0,b = 0; for (int i = 0;i < n;i++) if (m >> i & 1) { a += p[i]; b += w[i]; } if (b <= cap) best = std::max(best,a); }
   const std::string wd = width(s),prog = "knapsack";
   std::ostringstream d; d << prog << " width " << wd << " capacity " << cap << " (profit,weight)"; for (int i = 0;i < n;i++) { d << " (" << p[i] << "," << w[i] << ")"; c.print(p[i]*100+w[i]); }
   c.print(cap); c.note(d.str()); c.label(prog); c.nontrivial = n >= 3 && cap < tot;
   const std::string tail = " :: " + d.str();
   auto o = run(prog,{f,wd},tail);
   judge(o,prog,false,best,false,tail,[&](const std::vector<int>& inc,double& v) { int b = 0; if ((int)inc.size() != n) return false;
      for (int i = 0;i < n;i++) { if (inc[i] < 0 || inc[i] > 1) return false; v += inc[i]*p[i]; b += inc[i]*w[i]; } return b <= cap; });
}
PROPERTY(independent_set,"at least four vertices and at least two edges",3000,40000,500,4000,10) {
   int n; const Edges e = graph(s,n,s.chance(1,4) ? 13 : 9,false);
   static const char* P[] = {"misp","misp2","misp3","misp4","misp5","misp4_lag"}; std::string prog = P[s.draw(6)]; const std::string wd = width(s);
#if defined(PBT_SAN)
   if (prog == "misp5") prog = "misp4";   // see the listed findings
#endif
   const std::string f = path(".clq"); KEEP(f);
   { std::ofstream o(f); if (s.coin()) o << "c a comment\n"; o << "p edge " << n << " " << e.size() << "\n"; for (auto& x : e) o << "e " << x.first+1 << " " << x.second+1 << "\n"; }
   std::vector<int> adj(n,0); for (auto& x : e) { adj[x.first] |= 1 << x.second; adj[x.second] |= 1 << x.first; }
   int best = 0; for (int m = 0;m < (1 << n);m++) { bool ok = true; for (int i = 0;i < n && ok;i++) if ((m >> i & 1) && (adj[i] & m)) ok = false; if (ok) best = std::max(best,__builtin_popcount(m)); }
   std::vector<std::string> args = {f,wd}; if (prog == "misp4_lag" && s.coin()) args.push_back(std::to_string(s.range(0,2)));
   const std::string d = prog + " width " + wd + (args.size() > 2 ? " bound " + args[2] : "") + gstr(n,e);
   c.print(pbt::hashStr(d)); c.note(d); c.label(prog); c.nontrivial = n >= 4 && e.size() >= 2;
   auto o = run(prog,args," :: " + d);
   judge(o,prog,false,best,false," :: " + d,[&](const std::vector<int>& inc,double& v) {
      int m = 0;
      if (prog == "misp") { for (int x : inc) { if (x < 0 || x > n || (x < n && (m >> x & 1))) return false; if (x < n) m |= 1 << x; } }
      else if (prog == "misp2") { int sel = (1 << n) - 1,at = -1;      // walks to the next vertex still eligible
         for (int x : inc) { int k = at + 1; while (k < n && !(sel >> k & 1)) k++; if (k >= n) return x == 0; if (x) { m |= 1 << k; sel &= ~(adj[k] | 1 << k); } else sel &= ~(1 << k); at = k; } }
      else if (prog == "misp3") { int sel = (1 << n) - 1,at = 0;
         for (int x : inc) { if (at >= n) return x == 0; if (x) { m |= 1 << at; sel &= ~adj[at]; } sel &= ~(1 << at); int k = at+1; while (k < n && !(sel >> k & 1)) k++; at = k; } }
      else { if ((int)inc.size() > n) return false; for (std::size_t i = 0;i < inc.size();i++) if (inc[i]) m |= 1 << i; }
      for (int i = 0;i < n;i++) if ((m >> i & 1) && (adj[i] & m)) return false;
      v = __builtin_popcount(m); return true; });
}
PROPERTY(colouring,"at least four vertices and a chromatic number of at least three",1800,24000,300,3000,10) {
   int n; const Edges e = graph(s,n,s.chance(1,4) ? 9 : 7,true);
   static const char* P[] = {"coloring","coloring2","coloring3"}; const std::string prog = P[s.draw(3)],wd = width(s);
   std::vector<std::vector<int>> adj(n); for (auto& x : e) { adj[x.first].push_back(x.second); adj[x.second].push_back(x.first); }
   int best = 1; std::vector<int> col(n,0);
   std::function<bool(int,int)> rec = [&](int v,int used) { if (v == n) return true;
      for (int k = 1;k <= std::min(best,used+1);k++) { bool ok = true; for (int u : adj[v]) if (u < v && col[u] == k) ok = false; if (!ok) continue; col[v] = k; if (rec(v+1,std::max(used,k))) return true; }
      return false; };
   while (!rec(0,0)) ++best;
   const bool ub = s.chance(1,3); const int K = std::min(n,best + s.range(0,2));
   const std::string f = path(".py"); KEEP(f);
   { std::ofstream o(f); o << "N = " << n << "\nE = {"; for (std::size_t i = 0;i < e.size();i++) o << (i ? ", " : "") << "(" << e[i].first << ", " << e[i].second << ")"; o << "}\n"; if (ub) o << "K = " << K << "\n"; }
   const std::string d = prog + " width " + wd + (ub ? " K " + std::to_string(K) : "") + gstr(n,e);
   c.print(pbt::hashStr(d)); c.note(d); c.label(prog); c.nontrivial = n >= 4 && best >= 3;
   auto o = run(prog,{f,wd}," :: " + d);
   judge(o,prog,true,best,false," :: " + d,[&](const std::vector<int>& inc,double& v) {
      if ((int)inc.size() != n) return false; for (auto& x : e) if (inc[x.first] == inc[x.second]) return false;
      v = *std::max_element(inc.begin(),inc.end()); return *std::min_element(inc.begin(),inc.end()) >= 1; });
}
PROPERTY(travelling_salesman,"at least five cities",2200,30000,400,4000,10) {
   const int n = s.range(3,s.chance(1,4) ? 8 : 6); const bool sym = s.chance(1,3); std::vector<std::vector<int>> d(n,std::vector<int>(n,0));
   const int mx = s.chance(1,4) ? 3 : 40;
   for (int i = 0;i < n;i++) for (int j = 0;j < n;j++) d[i][j] = i == j ? (s.chance(1,4) ? 9999 : 0) : s.range(0,mx);
   if (sym) for (int i = 0;i < n;i++) for (int j = 0;j < i;j++) d[i][j] = d[j][i];
   static const char* P[] = {"tsp","tsp_test3","tsp_test4","tsptw"}; const std::string prog = P[s.draw(4)],wd = width(s);
   const bool lower = prog == "tsp_test4" && sym;
   const std::string f = path(".tsp"); KEEP(f);
   { std::ofstream o(f);
     auto rows = [&](bool low) { for (int i = 0;i < n;i++) { for (int j = 0;j < (low ? i+1 : n);j++) o << " " << d[i][j]; o << "\n"; } };
     if (prog == "tsptw") { o << "# generated\n" << n << "\n"; rows(false); for (int i = 0;i < n;i++) o << "0 99999\n"; }
     else if (prog == "tsp_test4" || s.coin()) { o << "NAME:  x\nTYPE: ATSP\nCOMMENT: generated\nDIMENSION:  " << n << "\nEDGE_WEIGHT_TYPE: EXPLICIT\nEDGE_WEIGHT_FORMAT: " << (lower ? "LOWER_DIAG_ROW" : "FULL_MATRIX") << "\nEDGE_WEIGHT_SECTION\n"; rows(lower); o << "EOF\n"; }
     else { o << "NAME : x\nCOMMENT : generated\nTYPE : ATSP\nDIMENSION : " << n << "\nEDGE_WEIGHT_FORMAT : FULL_MATRIX\nEDGE_WEIGHT_SECTION\n"; rows(false); o << "EOF\n"; } }
   std::vector<int> perm(n-1); std::iota(perm.begin(),perm.end(),1); double best = 1e18;
   do { double v = d[0][perm[0]]; for (int i = 0;i+1 < n-1;i++) v += d[perm[i]][perm[i+1]]; v += d[perm[n-2]][0]; best = std::min(best,v); } while (std::next_permutation(perm.begin(),perm.end()));
   std::ostringstream t; t << prog << " width " << wd << " distances"; for (auto& r : d) { t << " ["; for (int x : r) t << x << " "; t << "]"; }
   c.print(pbt::hashStr(t.str())); c.note(t.str()); c.label(prog); c.nontrivial = n >= 5;
   auto o = run(prog,{f,wd}," :: " + t.str());
   const int start = prog == "tsp" ? 1 : 0;
   judge(o,prog,true,best,false," :: " + t.str(),[&](const std::vector<int>& inc,double& v) {
      if ((int)inc.size() != n) return false; int at = start,seen = 0;
      for (int x : inc) { if (x < 0 || x >= n || (seen >> x & 1)) return false; seen |= 1 << x; v += d[at][x]; at = x; }
      return at == start; });
}
PROPERTY(golomb,"at least four marks",90,600,24,80,2) {
   static const int G[] = {0,0,1,3,6,11,17,25}; const int n = s.range(2,s.chance(1,6) ? 7 : 6),L = G[n] + s.range(0,8);
   static const char* P[] = {"gruler","gruler_mid","gruler_midlb"}; const std::string prog = P[s.draw(3)],wd = width(s);
   std::ostringstream t; t << prog << " marks " << n << " length " << L << " width " << wd;
   c.print(pbt::hashStr(t.str())); c.note(t.str()); c.label(prog); c.nontrivial = n >= 4;
   auto o = run(prog,{std::to_string(n),std::to_string(L),wd}," :: " + t.str());
   judge(o,prog,true,G[n],false," :: " + t.str(),[&](const std::vector<int>& inc,double& v) {
      if ((int)inc.size() != n-1) return false; std::vector<int> m = {0}; for (int x : inc) { if (x <= m.back()) return false; m.push_back(x); }
      std::set<int> ds; for (int i = 0;i < n;i++) for (int j = 0;j < i;j++) if (!ds.insert(m[i]-m[j]).second) return false;
      v = m.back(); return true; });
}
// listed in known-findings.txt, tried in the sanitised build of the programs
static bool fails(const std::string& prog,const char* ext,const std::string& content,double best) {
   const std::string f = path(ext); KEEP(f); { std::ofstream o(f); o << content; }
   auto o = run(prog,{f,prog == "knapsack2" ? "2" : prog == "misp5" ? "1" : "4"},"");   // does not return when the program dies
   return o.done != best || (o.dual && std::abs(*o.dual) > 1e7);
}
static const char *M2 = "p edge 4 2\ne 1 2\ne 3 4\n",*T3 = "NAME : x\nCOMMENT : x\nTYPE : ATSP\nDIMENSION : 3\nEDGE_WEIGHT_FORMAT : FULL_MATRIX\nEDGE_WEIGHT_SECTION\n 0 1 1\n 1 0 1\n 1 1 0\nEOF\n";
KNOWN(k1,"knapsack2-array") { return fails("knapsack2",".kp","3 4\n5 3\n4 2\n3 2\n",7); }
KNOWN(k2,"knapsack2-greedy") { return fails("knapsack2",".kp","2 9\n5 3\n4 2",9); }
KNOWN(m1,"misp-checker") { return fails("misp",".clq","p edge 3 2\ne 1 2\ne 1 3\n",2); }
KNOWN(m2,"misp2-checker") { return fails("misp2",".clq",M2,2); }
KNOWN(m3,"misp3-checker") { return fails("misp3",".clq",M2,2); }
KNOWN(m5,"misp5-checker") { return fails("misp5",".clq","p edge 2 1\ne 1 2\n",1); }
KNOWN(t2,"tsp_test2-tree") { return fails("tsp_test2",".tsp",T3,3); }
KNOWN(t3,"tsp_test3-bound") { return fails("tsp_test3",".tsp","NAME : x\nCOMMENT : x\nTYPE : ATSP\nDIMENSION : 4\nEDGE_WEIGHT_FORMAT : FULL_MATRIX\nEDGE_WEIGHT_SECTION\n 0 3 3 3\n 3 0 3 3\n 3 3 0 3\n 3 3 3 0\nEOF\n",12); }
KNOWN(tw,"tsptw-bound") { return fails("tsptw",".tsp","# x\n4\n 0 3 3 3\n 3 0 3 3\n 3 3 0 3\n 3 3 3 0\n0 99999\n0 99999\n0 99999\n0 99999\n",12); }
PBT_MAIN
