// D13 - the graph shown to the user is the diagram: every node once, coloured by exactness, the sink boxed, every arc with its cost and
// label between the right nodes; an exact diagram shows exactly the reachable part of the model; display() leaves one process running.
// Oracle: the transition table.  `dot` and `open` are stand-ins in a scratch PATH that hand the dot file over and remove it.
#include "engine.hpp"
#include <sys/stat.h>
using namespace eng; using pbt::gShm;
static std::string gOut,gBin,gNone;
static std::vector<std::string> gTemps;   // temporary files the code under test makes: removed by the harness
extern "C" int mkstemp(char* t) {
   const std::size_t n = strlen(t); static unsigned k = 0; if (n < 6 || strcmp(t + n - 6,"XXXXXX")) { errno = EINVAL; return -1; }
   for (int tries = 0;tries < 100;tries++) {
      uint64_t h = pbt::mix(((uint64_t)getpid() << 32) + ++k);
      for (std::size_t i = 0;i < 6;i++) { t[n - 6 + i] = "abcdefghijklmnopqrstuvwxyz012345"[h & 31]; h >>= 5; }
      int fd = open(t,O_RDWR|O_CREAT|O_EXCL,0600);
      if (fd >= 0) { gTemps.push_back(t); return fd; }
   }
   return -1;
}
static void sweep() { // descriptors and files left behind
   for (auto& f : gTemps) unlink(f.c_str());
   gTemps.clear();
   for (int fd = 3;fd < 256;fd++) { char l[64],b[512]; snprintf(l,sizeof l,"/proc/self/fd/%d",fd); auto n = readlink(l,b,sizeof b - 1); if (n > 0) { b[n] = 0; if (strstr(b,"dotfile-")) close(fd); } }
}
static void stubs() {
   static bool done = false; if (done) return; done = true;
   std::string bin = pbt::gDir + "/bin." + std::to_string(getpid()); gOut = pbt::gDir + "/dot." + std::to_string(getpid());
   mkdir(bin.c_str(),0700);
   { std::ofstream o(bin + "/dot"); o << "#!/bin/sh\nfor last; do :; done\n/bin/mv \"$last\" '" << gOut << "'\n"; }
   { std::ofstream o(bin + "/open"); o << "#!/bin/sh\nexit 0\n"; }
   chmod((bin + "/dot").c_str(),0700); chmod((bin + "/open").c_str(),0700);
   gBin = bin; gNone = pbt::gDir + "/nobin." + std::to_string(getpid()); mkdir(gNone.c_str(),0700);
}
struct GN { long id; bool exact; std::vector<int> st; std::string color; bool box = false; double b; };
struct GE { std::string from,to; double cost; int lbl; };
static bool parseNode(const std::string& t,GN& n) {
   char* e = nullptr; n.id = strtol(t.c_str(),&e,10); if (*e != ',') return false; n.exact = e[1] == 'T';
   auto a = t.find('<'),z = t.find('>'); if (a == std::string::npos || z == std::string::npos) return false;
   std::istringstream is(t.substr(a + 1,z - a - 1)); std::string w; while (std::getline(is,w,'.')) n.st.push_back(atoi(w.c_str()));
   auto b = t.find(",B="); if (b == std::string::npos) return false; n.b = strtod(t.c_str() + b + 3,nullptr);
   return true;
}
static void check(Src& s,Case& c,MP m,Size z) {
   stubs();
   const unsigned kind = s.draw(3), w = drawWidth(s,z); const bool viaPrint = s.coin(), missing = s.chance(1,4);
   describe(c,*m); c.print(w * 3 + kind); c.note(PBT_STR(" kind=" << kind << " width=" << w)); c.label(kind == 0 ? "exact" : kind == 1 ? "relaxed" : "restricted");
   Exact ex; Relaxed rl(w); Restricted rs(w); Strategy* st = kind == 0 ? (Strategy*)&ex : kind == 1 ? (Strategy*)&rl : (Strategy*)&rs;
   const std::string tail = PBT_STR(" (" << st->getName() << ", width " << w << ") :: " << m->show());
   auto dd = makeDD(m); Bounds b(dd); dd->setStrategy(st); std::ostringstream printed;
   { Quiet q; dd->compute(b); unlink(gOut.c_str());
     setenv("PATH",missing ? gNone.c_str() : gBin.c_str(),1);
     const pid_t me = getpid(); gShm->failed = 0;
     if (viaPrint) dd->print(printed,"label"); else dd->display();
     if (getpid() != me) { gShm->failed = 77; _exit(10); }
     while (waitpid(-1,nullptr,0) > 0) ;
   }
   const bool copies = gShm->failed == 77; gShm->failed = 0;
   std::string kept = missing && !gTemps.empty() ? gTemps.back() : gOut;
   if (missing) { c.label("dot and open are missing"); std::rename(kept.c_str(),gOut.c_str()); }
   const bool unseen = missing && gTemps.empty();
   sweep();
   REQUIRE(!copies,"display() returned in a forked copy of the program" << tail);
   if (unseen) { c.label("temporary file not seen"); return; }
   std::ifstream in(gOut); REQUIRE(in.good(),"no graph was " << (missing ? "written" : "handed to dot") << tail);
   std::map<std::string,GN> nodes; std::vector<GE> edges; std::string l; bool head = false,label = false,closed = false;
   while (std::getline(in,l)) {
      if (l.rfind("digraph",0) == 0) { head = true; continue; }
      if (l.rfind("label=",0) == 0) { label = l.find(st->getName()) != std::string::npos; continue; }
      if (l == "}") { closed = true; continue; }
      if (l.empty() || l[0] != '"') continue;
      REQUIRE(head && !closed,"graph line outside the graph: " << l << tail);
      auto q2 = l.find('"',1); REQUIRE(q2 != std::string::npos,"unreadable line " << l << tail);
      auto n1 = l.substr(1,q2 - 1); auto rest = l.substr(q2 + 1);
      auto arrow = rest.find("->");
      if (arrow != std::string::npos && arrow < 4) {
         auto a = rest.find('"'),z2 = rest.find('"',a + 1); auto lab = rest.find("label=\"",z2); REQUIRE(z2 != std::string::npos && lab != std::string::npos,"unreadable arc " << l << tail);
         GE e; e.from = n1; e.to = rest.substr(a + 1,z2 - a - 1); char* ep = nullptr; e.cost = strtod(rest.c_str() + lab + 7,&ep); REQUIRE(*ep == '(',"unreadable arc label " << l << tail); e.lbl = atoi(ep + 1); edges.push_back(e);
      } else {
         GN n; REQUIRE(parseNode(n1,n),"unreadable node " << l << tail);
         REQUIRE(!nodes.count(n1),"node " << n1 << " is shown twice" << tail);
         n.color = rest.find("\"green\"") != std::string::npos ? "green" : rest.find("\"red\"") != std::string::npos ? "red" : "?";
         n.box = rest.find("shape=box") != std::string::npos; nodes[n1] = n;
      }
   }
   in.close(); unlink(gOut.c_str());
   REQUIRE(head && closed && label,"the graph is not complete or not labelled with the strategy" << tail);
   std::set<long> ids; std::set<std::vector<int>> sts; int boxes = 0; bool root = false;
   for (auto& [k,n] : nodes) {
      REQUIRE(ids.insert(n.id).second,"two nodes have identifier " << n.id << tail);
      REQUIRE(sts.insert(n.st).second,"state of " << k << " is shown twice" << tail);
      REQUIRE(n.color == (n.exact ? "green" : "red"),"node " << k << " is " << n.color << tail);
      if (n.exact && !(n.st.size() == 1 && n.st[0] == m->sink)) REQUIRE(n.st.size() == 1,"merged node " << k << " is shown as exact" << tail);
      if (n.box) { ++boxes; REQUIRE(n.st == std::vector<int>{m->sink},"node " << k << " is boxed and is not the sink" << tail); REQUIRE(n.b == dd->currentOpt() || std::abs(n.b - dd->currentOpt()) <= 1e-5 * std::abs(n.b),"the sink is shown at " << n.b << ", the diagram's value is " << dd->currentOpt() << tail); }
      root |= n.st == std::vector<int>{0};
   }
   REQUIRE(boxes == 1 && root,"the graph shows " << boxes << " sinks" << (root ? "" : " and no root") << tail);
   std::set<std::pair<std::string,int>> out; std::multiset<std::string> want;
   for (auto& e : edges) {
      REQUIRE(nodes.count(e.from) && nodes.count(e.to),"an arc " << e.from << " -> " << e.to << " ends outside the graph" << tail);
      auto &f = nodes[e.from],&t = nodes[e.to];
      REQUIRE(out.insert({e.from,e.lbl}).second,"two arcs labelled " << e.lbl << " leave " << e.from << tail);
      std::set<int> to; double cost = m->none(); for (auto x : f.st) if (x != m->sink) if (auto a = m->find(x,e.lbl)) { to.insert(a->to); if (m->better(a->cost,cost)) cost = a->cost; }
      REQUIRE(!to.empty(),"the arc labelled " << e.lbl << " out of " << e.from << " does not exist" << tail);
      REQUIRE(e.cost == cost,"the arc labelled " << e.lbl << " out of " << e.from << " is shown at " << e.cost << " and costs " << cost << tail);
      bool covers = true; for (auto y : to) { bool in = false; for (auto x : t.st) in |= x == y || (m->absorb && m->sim[(std::size_t)x][(std::size_t)y]); covers &= in; }
      if (kind == 1) REQUIRE(covers,"the arc labelled " << e.lbl << " out of " << e.from << " leads to " << e.to << tail);
      else REQUIRE(t.st == std::vector<int>(to.begin(),to.end()),"the arc labelled " << e.lbl << " out of " << e.from << " leads to " << e.to << tail);
      want.insert(PBT_STR(f.id << ' ' << e.cost << ' ' << e.lbl << ' ' << t.id));
   }
   if (kind == 0 && !m->hasLocal) { // exactly the reachable part
      std::set<int> seen{0}; std::vector<int> q{0}; std::size_t ne = 0;
      while (!q.empty()) { int x = q.back(); q.pop_back(); for (auto& a : m->arcs[(std::size_t)x]) { ++ne; if (seen.insert(a.to).second) q.push_back(a.to); } }
      seen.insert(m->sink);
      REQUIRE(nodes.size() == seen.size() && edges.size() == ne,"the exact diagram shows " << nodes.size() << " nodes and " << edges.size() << " arcs, the model has " << seen.size() << " and " << ne << tail);
   }
   if (viaPrint) { // EDGE:E<from --- cost(label) ---> to
      std::multiset<std::string> got; std::istringstream is(printed.str());
      while (std::getline(is,l)) {
         auto a = l.find("E<"); if (a == std::string::npos) continue;
         char* e = nullptr; long f = strtol(l.c_str() + a + 2,&e,10); auto d = l.find("--- ",a); double cost = strtod(l.c_str() + d + 4,&e); int lb = atoi(e + 1); auto t = l.find("---> "); got.insert(PBT_STR(f << ' ' << cost << ' ' << lb << ' ' << atol(l.c_str() + t + 5)));
      }
      REQUIRE(got == want,"print lists " << got.size() << " arcs, the graph shows " << want.size() << " (or others)" << tail);
      c.label("print");
   }
   c.nontrivial = edges.size() >= 4; if (nodes.size() > 20) c.label("more than 20 nodes");
}
static GenOpt opt(Size z) { auto g = sizeOpt(z); g.allowDom = false; g.extremes = false; return g;}
#define R "the graph has at least four arcs"
PROPERTY(tiny,R,9000,200000,600,6000,20) { check(s,c,genModel(s,opt(Tiny)),Tiny); }
PROPERTY(medium,R,6000,120000,400,4000,20) { check(s,c,genModel(s,opt(Medium)),Medium); }
PROPERTY(deep,R,6000,120000,400,4000,20) { check(s,c,genModel(s,opt(Deep)),Deep); }
PROPERTY(wide,R,40,800,4,40,2) { check(s,c,genModel(s,opt(Wide)),Wide); }
PROPERTY(huge,R,24,480,4,24,1) { check(s,c,genModel(s,opt(Huge)),Huge); }
PBT_MAIN
