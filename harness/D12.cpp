// D12 - fixed arrays and matrices: value semantics (copies are independent), and each cell is its own location.
#include "pbt.hpp"
#include <cstring>
#include "util.hpp"
#include <alloca.h>
PROPERTY(farray,"at least two arrays were copied or moved into one another and then changed",120000,2500000,20000,250000,1000) {
   const int ns = 3; std::vector<FArray<int>> a(ns); std::vector<std::vector<int>> m(ns); std::ostringstream log; int nx = 1,xfer = 0;
   const int ops = s.range(1,30);
   for (int o = 0;o < ops;o++) {
      int i = s.range(0,ns - 1),j = s.range(0,ns - 1);
      switch (s.weighted({2,4,2,2,2,1})) {
         case 0: { auto n = (std::size_t)s.range(0,6); a[i] = FArray<int>(n,nx); m[i].assign(n,nx); ++nx; log << i << "=new" << n << ' '; break; }
         case 1: if (!m[i].empty()) { auto k = s.draw((uint32_t)m[i].size()); a[i][k] = nx; m[i][k] = nx; ++nx; log << i << '[' << k << "]= "; } break;
         case 2: a[i] = a[j]; m[i] = std::vector<int>(m[j]); log << i << ":=" << j << ' '; xfer += i != j; break;
         case 3: { FArray<int> t(a[j]); if (!m[j].empty()) { auto k = s.draw((uint32_t)m[j].size()); t[k] = -1; } REQUIRE(t.size() == m[j].size(),"copy of another size"); log << "copy" << j << ' '; break; }
         case 4: if (i != j) { a[i] = std::move(a[j]); m[i] = m[j]; ++xfer; log << i << ":=move" << j << ' '; // the moved-from array may be assigned to
                    if (s.coin()) { a[j] = a[i]; m[j] = m[i]; log << j << ":=" << i << ' '; } else { auto n = (std::size_t)s.range(0,6); a[j] = FArray<int>(n,nx); m[j].assign(n,nx); ++nx; log << j << "=new" << n << ' '; } } break;
         default: { FArray<int> t(std::move(a[i])); a[i] = t; log << "via" << i << ' '; break; }
      }
      for (int k = 0;k < ns;k++) {
         REQUIRE(a[k].size() == m[k].size(),"size " << a[k].size() << " expected " << m[k].size() << " after " << log.str());
         for (std::size_t q = 0;q < m[k].size();q++) { const auto& ca = a[k]; REQUIRE(ca[q] == m[k][q],"array " << k << " element " << q << " is " << ca[q] << " expected " << m[k][q] << " after " << log.str()); }
         std::vector<int> it; for (auto x : a[k]) it.push_back(x); REQUIRE(it == m[k],"iteration differs after " << log.str());
         for (int l = 0;l < ns;l++) REQUIRE((a[k] == a[l]) == (m[k] == m[l]),"operator== of " << k << " and " << l << " after " << log.str());
      }
   }
   c.nontrivial = xfer >= 2; c.note(log.str()); c.print(pbt::hashStr(log.str()));
}
PROPERTY(matrix2,"at least two rows and columns, not square",60000,1000000,10000,100000,1000) {
   int r = s.range(1,7),k = s.range(1,7); Matrix<int,2> m(r,k); std::vector<std::vector<int>> w(r,std::vector<int>(k));
   for (int i = 0;i < r;i++) for (int j = 0;j < k;j++) { m[i][j] = i * 100 + j; w[i][j] = i * 100 + j; }
   for (int t = 0;t < 5;t++) { int i = s.range(0,r - 1),j = s.range(0,k - 1),v = 5000 + t; m[i][j] = v; w[i][j] = v; }
   auto d = PBT_STR(r << 'x' << k);
   Matrix<int,2> cp(m); Matrix<int,2> as; as = m;
   { int i = s.range(0,r - 1),j = s.range(0,k - 1); cp[i][j] = -5; REQUIRE(m[i][j] == w[i][j],"writing a copy changed the original " << d); cp[i][j] = w[i][j]; }
   for (int i = 0;i < r;i++) for (int j = 0;j < k;j++) REQUIRE(m[i][j] == w[i][j] && cp[i][j] == w[i][j] && as[i][j] == w[i][j],"cell " << i << ',' << j << " of " << d << " is " << m[i][j] << " expected " << w[i][j]);
   REQUIRE(m.getArity() == 2 && m.getDim(0) == r && m.getDim(1) == k && cp.getDim(0) == r && cp.getDim(1) == k,"dimensions of " << d);
   std::ostringstream o,e; o << m; for (int i = 0;i < r;i++) for (int j = 0;j < k;j++) e << "m[" << i << "][" << j << "] = " << w[i][j] << "\n";
   REQUIRE(o.str() == e.str(),"printed " << o.str() << " expected " << e.str());
   c.nontrivial = r >= 2 && k >= 2 && r != k; c.note(d); c.print((uint64_t)(r * 10 + k) * 7919 + s.draw(4));
}
PROPERTY(matrix3,"three different dimensions",60000,1000000,10000,100000,1000) {
   int dm[3] = {s.range(1,5),s.range(1,5),s.range(1,5)}; FMatrix<FArray<int>,3> m(dm);
   for (int i = 0;i < dm[0];i++) for (int j = 0;j < dm[1];j++) for (int l = 0;l < dm[2];l++) m[i][j][l] = i * 10000 + j * 100 + l;
   for (int i = 0;i < dm[0];i++) for (int j = 0;j < dm[1];j++) for (int l = 0;l < dm[2];l++) REQUIRE(m[i][j][l] == i * 10000 + j * 100 + l,"cell " << i << ',' << j << ',' << l << " of " << dm[0] << 'x' << dm[1] << 'x' << dm[2] << " is " << (int)m[i][j][l]);
   std::ostringstream o,e; o << m; for (int i = 0;i < dm[0];i++) for (int j = 0;j < dm[1];j++) for (int l = 0;l < dm[2];l++) e << "m[" << i << "][" << j << "][" << l << "] = " << i * 10000 + j * 100 + l << "\n";
   REQUIRE(o.str() == e.str(),"printed another matrix for " << dm[0] << 'x' << dm[1] << 'x' << dm[2]);
   c.nontrivial = dm[0] != dm[1] && dm[1] != dm[2]; c.note(PBT_STR(dm[0] << 'x' << dm[1] << 'x' << dm[2])); c.print((uint64_t)(dm[0] * 100 + dm[1] * 10 + dm[2]));
}
PBT_MAIN
