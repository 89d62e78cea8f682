// Workload generators: CNF families.
#pragma once
#include "common.hpp"
#include "oracle.hpp"

namespace gen
{
  using oracle::Clause; using oracle::Cnf; using vf::Rng;

  inline Clause rand_clause(Rng& r, int n, int k, bool allow_dirty = false) {
    Clause c;
    for (int i = 0; i < k; i++) {
      for (int tries = 0; tries < 20; tries++) {
        int v = (int)r.range(1, n); int l = r.chance(50) ? v : -v;
        bool clash = false;
        if (!allow_dirty) for (int x : c) if (std::abs(x) == v) clash = true;
        if (clash) continue;
        c.push_back(l); break;
      }
    }
    return c;
  }
  inline Cnf random_ksat(Rng& r, int n, int k, double ratio) {
    Cnf f; int m = (int)(n * ratio);
    for (int i = 0; i < m; i++) f.push_back(rand_clause(r, n, std::min(k, n)));
    return f;
  }
  inline Cnf mixed(Rng& r, int n, double ratio) {
    Cnf f; int m = std::max(1, (int)(n * ratio));
    for (int i = 0; i < m; i++) {
      int p = (int)r.below(100);
      int k = p < 4 ? 1 : p < 40 ? 2 : p < 80 ? 3 : p < 92 ? 4 : (int)r.range(5, 8);
      f.push_back(rand_clause(r, n, std::min(k, n)));
    }
    return f;
  }
  inline Cnf php(int holes, int pigeons) {
    Cnf f; auto v = [&](int p, int h) { return p * holes + h + 1; };
    for (int p = 0; p < pigeons; p++) { Clause c; for (int h = 0; h < holes; h++) c.push_back(v(p, h)); f.push_back(c); }
    for (int h = 0; h < holes; h++) for (int p = 0; p < pigeons; p++) for (int q = 0; q < p; q++) f.push_back({-v(p, h), -v(q, h)});
    return f;
  }
  inline void add_xor(Cnf& f, const std::vector<int>& vs, bool rhs) {
    int k = (int)vs.size();
    for (int m = 0; m < (1 << k); m++) {
      int par = __builtin_popcount(m) & 1;
      if (par == (int)rhs) continue;   // assignment m violates -> forbid it
      Clause c;
      for (int i = 0; i < k; i++) c.push_back((m >> i) & 1 ? -vs[i] : vs[i]);
      f.push_back(c);
    }
  }
  inline Cnf xors(Rng& r, int n, int m) {
    Cnf f;
    for (int i = 0; i < m; i++) {
      int k = std::min(n, (int)r.range(2, 4));
      std::vector<int> vs; for (int v = 1; v <= n; v++) vs.push_back(v);
      r.shuffle(vs); vs.resize(k);
      add_xor(f, vs, r.chance(50));
    }
    return f;
  }
  inline Cnf coloring(Rng& r, int nodes, int colors, int edge_pct) {
    Cnf f; auto v = [&](int a, int c) { return a * colors + c + 1; };
    for (int a = 0; a < nodes; a++) {
      Clause c; for (int k = 0; k < colors; k++) c.push_back(v(a, k)); f.push_back(c);
      for (int k = 0; k < colors; k++) for (int j = 0; j < k; j++) f.push_back({-v(a, k), -v(a, j)});
    }
    for (int a = 0; a < nodes; a++) for (int b = 0; b < a; b++) if (r.chance(edge_pct)) for (int k = 0; k < colors; k++) f.push_back({-v(a, k), -v(b, k)});
    return f;
  }
  inline Cnf horn_chain(Rng& r, int n) {
    Cnf f;
    for (int i = 1; i < n; i++) { Clause c{-i, i + 1}; if (r.chance(30) && i > 1) c.insert(c.begin(), -(int)r.range(1, i - 1)); f.push_back(c); }
    for (int i = 0; i < n; i++) f.push_back(rand_clause(r, n, std::min(n, (int)r.range(2, 4))));
    if (r.chance(50)) f.push_back({1});
    if (r.chance(30)) f.push_back({-n});
    return f;
  }
  // clauses satisfied by a hidden assignment
  inline Cnf planted(Rng& r, int n, int k, double ratio) {
    std::vector<bool> a(n + 1); for (int i = 1; i <= n; i++) a[i] = r.chance(50);
    Cnf f; int m = (int)(n * ratio);
    while ((int)f.size() < m) {
      Clause c = rand_clause(r, n, std::min(k, n)); bool ok = false;
      for (int l : c) if (a[std::abs(l)] == (l > 0)) ok = true;
      if (ok) f.push_back(c);
    }
    return f;
  }
  inline void remap(Rng& r, Cnf& f, int spread) { // introduce gaps in the variable numbering
    int n = oracle::max_var(f); std::vector<int> m(n + 1); int cur = 0;
    for (int i = 1; i <= n; i++) { cur += 1 + (int)r.below(spread); m[i] = cur; }
    for (auto& c : f) for (int& l : c) l = l > 0 ? m[l] : -m[-l];
  }
  // general mixture; `size` in 0 (tiny) .. 3 (larger, many conflicts)
  inline Cnf formula(Rng& r, int size, std::string* fam = nullptr) {
    int nmax = size == 0 ? 8 : size == 1 ? 16 : size == 2 ? 40 : 70;
    int nmin = size == 0 ? 1 : size == 1 ? 4 : size == 2 ? 15 : 40;
    int n = (int)r.range(nmin, nmax);
    Cnf f; std::string name;
    switch (r.below(9)) {
      case 0: case 1: f = random_ksat(r, n, 3, 3.2 + r.below(220) / 100.0); name = "3sat"; break;
      case 2: f = mixed(r, n, 1.0 + r.below(300) / 100.0); name = "mixed"; break;
      case 3: f = random_ksat(r, n, 2, 0.7 + r.below(90) / 100.0); name = "2sat"; break;
      case 4: { int h = size == 0 ? 2 : size == 1 ? 3 : size == 2 ? (int)r.range(4, 5) : 6; f = php(h, h + (r.chance(80) ? 1 : 0)); name = "php"; break; }
      case 5: { int m = std::min(n, size >= 2 ? 24 : 10); f = xors(r, m, (int)(m * (0.7 + r.below(60) / 100.0))); name = "xor"; break; }
      case 6: f = coloring(r, size == 0 ? 3 : size == 1 ? 5 : size == 2 ? 11 : 18, size == 0 ? 2 : 3, size >= 2 ? 40 : 60); name = "color"; break;
      case 7: f = horn_chain(r, n); name = "chain"; break;
      default: f = planted(r, n, size == 0 ? 2 : (int)r.range(3, 4), 3.0 + r.below(250) / 100.0); name = "planted"; break;
    }
    for (auto& c : f) if (r.chance(50)) r.shuffle(c);
    if (r.chance(60)) r.shuffle(f);
    if (r.chance(15)) remap(r, f, 4);
    if (fam) *fam = name;
    return f;
  }
}
