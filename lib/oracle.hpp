// Independent reference: DIMACS-style clauses (signed ints), a small DPLL with
// watched-free counting propagation, model enumeration and RUP checking.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdlib>
#include <string>
#include <vector>

namespace oracle
{
  using Clause = std::vector<int>;
  using Cnf = std::vector<Clause>;

  inline int max_var(const Cnf& f) { int m = 0; for (auto& c : f) for (int l : c) m = std::max(m, std::abs(l)); return m; }

  struct Dpll {
    int n;
    const Cnf* f;
    std::vector<signed char> val;       // 0 undef, 1 true, -1 false
    std::vector<std::vector<int>> occ;  // clause ids in which the literal occurs, index 2*v+(l>0)
    std::vector<int> trail;
    uint64_t steps = 0, limit;
    static unsigned ix(int l) { return 2u * std::abs(l) + (l > 0); }

    Dpll(int n_, const Cnf& f_, uint64_t limit_ = 50000000ull) : n(std::max(n_, max_var(f_))), f(&f_), val(n + 1, 0), occ(2 * n + 2), limit(limit_) {
      for (size_t i = 0; i < f->size(); i++) for (int l : (*f)[i]) occ[ix(l)].push_back((int)i);
    }
    int lv(int l) const { return l > 0 ? val[l] : -val[-l]; }
    void set(int l) { val[std::abs(l)] = l > 0 ? 1 : -1; trail.push_back(l); }

    // examine clause: returns -1 conflict, 0 nothing, otherwise sets unit literal
    bool examine(const Clause& c) {
      int unit = 0;
      for (int l : c) {
        int v = lv(l);
        if (v > 0) return true;
        if (v == 0) { if (unit && unit != l) return true; unit = l; }
      }
      if (!unit) return false;
      set(unit);
      return true;
    }
    bool propagate(size_t head) {
      while (head < trail.size()) {
        int l = trail[head++];
        for (int ci : occ[ix(-l)]) { steps++; if (!examine((*f)[ci])) return false; }
      }
      return true;
    }
    bool init() {  // unit/empty clauses
      size_t h = trail.size();
      for (auto& c : *f) if (c.size() <= 1 || true) { if (!examine(c)) return false; }
      return propagate(h);
    }
    void undo(size_t k) { while (trail.size() > k) { val[std::abs(trail.back())] = 0; trail.pop_back(); } }

    int branch() const {
      // most frequent unassigned variable in unsatisfied shortest clauses
      std::vector<unsigned> score(n + 1, 0);
      for (auto& c : *f) {
        bool sat = false; unsigned u = 0;
        for (int l : c) { int v = lv(l); if (v > 0) { sat = true; break; } if (!v) u++; }
        if (sat) continue;
        for (int l : c) if (!lv(l)) score[std::abs(l)] += u <= 2 ? 16 : 1;
      }
      int best = 0;
      for (int v = 1; v <= n; v++) if (!val[v] && score[v] && (!best || score[v] > score[best])) best = v;
      return best;
    }
    // 1 sat, 0 unsat, -1 out of budget
    int rec() {
      if (steps > limit) return -1;
      int v = branch();
      if (!v) return 1;
      for (int s : {1, -1}) {
        size_t k = trail.size();
        set(s * v);
        if (propagate(k)) { int r = rec(); if (r != 0) return r; }
        undo(k);
      }
      return 0;
    }
    int solve(const std::vector<int>& assumptions = {}) {
      for (int a : assumptions) { if (lv(a) < 0) return 0; if (!lv(a)) set(a); }
      if (!init()) return 0;
      if (!propagate(0)) return 0;
      return rec();
    }
    // number of models over variables 1..nv (nv >= all), by exhaustive search
    uint64_t count(int nv) {
      if (!init() || !propagate(0)) return 0;
      return rec_count(nv);
    }
    uint64_t rec_count(int nv) {
      int v = 0;
      for (int i = 1; i <= nv; i++) if (!val[i]) { v = i; break; }
      if (!v) return 1;
      uint64_t tot = 0;
      for (int s : {1, -1}) {
        size_t k = trail.size();
        set(s * v);
        if (propagate(k)) tot += rec_count(nv);
        undo(k);
      }
      return tot;
    }
  };

  inline int solve(const Cnf& f, int n = 0, const std::vector<int>& as = {}) { Dpll d(n, f); return d.solve(as); }

  // does asserting the negation of c and unit-propagating over f give a conflict?
  inline bool rup(const Cnf& f, const Clause& c, int n) {
    Dpll d(std::max(n, max_var({c})), f);
    for (int l : c) { if (d.lv(-l) < 0) return true; if (!d.lv(-l)) d.set(-l); }
    if (!d.init()) return true;
    return !d.propagate(0);
  }
  // is c a logical consequence of f?  1 yes, 0 no, -1 unknown
  inline int implied(const Cnf& f, const Clause& c, int n, uint64_t limit = 50000000ull) {
    Dpll d(std::max(n, max_var({c})), f, limit);
    for (int l : c) { if (d.lv(-l) < 0) return 1; if (!d.lv(-l)) d.set(-l); }
    if (!d.init()) return 1;
    if (!d.propagate(0)) return 1;
    int r = d.rec();
    return r < 0 ? -1 : !r;
  }

  // Incremental reverse-unit-propagation over a growing clause set (two watched literals).
  struct Rup {
    std::vector<signed char> val; std::vector<std::vector<int>> w; std::vector<Clause> cl; std::vector<int> trail; size_t head = 0; bool dead = false; uint64_t steps = 0;
    static unsigned ix(int l) { return 2u * std::abs(l) + (l > 0); }
    void grow(int v) { if ((size_t)v >= val.size()) { val.resize(v + 1, 0); w.resize(2 * v + 2); } }
    int lv(int l) const { return l > 0 ? val[l] : -val[-l]; }
    void set(int l) { val[std::abs(l)] = l > 0 ? 1 : -1; trail.push_back(l); }
    bool propagate() {
      while (head < trail.size()) {
        int f = -trail[head++]; auto& ws = w[ix(f)]; size_t j = 0, i = 0; bool ok = true;
        for (; i < ws.size(); i++) {
          steps++;
          Clause& c = cl[ws[i]];
          if (c[0] == f) std::swap(c[0], c[1]);
          if (lv(c[0]) > 0) { ws[j++] = ws[i]; continue; }
          bool moved = false;
          for (size_t k = 2; k < c.size(); k++) if (lv(c[k]) >= 0) { std::swap(c[1], c[k]); w[ix(c[1])].push_back(ws[i]); moved = true; break; }
          if (moved) continue;
          ws[j++] = ws[i];
          if (lv(c[0]) < 0) { ok = false; i++; break; }
          set(c[0]);
        }
        for (; i < ws.size(); i++) ws[j++] = ws[i];
        ws.resize(j);
        if (!ok) return false;
      }
      return true;
    }
    void add(Clause c) { // at root
      if (dead) return;
      std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end());
      for (int l : c) grow(std::abs(l));
      for (int l : c) if (std::binary_search(c.begin(), c.end(), -l)) return;
      size_t k = 0; for (int l : c) { if (lv(l) > 0) return; if (lv(l) == 0) c[k++] = l; }
      c.resize(k);
      if (c.empty()) { dead = true; return; }
      if (c.size() == 1) { set(c[0]); if (!propagate()) dead = true; return; }
      w[ix(c[0])].push_back((int)cl.size()); w[ix(c[1])].push_back((int)cl.size()); cl.push_back(c);
    }
    bool rup(const Clause& c) {
      if (dead) return true;
      size_t k = trail.size(); bool conf = false;
      for (int l : c) { grow(std::abs(l)); int v = lv(-l); if (v < 0) { conf = true; break; } if (!v) set(-l); }
      if (!conf) conf = !propagate();
      while (trail.size() > k) { val[std::abs(trail.back())] = 0; trail.pop_back(); }
      head = k;
      return conf;
    }
  };

  inline std::string str(const Cnf& f) {
    std::string s;
    for (auto& c : f) { for (int l : c) s += std::to_string(l) + " "; s += "0 | "; }
    return s;
  }
  inline std::string str(const Clause& c) { std::string s; for (int l : c) s += std::to_string(l) + " "; return s; }
}
