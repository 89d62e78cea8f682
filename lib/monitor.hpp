// Online monitor of the solver's notification stream (plugs into the Sentinel stand-in).
#pragma once
#include "Sentinel-API.hpp"
#include "common.hpp"
#include "oracle.hpp"
#include <map>
#include <unordered_map>

namespace vf
{
  inline int dim(unsigned lit) { int v = (int)(lit >> 1); return lit & 1 ? v : -v; }

  class Mon : public sentinel::Monitor {
  public:
    static constexpr unsigned UNDEF = 0xFFFFFFFFu, LAZY = 0xFFFFFFFEu, ASSUMP = 0xFFFFFFFDu;
    struct Cl { std::vector<int> lits; bool external = false, alive = false; std::vector<int> watches; };
    struct Var { signed char val = 0; unsigned reason = UNDEF, level = UNDEF; bool propagated = false, locked = false; uint64_t stamp = 0; };

    // what to check
    bool check_learned = false;     // learned / simplified clauses are consequences of the input
    bool check_assign = false;      // assignments, reasons, retractions are coherent
    bool check_delete = false;      // only redundant clauses disappear
    bool track_levels = false;      // rebuild the levels from the events
    bool check_levels = false;      // levels of implied literals at quiescence
    bool monotone_levels = false;   // NCB: trail ordered by level
    std::string label;              // configuration description, for messages
    std::string key_tag;            // strategy tag, part of violation keys
    uint64_t step_limit = 0;        // bounded-progress monitor (events); 0 = off

    oracle::Cnf input;              // clauses given by the user so far (ground truth)
    oracle::Cnf learned;            // every learned clause seen (kept after deletion)
    std::unordered_map<unsigned, Cl> cls;
    std::vector<Var> vars;
    std::vector<unsigned> order;    // assigned variables in assignment order
    int nv = 0;
    uint64_t events = 0, n_learned = 0, n_assign = 0, n_unassign = 0, n_decide = 0, n_imply = 0, n_delete = 0, n_quiesce = 0,
             n_reason_checks = 0, n_update_reason = 0, n_update_level = 0, n_shrink = 0, n_semantic = 0, n_unknown = 0, n_watch = 0, stamp = 0, n_inv_checks = 0,
             n_backjump_gap = 0, n_msg_assert = 0;
    oracle::Rup rup; size_t rup_in = 0, rup_le = 0; uint64_t redundancy_work = 0;
    bool failed = false;
    uint64_t path = 1469598103934665603ull;   // fingerprint of the decision/implication history

    int val(int l) const { unsigned v = std::abs(l); if (v >= vars.size()) return 0; return l > 0 ? vars[v].val : -vars[v].val; }
    Var& var(unsigned v) { if (v >= vars.size()) vars.resize(v + 1); return vars[v]; }

    void fail(const std::string& key, const std::string& what) {
      if (failed) return;
      failed = true;
      ctx().violation(key + (key_tag.empty() ? "" : "/" + key_tag), what + " [" + label + "] input: " + oracle::str(input));
    }
    void tick() {
      events++;
      if (step_limit && events > step_limit) { fail("no-progress", "more than " + std::to_string(step_limit) + " solver events"); throw Abandon(); }
    }
    std::string cstr(unsigned c) { auto it = cls.find(c); return it == cls.end() ? "?" : oracle::str(it->second.lits); }

    // is c a consequence of the user's clauses?
    void check_implied(const std::vector<int>& c, const char* what) {
      while (rup_in < input.size()) rup.add(input[rup_in++]);
      while (rup_le < learned.size()) rup.add(learned[rup_le++]);
      if (rup.rup(c)) return;
      if (n_semantic > 400) { n_unknown++; return; }
      n_semantic++;
      int r = oracle::implied(input, c, nv, 300000);
      if (r == 0) fail(std::string("not-implied:") + what, std::string(what) + " clause " + oracle::str(c) + "is not a consequence of the input");
      else if (r < 0) n_unknown++;
    }

    void add_variable(unsigned v) override { tick(); nv = std::max(nv, (int)v); var(v); }
    void add_clause(unsigned id, const unsigned* l, unsigned n, bool external) override {
      tick();
      std::vector<int> c; for (unsigned i = 0; i < n; i++) c.push_back(dim(l[i]));
      Cl& e = cls[id];
      if (check_delete && e.alive) fail("clause-id-reused", "clause id " + std::to_string(id) + " added while still alive");
      e.lits = c; e.external = external; e.alive = true; e.watches.clear();
      for (int x : c) nv = std::max(nv, std::abs(x));
      if (!external) {
        n_learned++;
        if (check_learned) check_implied(c, "learned");
        learned.push_back(c);
      } else if (check_learned) check_implied(c, "stored-input");
    }
    void delete_clause(unsigned id) override {
      tick(); n_delete++;
      Cl& e = cls[id];
      if (check_delete) {
        if (!e.alive) fail("delete-dead", "clause " + std::to_string(id) + " deleted twice");
        if (e.external) {
          // an input clause may only go when it can no longer matter
          bool taut = false; for (int a : e.lits) for (int b : e.lits) if (a == -b) taut = true;
          if (!taut) check_redundant(id, e.lits);
        }
      }
      e.alive = false;
    }
    void check_redundant(unsigned id, const std::vector<int>& c) {
      for (auto& [i, k] : cls) if (i != id && k.alive && k.lits.size() == 1) for (int x : c) if (x == k.lits[0]) return;
      if (redundancy_work > 3000000) { n_unknown++; return; }
      redundancy_work += cls.size();
      oracle::Cnf rest;
      for (auto& [i, k] : cls) if (i != id && k.alive) rest.push_back(k.lits);
      if (oracle::rup(rest, c, nv)) return;
      // root-level literals that were learned as units stay alive in the clause set; anything else is a loss
      n_semantic++;
      int r = oracle::implied(rest, c, nv, 300000);
      if (r == 0) fail("deleted-needed-clause", "input clause " + oracle::str(c) + "deleted but not implied by what remains");
      else if (r < 0) n_unknown++;
    }
    void shrink_clause(unsigned id, unsigned lit) override {
      tick(); n_shrink++;
      Cl& e = cls[id]; int d = dim(lit);
      auto it = std::find(e.lits.begin(), e.lits.end(), d);
      if (it != e.lits.end()) e.lits.erase(it);
      if (check_learned) check_implied(e.lits, "shrunk");
      learned.push_back(e.lits);
    }
    bool reason_ok(int l, unsigned r, std::string& why) {
      auto it = cls.find(r);
      if (it == cls.end() || !it->second.alive) { why = "reason clause " + std::to_string(r) + " is not in the clause set"; return false; }
      bool has = false;
      for (int x : it->second.lits) {
        if (x == l) { has = true; continue; }
        if (val(x) >= 0) { why = "reason " + oracle::str(it->second.lits) + "for " + std::to_string(l) + " has non-false literal " + std::to_string(x); return false; }
      }
      if (!has) { why = "reason " + oracle::str(it->second.lits) + "does not contain " + std::to_string(l); return false; }
      return true;
    }
    void assign(unsigned lit, unsigned reason) override {
      tick(); n_assign++;
      int l = dim(lit); Var& v = var(lit >> 1);
      path = (path ^ (uint64_t)(lit * 2 + (reason == UNDEF))) * 1099511628211ull;
      if (reason == UNDEF) n_decide++; else n_imply++;
      if (check_assign) {
        if (v.val != 0) fail("assign-assigned", "literal " + std::to_string(l) + " assigned while its variable is assigned");
        if (reason < 0xFFFFFFF0u) {
          n_reason_checks++;
          std::string why; if (!reason_ok(l, reason, why)) fail("bad-reason", why);
        }
      }
      v.val = l > 0 ? 1 : -1; v.reason = reason; v.propagated = false; v.stamp = ++stamp;
      order.push_back(lit >> 1);
      if (track_levels) { // a decision opens a level, an implied literal has the highest level of the other literals of its reason, and changes are told
        unsigned m = 0;
        if (reason == UNDEF) { for (unsigned x : order) m += vars[x].val && vars[x].reason == UNDEF; }
        else { auto it = cls.find(reason); if (it != cls.end()) for (int x : it->second.lits) if (std::abs(x) != (int)(lit >> 1)) m = std::max(m, vars[std::abs(x)].level); }
        vars[lit >> 1].level = m;
      }
    }
    void unassign(unsigned lit) override {
      tick(); n_unassign++;
      int l = dim(lit); Var& v = var(lit >> 1);
      if (check_assign && val(l) <= 0) fail("unassign-unassigned", "literal " + std::to_string(l) + " retracted but not true");
      v.val = 0; v.reason = UNDEF; v.level = UNDEF; v.propagated = false;
      auto it = std::find(order.rbegin(), order.rend(), lit >> 1);
      if (it != order.rend()) order.erase(std::next(it).base());
    }
    void propagate(unsigned lit) override { tick(); var(lit >> 1).propagated = true; if (check_assign && val(dim(lit)) <= 0) fail("propagate-unassigned", "propagated literal is not true"); }
    void unpropagate(unsigned lit) override { tick(); var(lit >> 1).propagated = false; }
    void update_level(unsigned lit, unsigned lvl) override { tick(); n_update_level++; var(lit >> 1).level = lvl; }
    void update_reason(unsigned lit, unsigned r) override {
      tick(); n_update_reason++;
      var(lit >> 1).reason = r;
    }
    void watch(unsigned c, unsigned l) override { tick(); n_watch++; (void)c; (void)l; }
    void lock_assumption(unsigned l) override { tick(); var(l >> 1).locked = true; }
    void unlock_assumption(unsigned l) override { tick(); var(l >> 1).locked = false; }
    void message(const std::string& m, unsigned) override { if (m.find("ssertion failed") != std::string::npos) n_msg_assert++; }
    void check_invariants() override { tick(); n_inv_checks++; }

    // All clauses in the DB (and user clauses) must be neither false nor unit-with-undefined.
    void quiescent(bool need_complete) {
      n_quiesce++;
      for (auto* fs : {&input}) for (auto& c : *fs) scan(c, need_complete, "input");
      for (auto& [i, k] : cls) if (k.alive) scan(k.lits, need_complete, k.external ? "stored" : "learned");
      if (check_assign)
        for (unsigned v = 1; v < vars.size(); v++) if (vars[v].val && vars[v].reason < 0xFFFFFFF0u) {
          n_reason_checks++;
          std::string why; if (!reason_ok(vars[v].val > 0 ? (int)v : -(int)v, vars[v].reason, why)) fail("stale-reason", "at quiescence: " + why);
        }
    }
    void scan(const std::vector<int>& c, bool need_complete, const char* w) {
      int u = 0, first = 0; bool sat = false;
      for (int l : c) { int x = val(l); if (x > 0) { sat = true; break; } if (x == 0) { if (!u || l != first) u++; first = l; } }
      if (sat || !need_complete) return;
      if (u == 0) fail(std::string("missed-conflict:") + w, "clause " + oracle::str(c) + "is falsified at quiescence");
      if (u == 1) fail(std::string("missed-unit:") + w, "clause " + oracle::str(c) + "is unit but " + std::to_string(first) + " is unassigned at quiescence");
    }
  };
}
