// A monitored solver session: configuration, API wrappers, and API-level monitors.
// Only the public API (include/) is used here.
#pragma once
#include "SAT-API.hpp"
#include "gen.hpp"
#include "monitor.hpp"
#include "oracle.hpp"
#include <iostream>
#include <memory>
#include <sstream>

namespace vf
{
  using namespace napsat;

  inline Tlit L(int x) { return Tlit(Tvar((unsigned)std::abs(x)), x > 0 ? 1u : 0u); }
  inline int D(Tlit l) { return l.pol() ? (int)l.var().value : -(int)l.var().value; }

  inline const std::vector<std::vector<std::string>>& strategies() {
    static const std::vector<std::vector<std::string>> s = {
      {}, {"-cb"}, {"-lscb"}, {"-gb"},
      {"-gb", "-lcm"}, {"-gb", "-ecm"}, {"-gb", "-bsc"}, {"-gb", "-bfc"}, {"-gb", "-bl"},
      {"-gb", "-max-approx-cost"}, {"-gb", "-sum-approx-cost"}, {"-gb", "-vsids-approx-cost"},
      {"-gb", "-ecm", "-bfc"}, {"-gb", "-bl", "-ecm"}, {"-gb", "-bl", "-bsc"}, {"-gb", "-ecm", "-bsc", "-sum-approx-cost"},
    };
    return s;
  }
  // the four documented families are drawn equally often
  inline std::vector<std::string> pick_strategy(Rng& r) {
    auto& s = strategies();
    switch (r.below(5)) {
      case 0: return s[0];
      case 1: return s[1];
      case 2: return s[2];
      default: return s[3 + r.below(s.size() - 3)];
    }
  }
  inline std::string tag_of(const std::vector<std::string>& s) {
    if (s.empty()) return "ncb";
    std::string t; for (auto& x : s) t += x; return t;
  }
  inline std::vector<std::string> extra_options(Rng& r, bool gb) {
    std::vector<std::string> o;
    auto add = [&](const char* n, std::vector<std::string> vs) { o.push_back(n); o.push_back(r.pick(vs)); };
    if (r.chance(45)) return o;
    if (r.chance(15)) add("--restarts", {"on", "off"});
    if (r.chance(20)) add("-del", {"on", "off"});
    if (r.chance(20)) add("--var-activity-decay", {"0.5", "0.8", "0.99", "1"});
    if (r.chance(40)) add("--clause-elimination-multiplier", {"1", "1.05", "1.5", "4", "1e9"});
    if (r.chance(20)) add("--clause-activity-multiplier", {"1.0001", "1.2", "3"});
    if (r.chance(30)) add("--clause-activity-threshold-decay", {"0.1", "0.5", "0.99", "1"});
    if (gb) {
      if (r.chance(20)) add("--chunk-level-penalty", {"0", "0.5", "3"});
      if (r.chance(30)) add("--backtrack-possibilities-limit", {"1", "2", "5", "100"});
      if (r.chance(20)) add("--sync-weight", {"0", "1", "100"});
    }
    return o;
  }
  inline std::string join(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += (s.empty() ? "" : " ") + x; return s; }

  // redirects std::cout while alive
  struct Capture {
    std::ostringstream os; std::streambuf* old;
    Capture() { old = std::cout.rdbuf(os.rdbuf()); }
    ~Capture() { std::cout.rdbuf(old); }
    std::string str() const { return os.str(); }
  };

  struct Config {
    std::vector<std::string> strat, extra;
    bool observe = true, proof = false;
    unsigned n_var = 0, n_cl = 0;
    std::string tag;
    bool gb() const { return !strat.empty() && strat[0] == "-gb"; }
    bool lcm() const { for (auto& x : strat) if (x == "-lcm") return true; return false; }
    std::string text() const { return tag + (extra.empty() ? "" : " " + join(extra)) + (observe ? " -o" : "") + (proof ? " -bp" : "") + " nv" + std::to_string(n_var); }
  };
  inline Config make_config(Rng& r, bool observe, bool proof = false, bool extra = true) {
    Config c;
    c.strat = pick_strategy(r);
    if (extra) c.extra = extra_options(r, c.gb());
    c.observe = observe; c.proof = proof;
    c.tag = tag_of(c.strat);
    return c;
  }

  struct Session {
    Config cfg;
    Mon m;
    NapSAT* s = nullptr;
    Ctx& c;
    int mode = 0;            // how clauses are given: 0 add_clause, 1 push_literal, 2 mixed
    bool unsat = false;
    std::unique_ptr<options> opts;
    std::string trace;       // the history of calls, for messages
    uint64_t calls = 0;

    Session(Ctx& c_, const Config& g) : cfg(g), c(c_) {
      m.key_tag = cfg.tag; m.label = cfg.text();
      fprintf(stderr, "CFG %s\nTAG %s\n", m.label.c_str(), cfg.tag.c_str());
    }
    void open() {
      std::vector<std::string> t = cfg.strat;
      t.insert(t.end(), cfg.extra.begin(), cfg.extra.end());
      if (cfg.observe) t.push_back("-o");
      if (cfg.proof) t.push_back("-bp");
      opts = std::make_unique<options>(t);
      sentinel::current_monitor() = cfg.observe ? &m : nullptr;
      s = create_solver(cfg.n_var, cfg.n_cl, *opts);
      sentinel::current_monitor() = nullptr;
    }
    ~Session() { if (s) delete_solver(s); }
    void note(const std::string& t) { static const bool tr = getenv("VF_TRACE"); if (tr) fprintf(stderr, "%s\n", t.c_str()); if (trace.size() < 3000) trace += t + "; "; }

    void fail(const std::string& key, const std::string& what) { m.fail(key, what + " after: " + trace); }
    bool failed() const { return m.failed; }

    Tclause add(const oracle::Clause& cl, Rng* r = nullptr) {
      m.input.push_back(cl);
      for (int l : cl) m.nv = std::max(m.nv, std::abs(l));
      calls++;
      note("add(" + oracle::str(cl) + ")");
      bool dirty = false;
      for (size_t i = 0; i < cl.size(); i++) for (size_t j = 0; j < i; j++) if (std::abs(cl[i]) == std::abs(cl[j])) dirty = true;
      int md = mode == 2 && r ? (int)r->below(2) : mode;
      if (md == 1 && !dirty) {
        start_new_clause(s);
        for (int x : cl) push_literal(s, L(x));
        return finalize_clause(s);
      }
      std::vector<Tlit> l; for (int x : cl) l.push_back(L(x));
      return add_clause(s, l.data(), (unsigned)l.size());
    }
    int value(int v) const {
      Tval t = get_variable_value(s, Tvar((unsigned)v));
      return t == Tval::TRUE ? 1 : t == Tval::FALSE ? -1 : 0;
    }
    int lv(int l) const { int v = value(std::abs(l)); return l > 0 ? v : -v; }
    unsigned nvars() const { return variables_count(s); }

    // the trail and the variable values describe the same assignment
    void check_assignment_view() {
      const auto& t = get_partial_assignment(s);
      std::vector<char> seen(nvars() + 1, 0);
      for (Tlit l : t) {
        unsigned v = l.var().value;
        if (v == 0 || v > nvars()) { fail("trail-unknown-variable", "trail holds variable " + std::to_string(v)); return; }
        if (seen[v]) { fail("trail-duplicate", "variable " + std::to_string(v) + " is twice on the trail"); return; }
        seen[v] = 1;
        if (lv(D(l)) != 1) { fail("trail-value", "trail literal " + std::to_string(D(l)) + " is not true"); return; }
      }
      for (unsigned v = 1; v <= nvars(); v++)
        if (!seen[v] && value((int)v) != 0) { fail("value-off-trail", "variable " + std::to_string(v) + " has a value but is not on the trail"); return; }
      c.count("assignment_views");
    }
    // SAT answer: the assignment is a total model of everything the user added
    void check_model() {
      check_assignment_view();
      for (auto& cl : m.input) {
        bool ok = false;
        for (int l : cl) {
          int x = lv(l);
          if (x == 0) { fail("model-not-total", "answer SAT but variable " + std::to_string(std::abs(l)) + " has no value"); return; }
          if (x > 0) ok = true;
        }
        if (!ok) { fail("not-a-model", "answer SAT but clause " + oracle::str(cl) + "is not satisfied"); return; }
      }
      if (get_partial_assignment(s).size() != nvars()) { fail("model-not-total", "answer SAT but the trail has " + std::to_string(get_partial_assignment(s).size()) + " of " + std::to_string(nvars()) + " variables"); return; }
      c.count("models_checked"); c.count("model_clauses_checked", m.input.size());
    }
    // quiescence, from the user's view only
    void check_complete(bool learned_too) {
      check_assignment_view();
      for (auto& cl : m.input) {
        int un = 0, first = 0; bool sat = false;
        for (int l : cl) { int x = lv(l); if (x > 0) { sat = true; break; } if (x == 0 && l != first) { if (++un > 1) break; first = l; } }
        if (sat || un > 1) continue;
        if (un == 0) { fail("missed-conflict:user", "clause " + oracle::str(cl) + "is falsified when the solver asks for a decision"); return; }
        fail("missed-unit:user", "clause " + oracle::str(cl) + "is unit but " + std::to_string(first) + " is unassigned when the solver asks for a decision"); return;
      }
      if (learned_too && cfg.observe) m.quiescent(true);
      c.count("quiescent_points"); c.count("clauses_scanned", m.input.size());
    }
    // every assigned literal follows from the clauses and the decisions; root literals from the clauses alone
    void check_consequences() {
      oracle::Cnf all = m.input; all.insert(all.end(), m.learned.begin(), m.learned.end());
      const auto& t = get_partial_assignment(s);
      {
        oracle::Dpll d((int)nvars(), all);
        bool bad = false;
        for (Tlit l : t) if (is_decided(s, l)) { if (d.lv(D(l)) < 0) { bad = true; break; } if (!d.lv(D(l))) d.set(D(l)); }
        if (!bad && d.init() && d.propagate(0)) {
          for (Tlit l : t) if (!is_decided(s, l) && d.lv(D(l)) != 1) {
            oracle::Clause q; for (Tlit e : t) if (is_decided(s, e)) q.push_back(-D(e));
            q.push_back(D(l));
            int w = oracle::implied(m.input, q, (int)nvars());
            if (w == 0) { fail("implied-literal-does-not-follow", std::to_string(D(l)) + " is not a decision and does not follow from the clauses and the decisions"); return; }
            if (w < 0) c.count("inconclusive_semantic"); else c.count("semantic_consequences");
          } else c.count("consequences_checked");
        }
      }
      for (Tlit l : t) if (is_root_level(s, l.var())) {
        c.count("root_literals_checked");
        if (is_decided(s, l)) { fail("root-decision", std::to_string(D(l)) + " is a decision reported at root level"); return; }
        if (oracle::rup(all, {D(l)}, (int)nvars())) continue;
        int w = oracle::implied(m.input, {D(l)}, (int)nvars());
        if (w == 0) { fail("root-literal-not-implied", std::to_string(D(l)) + " is reported at root level but does not follow from the clauses"); return; }
      }
    }
    status do_solve() { calls++; note("solve"); status st = solve(s); note(status_to_string(st)); if (st == status::UNSAT) unsat = true; return st; }
  };

  // a formula whose status is known by construction: 1 SAT, 0 UNSAT, -1 unknown
  inline oracle::Cnf big_formula(Rng& r, int scale, int& want, std::string& fam) {
    oracle::Cnf f; want = -1;
    switch (r.below(6)) {
      case 0: { int n = (int)r.range(60, 120) * scale; f = gen::planted(r, n, 3, 3.5 + r.below(90) / 100.0); want = 1; fam = "planted3"; break; }
      case 1: { int h = 5 + (scale > 1 ? (int)r.below(2) : 0); f = gen::php(h, h + 1); want = 0; fam = "php"; break; }
      case 2: { // parity contradiction on a cycle with chords: odd total charge
        int n = (int)r.range(6, 9 + scale); std::vector<std::vector<int>> inc(n); int e = 0;
        auto edge = [&](int a, int b) { e++; inc[a].push_back(e); inc[b].push_back(e); };
        for (int i = 0; i < n; i++) edge(i, (i + 1) % n);
        for (int i = 0; i < n / 2; i++) { int a = (int)r.below(n), b = (int)r.below(n); if (a != b && inc[a].size() < 5 && inc[b].size() < 5) edge(a, b); }
        bool odd = r.chance(70); int odd_at = (int)r.below(n); std::vector<int> ch(n, 0);
        if (odd) ch[odd_at] = 1;
        for (int i = 0; i < n; i++) gen::add_xor(f, inc[i], ch[i]);
        want = odd ? 0 : 1; fam = "tseitin"; break; }
      case 3: { int n = (int)r.range(50, 90); f = gen::random_ksat(r, n, 3, 4.0 + r.below(120) / 100.0); fam = "3sat"; break; }
      case 4: { int n = (int)r.range(12, 20) * scale; f = gen::coloring(r, n, 3, 1200 / (n * 5 / 2)); fam = "color"; break; }
      default: { int n = (int)r.range(100, 250) * scale; f = gen::random_ksat(r, n, 3, 2.8 + r.below(60) / 100.0); fam = "easy3sat"; break; }
    }
    if (r.chance(70)) r.shuffle(f);
    for (auto& cl : f) if (r.chance(40)) r.shuffle(cl);
    return f;
  }
}
