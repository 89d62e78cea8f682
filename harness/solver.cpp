// Monitored workloads over the whole solver, through its public API.
#include "session.hpp"
#include "audit.hpp"
#include <set>
using namespace napsat; using namespace std; using namespace vf;
using oracle::Cnf; using oracle::Clause;

static void dirty(Rng& r, Cnf& f) { // duplicate literals, tautologies, repeated clauses, rarely the empty clause
  if (f.empty()) return;
  int n = max(1, oracle::max_var(f));
  for (auto& c : f) {
    if (r.chance(6) && !c.empty()) c.insert(c.begin() + r.below(c.size() + 1), r.pick(c));
    if (r.chance(2) && !c.empty()) c.insert(c.begin() + r.below(c.size() + 1), -r.pick(c));
  }
  for (int k = (int)r.below(3); k > 0; k--) f.insert(f.begin() + r.below(f.size() + 1), r.pick(f));
  if (r.chance(2)) f.insert(f.begin() + r.below(f.size() + 1), Clause{});
  if (r.chance(20)) f.insert(f.begin() + r.below(f.size() + 1), Clause{r.chance(50) ? (int)r.range(1, n) : -(int)r.range(1, n)});
}
static Cnf small_formula(Rng& r, int maxsize, string* fam, bool allow_dirty = true) {
  Cnf f = gen::formula(r, (int)r.below(maxsize + 1), fam);
  if (allow_dirty && r.chance(40)) dirty(r, f);
  return f;
}
static void preset(Rng& r, Config& g, const Cnf& f) {
  int n = oracle::max_var(f);
  switch (r.below(5)) {
    case 0: g.n_var = n; g.n_cl = f.size(); break;
    case 1: g.n_var = n + r.below(5); break;
    case 2: g.n_var = r.below(n + 1); break;
    default: break;
  }
}
static void fingerprint(Ctx& c, const Session& S) { c.nontrivial(S.m.path ^ fnv(S.cfg.tag) ^ (S.m.n_learned << 40)); }
static uint64_t fp_formula(const Cnf& f, const string& t) { return fnv(oracle::str(f) + t); }
static void tally(Ctx& c, const Session& S) {
  c.count("events", S.m.events); c.count("learned", S.m.n_learned); c.count("assigned", S.m.n_assign);
  c.count("decisions", S.m.n_decide); c.count("retracted", S.m.n_unassign); c.count("deleted", S.m.n_delete);
  c.count("reason_checks", S.m.n_reason_checks); c.count("semantic_checks", S.m.n_semantic);
  c.count("shrunk", S.m.n_shrink); c.count("reimplied", S.m.n_update_reason); c.count("inconclusive_semantic", S.m.n_unknown);
  c.count("strat:" + S.cfg.tag);
}
// give all the clauses, solving in between with some probability
static status feed(Session& S, const Cnf& f, Rng& r, bool incremental, const function<void(status)>& at_answer) {
  size_t i = 0;
  while (i < f.size() && !S.failed()) {
    size_t k = incremental ? 1 + r.below(1 + f.size() / 3) : f.size();
    while (k-- && i < f.size()) S.add(f[i++], &r);
    if (i < f.size() && !S.failed()) at_answer(S.do_solve());
  }
  status st = S.do_solve();
  at_answer(st);
  return st;
}
// walk by hand: propagate, choose decisions, watch each quiescent point
static void walk(Session& S, Rng& r, int steps, const function<void()>& quiescent) {
  while (steps-- > 0 && !S.failed() && get_status(S.s) == status::UNKNOWN) {
    S.calls++; S.note("propagate");
    if (!propagate(S.s)) {
      if (get_status(S.s) == status::UNKNOWN) S.fail("propagate-gave-up", "propagate returned false and the status is unknown");
      break;
    }
    if (get_status(S.s) != status::UNKNOWN) { S.fail("propagate-status", "propagate asks for a decision but the status is definite"); break; }
    quiescent();
    if (S.failed()) break;
    if (r.chance(60)) {
      vector<int> u; for (unsigned v = 1; v <= S.nvars(); v++) if (S.value((int)v) == 0) u.push_back((int)v);
      if (u.empty()) { S.fail("no-variable-left", "a decision is asked for but every variable is assigned"); break; }
      int l = r.pick(u) * (r.chance(50) ? 1 : -1);
      S.note("decide(" + to_string(l) + ")"); S.calls++;
      if (!decide(S.s, L(l)) || S.lv(l) != 1) { S.fail("decide-literal", "decide(" + to_string(l) + ") did not assign it"); break; }
      if (!is_decided(S.s, L(l))) S.fail("decide-literal", "the decided literal is not reported as decided");
    } else {
      S.note("decide"); S.calls++;
      size_t before = get_partial_assignment(S.s).size();
      if (decide(S.s) && get_partial_assignment(S.s).size() != before + 1) S.fail("decide", "decide did not assign exactly one literal");
    }
    if (r.chance(10)) { S.note("sync"); synchronize(S.s); }
  }
}
static void maybe_weights(Session& S, Rng& r) {
  if (!S.cfg.gb() || !r.chance(30)) return;
  uint64_t salt = r.next(); bool flat = r.chance(30);
  S.note("weights");
  set_weight_function(S.s, [salt, flat](Tlit l) { if (flat) return 1.0; Rng q(salt ^ (l.value * 0x9E37ull)); return 0.25 * (double)(1 + q.below(200)); });
}
static void maybe_polarity(Session& S, Rng& r, int n) {
  if (!r.chance(30)) return;
  for (int k = (int)r.below(4); k > 0; k--) { int v = (int)r.range(1, max(1, n)); if (v <= (int)S.nvars()) suggest_polarity(S.s, L(v), r.chance(50)); }
}

// ------------------------------------------------------------------ C01
static void w_models(Ctx& c, Rng& r) {
  string fam; int want; Cnf f; bool big = r.chance(12);
  if (big) f = big_formula(r, 1, want, fam);
  else if (r.chance(45)) { int n = (int)r.range(3, 50); f = gen::planted(r, n, (int)r.range(2, 4), 2.0 + r.below(250) / 100.0); fam = "planted"; if (r.chance(30)) gen::remap(r, f, 5); if (r.chance(40)) dirty(r, f); }
  else f = small_formula(r, 2, &fam);
  Config g = make_config(r, r.chance(35));
  preset(r, g, f);
  Session S(c, g); S.mode = (int)r.below(3); S.open();
  maybe_weights(S, r); maybe_polarity(S, r, oracle::max_var(f));
  unsigned answers = 0;
  auto at = [&](status st) {
    if (st == status::SAT) { S.check_model(); answers++; c.count("sat_answers"); if (r.chance(30)) synchronize(S.s); }
    else c.count("other_answers");
  };
  int style = (int)r.below(4);
  if (style == 3) { // stepwise to the end
    for (auto& cl : f) S.add(cl, &r);
    walk(S, r, 2000, [] {});
    if (!S.failed() && get_status(S.s) != status::UNKNOWN) { c.count("stepwise_ends"); at(get_status(S.s)); }
  } else feed(S, f, r, style != 0, at);
  if (answers) { c.nontrivial(fp_formula(S.m.input, g.tag)); c.sample(g.text() + " family " + fam + ", " + to_string(f.size()) + " clauses, " + to_string(answers) + " SAT answers checked"); }
  tally(c, S);
}

// ------------------------------------------------------------------ C02
static void w_verdict(Ctx& c, Rng& r) {
  string fam; int want = -1; Cnf f; bool big = r.chance(25);
  if (big) f = big_formula(r, 1, want, fam);
  else f = small_formula(r, 2, &fam);
  if (want < 0) { oracle::Dpll d(0, f, 6000000); want = d.solve(); }
  Config g = make_config(r, r.chance(30));
  preset(r, g, f);
  Session S(c, g); S.mode = (int)r.below(3); S.m.step_limit = 30000000; S.open();
  maybe_weights(S, r); maybe_polarity(S, r, oracle::max_var(f));
  for (auto& cl : f) S.add(cl, &r);
  if (r.chance(20)) walk(S, r, (int)r.below(12), [] {});
  status st = S.do_solve();
  if (st != status::SAT && st != status::UNSAT) S.fail("no-verdict", "solve returned " + status_to_string(st));
  if (get_status(S.s) != st) S.fail("status-differs", "get_status differs from the answer of solve");
  if (want < 0) c.count("oracle_unknown");
  else if ((st == status::SAT) != (want == 1)) S.fail("wrong-verdict", "solve says " + status_to_string(st) + ", the formula is " + (want ? "satisfiable" : "unsatisfiable"));
  else c.count(want ? "agreed_sat" : "agreed_unsat");
  if (!S.failed() && solve(S.s) != st) S.fail("verdict-changed", "a second call to solve answers differently");
  c.nontrivial(fp_formula(f, g.tag));
  c.sample(g.text() + " family " + fam + ", " + to_string(f.size()) + " clauses -> " + status_to_string(st));
  tally(c, S);
}

// formulas with wide clauses near their threshold: what is learned has nearly as many literals as there are variables
static void w_wide(Ctx& c, Rng& r) {
  int n = (int)r.range(9, 18), k = (int)r.range(4, 7); if (r.chance(30)) { n = (int)r.range(12, 16); k = (int)r.range(8, 9); }
  double ratio = k == 4 ? 9.9 : k == 5 ? 21 : k == 6 ? 43 : k == 7 ? 87 : k == 8 ? 175 : 353;
  Cnf f = gen::random_ksat(r, n, k, ratio * (0.85 + r.below(40) / 100.0));
  if (r.chance(25)) { int h = (int)r.range(4, 5); f = gen::php(h, h + 1); n = h * (h + 1); if (r.chance(50)) r.shuffle(f); }
  oracle::Dpll d(0, f, 6000000); int want = d.solve();
  Config g = make_config(r, r.chance(50));
  Session S(c, g); S.mode = (int)r.below(3); S.m.step_limit = 30000000; S.open();
  for (auto& cl : f) S.add(cl, &r);
  status st = S.do_solve();
  if (st != status::SAT && st != status::UNSAT) S.fail("no-verdict", "solve returned " + status_to_string(st));
  else if (want < 0) c.count("oracle_unknown");
  else if ((st == status::SAT) != (want == 1)) S.fail("wrong-verdict", "solve says " + status_to_string(st) + ", the formula is " + (want ? "satisfiable" : "unsatisfiable"));
  else c.count(want ? "agreed_sat" : "agreed_unsat");
  c.count("wide_formulas"); c.nontrivial(fp_formula(f, g.tag)); c.sample(g.text() + " wide " + to_string(n) + "/" + to_string(k)); tally(c, S);
}

// thousands of decisions or assumptions at once: more than the chunks allocated at the start
static void w_deep(Ctx& c, Rng& r) {
  int fill = (int)(r.chance(25) ? r.range(8070, 9000) : r.range(4000, 5200)), k = (int)r.range(8, 30);
  Config g = make_config(r, false); if (!g.gb() && r.chance(80)) { do g = make_config(r, false); while (!g.gb()); }
  bool assume_ = g.gb() && r.chance(40); int given = (int)r.range(1, fill); if (r.chance(70)) given = fill; if (assume_ && given > 4600) given = 4600;
  // a formula on k variables, some clauses of which hold as soon as one of the other variables changes
  int escape = (int)r.below(4) * 25; Cnf core = gen::random_ksat(r, k, 3, 2.5 + r.below(escape ? 300 : 400) / 100.0), fixed, whole, under; vector<int> pol(fill + 1); for (int v = 1; v <= fill; v++) pol[v] = r.chance(50) ? v : -v;
  for (auto& cl : core) { Clause w; for (int l : cl) w.push_back(l > 0 ? l + fill : l - fill); under.push_back(w); int e = r.chance(escape) ? (int)r.range(1, 3) : 0; set<int> xs; while (e--) xs.insert((int)(r.chance(70) ? r.range(max(1, given - 100), given) : r.range(1, given))); for (int x : xs) w.push_back(-pol[x]); if (xs.empty()) fixed.push_back(w); r.shuffle(w); whole.push_back(w); }
  // the others are tied to each other a little: some decisions become implied
  int ties = (int)r.below(200); for (int i = 0; i < ties; i++) { int a = (int)r.range(1, fill), b = (int)r.range(1, fill); if (a != b) whole.push_back({-pol[a], pol[b]}); }
  oracle::Dpll d1(0, fixed, 3000000), d2(0, under, 3000000); int want = d1.solve(), held = d2.solve();
  preset(r, g, whole); Session S(c, g); S.mode = (int)r.below(3); S.m.step_limit = 0; S.open(); for (auto& cl : whole) S.add(cl, &r);
  while ((int)S.nvars() < fill + k) { new_variable(S.s); }
  vector<int> order; for (int v = 1; v <= given; v++) order.push_back(v); if (r.chance(40)) r.shuffle(order);
  unsigned done = 0;
  auto judge = [&](status st, int w, const char* when) { if (st != status::SAT && st != status::UNSAT) S.fail("no-verdict", string(when) + "solve returned " + status_to_string(st)); else if (w < 0) c.count("oracle_unknown"); else if ((st == status::SAT) != (w == 1)) S.fail("wrong-verdict", string(when) + "solve says " + status_to_string(st) + ", the formula is " + (w ? "satisfiable" : "unsatisfiable")); else c.count(w ? "deep_sat" : "deep_unsat"); if (st == status::SAT && !S.failed()) S.check_model(); };
  if (assume_) {
    bool refused = false; for (int v : order) { if (get_status(S.s) == status::SAT) propagate(S.s); if (!add_assumption(S.s, L(pol[v]))) { refused = true; break; } done++; if (r.chance(1) && r.chance(10)) propagate(S.s); }
    if (refused) { if (held == 1) S.fail("assumption-refused", "an assumption was refused although all can hold"); }
    else { status st = solve(S.s); bool all = given == fill; judge(st, all || held != 0 ? (all ? held : 1) : -1, "under assumptions, "); if (st == status::SAT && !S.failed()) for (int v : order) if (S.lv(pol[v]) != 1) { S.fail("assumption-broken", "the model does not satisfy the assumption " + to_string(pol[v])); break; } }
    c.count("deep_assumptions", done); if (done > 4032) c.count("deep_growth");
    if (S.failed()) return;
    for (int v : order) if (r.chance(90)) forget_assumption(S.s, L(pol[v])); forget_assumption(S.s);
  } else {
    for (int v : order) { if (get_status(S.s) != status::UNKNOWN || !propagate(S.s)) break; if (S.value(v)) continue; if (!decide(S.s, L(pol[v])) || S.lv(pol[v]) != 1) { S.fail("decide-literal", "decide(" + to_string(pol[v]) + ") did not assign it"); return; } done++; }
    c.count("deep_decisions", done); if (done > 4032) { c.count("deep_growth"); if (g.gb()) c.count("deep_growth_gb"); }
  }
  judge(solve(S.s), want, "");
  if (!S.failed() && want == 1 && r.chance(50)) { int v = new_variable(S.s).value; Clause cl{-v, (int)r.range(1, fill), (int)(fill + r.range(1, k))}; S.add(cl, &r); judge(solve(S.s), 1, "after another clause, "); }
  c.nontrivial(fp_formula(core, g.tag) ^ done); c.sample(g.text() + " deep " + to_string(fill) + "+" + to_string(k) + ", " + to_string(done) + (assume_ ? " assumptions" : " decisions")); c.count("deep_formulas"); tally(c, S);
}

// ------------------------------------------------------------------ C03
static void w_learned(Ctx& c, Rng& r) {
  string fam; Cnf f; int want;
  if (r.chance(15)) f = big_formula(r, 1, want, fam); else f = small_formula(r, 2, &fam, true);
  Config g = make_config(r, true);
  preset(r, g, f);
  Session S(c, g); S.mode = (int)r.below(3); S.m.check_learned = S.m.check_delete = true;
  S.open(); maybe_weights(S, r);
  int style = (int)r.below(3);
  size_t i = 0;
  while (i < f.size() && !S.failed()) {
    size_t k = style == 0 ? f.size() : 1 + r.below(8);
    while (k-- && i < f.size()) S.add(f[i++], &r);
    if (style == 1) walk(S, r, (int)r.below(6), [] {});
    if (style == 2) S.do_solve();
    if (S.unsat) break;
  }
  if (!S.failed()) S.do_solve();
  if (S.m.n_learned) { fingerprint(c, S); c.sample(g.text() + " family " + fam + ": " + to_string(S.m.n_learned) + " learned, " + to_string(S.m.n_shrink) + " shrunk, " + to_string(S.m.n_delete) + " deleted"); }
  tally(c, S);
}

// ------------------------------------------------------------------ C04
static void w_trail(Ctx& c, Rng& r) {
  string fam; Cnf f = small_formula(r, 1, &fam, true);
  if (r.chance(10)) f = gen::formula(r, 2, &fam);
  Config g = make_config(r, true);
  preset(r, g, f);
  Session S(c, g); S.mode = (int)r.below(3); S.m.check_assign = true; S.open(); maybe_weights(S, r);
  auto view = [&] {
    S.check_assignment_view();
    S.check_consequences();
    S.m.quiescent(false);
    for (Tlit l : get_partial_assignment(S.s)) {
      bool dec = S.m.var(l.var().value).reason == Mon::UNDEF;
      if (dec != is_decided(S.s, l)) S.fail("decided-view", to_string(D(l)) + ": is_decided disagrees with the reasons reported to the observer");
    }
    for (unsigned v = 1; v <= S.nvars(); v++) if (S.value((int)v) != S.m.var(v).val) S.fail("observed-value", "the observer sees another value of variable " + to_string(v));
    // the reasons form a partial order along the trail
    map<int, size_t> pos; size_t k = 0;
    for (Tlit l : get_partial_assignment(S.s)) pos[D(l)] = k++;
    for (auto& [l, p] : pos) {
      unsigned rs = S.m.var(abs(l)).reason;
      if (rs >= 0xFFFFFFF0u) continue;
      auto it = S.m.cls.find(rs); if (it == S.m.cls.end()) continue;
      for (int x : it->second.lits) if (x != l) {
        auto q = pos.find(-x);
        if (q == pos.end() || q->second > p) { S.fail("reason-after-literal", to_string(-x) + " justifies " + to_string(l) + " but comes after it on the trail"); return; }
        c.count("reason_edges");
      }
    }
  };
  size_t i = 0;
  while (i < f.size() && !S.failed()) {
    size_t k = 1 + r.below(6);
    while (k-- && i < f.size()) { S.add(f[i++], &r); if (r.chance(30) && !S.unsat) S.check_assignment_view(); }
    if (r.chance(70)) walk(S, r, (int)r.below(7), view);
    else { S.do_solve(); if (get_status(S.s) == status::SAT) view(); }
    if (S.unsat || get_status(S.s) == status::UNSAT) break;
  }
  if (!S.failed() && get_status(S.s) != status::UNSAT) { if (S.do_solve() == status::SAT) view(); }
  fingerprint(c, S); c.sample(g.text() + " family " + fam + ": " + S.trace.substr(0, 300));
  tally(c, S);
}

// ------------------------------------------------------------------ C05
static void w_propagation(Ctx& c, Rng& r) {
  string fam; Cnf f = small_formula(r, 1, &fam, true);
  if (r.chance(15)) f = gen::formula(r, 2, &fam);
  Config g = make_config(r, r.chance(60));
  preset(r, g, f);
  Session S(c, g); S.mode = (int)r.below(3); S.open(); maybe_weights(S, r);
  auto q = [&] { S.check_complete(true); };
  size_t i = 0;
  while (i < f.size() && !S.failed()) {
    size_t k = 1 + r.below(r.chance(30) ? f.size() : 5);
    while (k-- && i < f.size()) S.add(f[i++], &r);
    walk(S, r, (int)r.below(10), q);
    if (get_status(S.s) == status::UNSAT) break;
    if (get_status(S.s) == status::SAT) S.check_complete(true);
  }
  if (!S.failed() && get_status(S.s) == status::UNKNOWN) walk(S, r, 300, q);
  if (!S.failed() && get_status(S.s) == status::SAT) S.check_complete(true);
  if (S.m.n_decide || S.calls > 3) c.nontrivial(fnv(S.trace) ^ fnv(g.tag));
  c.sample(g.text() + " family " + fam + ": " + S.trace.substr(0, 300));
  tally(c, S);
}

// ------------------------------------------------------------------ C06
static void w_incremental(Ctx& c, Rng& r) {
  string fam; Cnf f = small_formula(r, 1, &fam, true);
  if (r.chance(8)) f = gen::formula(r, 2, &fam);
  Config g = make_config(r, r.chance(35));
  preset(r, g, f);
  Session S(c, g); S.mode = (int)r.below(3); S.m.step_limit = 20000000; S.open(); maybe_weights(S, r);
  unsigned answers = 0;
  auto check = [&](status st) {
    oracle::Dpll d(0, S.m.input, 3000000); int want = d.solve();
    if (want < 0) { c.count("oracle_unknown"); return; }
    answers++; c.count(want ? "agreed_sat" : "agreed_unsat");
    if (st != (want ? status::SAT : status::UNSAT)) S.fail("wrong-incremental-answer", "answer " + status_to_string(st) + " but the clauses so far are " + (want ? "satisfiable" : "unsatisfiable"));
    if (st == status::SAT) S.check_model();
    if (S.unsat && st != status::UNSAT) S.fail("unsat-forgotten", "an unsatisfiable clause set became " + status_to_string(st));
  };
  size_t i = 0; bool ended = false;
  while (i < f.size() && !S.failed()) {
    size_t k = 1 + r.below(5);
    while (k-- && i < f.size()) S.add(f[i++], &r);
    switch (r.below(5)) {
      case 0: case 1: { bool was = S.unsat; status st = S.do_solve(); if (was && st != status::UNSAT) S.fail("unsat-forgotten", "UNSAT then " + status_to_string(st)); check(st); break; }
      case 2: walk(S, r, (int)r.below(8), [] {}); if (get_status(S.s) != status::UNKNOWN) check(get_status(S.s)); break;
      case 3: if (r.chance(30)) { unsigned n = S.nvars(); Tvar v = new_variable(S.s); S.note("newvar"); if (v.value != n + 1 || S.nvars() != n + 1) S.fail("new-variable", "new_variable gave " + to_string(v.value) + " after " + to_string(n)); } break;
      default: break;
    }
    if (S.unsat && r.chance(50)) { ended = true; if (r.chance(50)) break; }
  }
  (void)ended;
  if (!S.failed()) check(S.do_solve());
  // nothing may revive an unsatisfiable set
  if (!S.failed() && S.unsat) {
    for (int k = 0; k < 3 && !S.failed(); k++) {
      int n = max(1, oracle::max_var(S.m.input));
      S.add(gen::rand_clause(r, n, (int)r.range(1, min(n, 3))), &r);
      if (get_status(S.s) != status::UNSAT) S.fail("unsat-forgotten", "adding a clause turned UNSAT into " + status_to_string(get_status(S.s)));
      else if (S.do_solve() != status::UNSAT) S.fail("unsat-forgotten", "solving again after UNSAT answers differently");
      c.count("after_unsat");
    }
  }
  if (answers > 1) c.nontrivial(fnv(S.trace) ^ fnv(g.tag));
  c.sample(g.text() + " family " + fam + ": " + S.trace.substr(0, 300));
  tally(c, S);
}

// ------------------------------------------------------------------ C07
static void w_allmodels(Ctx& c, Rng& r) {
  string fam; Cnf f; int n;
  switch (r.below(4)) {
    case 0: n = (int)r.range(2, 9); f = gen::mixed(r, n, 0.5 + r.below(200) / 100.0); fam = "mixed"; break;
    case 1: n = (int)r.range(3, 9); f = gen::planted(r, n, 3, 1.0 + r.below(250) / 100.0); fam = "planted"; break;
    case 2: n = (int)r.range(3, 8); f = gen::xors(r, n, (int)r.below(n)); fam = "xor"; break;
    default: f = gen::formula(r, 0, &fam); n = oracle::max_var(f); break;
  }
  if (r.chance(30)) dirty(r, f);
  Config g = make_config(r, r.chance(30));
  preset(r, g, f);
  g.n_var = min<unsigned>(g.n_var, max(9, oracle::max_var(f)));
  Session S(c, g); S.mode = (int)r.below(3); S.m.step_limit = 30000000; S.open(); maybe_weights(S, r);
  for (auto& cl : f) S.add(cl, &r);
  int nv = (int)S.nvars();
  if (nv > 11) return;
  uint64_t want; { oracle::Dpll d(nv, S.m.input); want = d.count(nv); }
  Cnf orig = S.m.input;
  set<string> seen; bool sync = r.chance(80);
  while (!S.failed() && S.do_solve() == status::SAT) {
    if (sync) synchronize(S.s);
    Clause mdl; for (Tlit l : get_partial_assignment(S.s)) mdl.push_back(D(l));
    Clause key = mdl; sort(key.begin(), key.end());
    for (auto& cl : orig) { bool ok = false; for (int l : cl) if (find(key.begin(), key.end(), l) != key.end()) ok = true; if (!ok) S.fail("enumerated-non-model", oracle::str(key) + " falsifies " + oracle::str(cl)); }
    if ((int)key.size() != nv) S.fail("enumerated-partial", "model with " + to_string(key.size()) + " of " + to_string(nv) + " variables");
    if (!seen.insert(oracle::str(key)).second) { S.fail("model-twice", oracle::str(key)); break; }
    if (seen.size() > want) { S.fail("too-many-models", to_string(seen.size())); break; }
    for (int& l : mdl) l = -l;
    S.add(mdl, &r);
  }
  if (!S.failed() && seen.size() != want) S.fail("model-count", "enumerated " + to_string(seen.size()) + " models, there are " + to_string(want));
  c.count("models", seen.size()); c.count("enumerations");
  if (want > 1) c.nontrivial(fp_formula(f, g.tag));
  c.sample(g.text() + " family " + fam + ": " + to_string(nv) + " variables, " + to_string(want) + " models, all met once");
  tally(c, S);
}

// ------------------------------------------------------------------ C08
static void proof_case(Ctx& c, Rng& r, bool lcm) {
  string fam; Cnf f; int want;
  switch (r.below(6)) {
    case 0: f = big_formula(r, 1, want, fam); break;
    case 1: { int n = (int)r.range(4, 20); f = gen::random_ksat(r, n, 3, 5 + r.below(200) / 100.0); fam = "unsat3"; break; }
    case 2: f = gen::formula(r, 2, &fam); break;
    case 3: { int n = (int)r.range(3, 12); f = gen::mixed(r, n, 3 + r.below(200) / 100.0); fam = "mixed"; break; }
    default: f = gen::formula(r, (int)r.below(2), &fam); break;
  }
  if (r.chance(40)) dirty(r, f);
  Config g = make_config(r, r.chance(20), true);
  while (g.lcm() != lcm) { g.strat = pick_strategy(r); g.tag = tag_of(g.strat); if (lcm) { g.extra = extra_options(r, true); } }
  preset(r, g, f);
  Session S(c, g); S.mode = (int)r.below(3); S.open(); maybe_weights(S, r);
  bool inc = r.chance(50); size_t i = 0;
  while (i < f.size() && !S.failed()) {
    size_t k = inc ? 1 + r.below(6) : f.size();
    while (k-- && i < f.size()) S.add(f[i++], &r);
    if (get_status(S.s) == status::UNSAT) { S.unsat = true; break; }
    if (inc && i < f.size()) { if (r.chance(50)) S.do_solve(); else walk(S, r, (int)r.below(6), [] {}); if (get_status(S.s) == status::UNSAT) { S.unsat = true; break; } }
  }
  if (S.do_solve() == status::UNSAT) {
    if (r.chance(20)) { S.add(gen::rand_clause(r, 5, 2), &r); c.count("clause_after_unsat"); }
    bool ok; string text;
    { Capture cap; ok = check_proof(S.s); }
    { Capture cap; print_proof(S.s); text = cap.str(); }
    string e = audit_proof(c, text, S.m.input);
    if (e == NO_EMPTY) S.fail("proof-no-empty-clause", e);
    else if (!e.empty()) S.fail("proof-invalid", e);
    if (!ok) S.fail("proof-rejected", "the solver's own checker rejects the proof");
    { Capture cap; if (!check_proof(S.s)) S.fail("proof-rejected", "the proof is rejected the second time"); }
    c.count("proofs"); c.nontrivial(fnv(text));
    c.sample(g.text() + " family " + fam + ": " + to_string(count(text.begin(), text.end(), '\n')) + " lines audited");
  } else c.count("no_proof_needed");
  tally(c, S);
}

static void w_proof(Ctx& c, Rng& r) { proof_case(c, r, false); }
static void w_proof_lcm(Ctx& c, Rng& r) { proof_case(c, r, true); }

// ------------------------------------------------------------------ C10
// Without restarts and deletions (whose schedule depends on where a run was interrupted) the limits must not change the
// search at all, and each run must meet the number of conflicts it was allowed.
static void limits_exact(Ctx& c, Rng& r) {
  string fam; Cnf f; int want = -1;
  if (r.chance(50)) f = big_formula(r, 1, want, fam); else f = gen::formula(r, (int)r.range(1, 2), &fam);
  Config g = make_config(r, true);
  for (size_t i = 0; i < g.extra.size();) if (g.extra[i] == "--restarts" || g.extra[i] == "-del") g.extra.erase(g.extra.begin() + i, g.extra.begin() + i + 2); else i++;
  g.extra.insert(g.extra.end(), {"--restarts", "off", "-del", "off"});
  unsigned mode = (unsigned)r.below(2);
  struct End { status st = status::UNKNOWN; unsigned unknowns = 0; bool first_unknown = false; uint64_t path = 0, learned = 0; bool capped = false; bool failed = false; };
  // limit < 0: no limit
  auto run = [&](long limit, unsigned cap) {
    Session S(c, g); S.mode = (int)mode; S.open(); End e;
    for (auto& cl : f) S.add(cl);
    while (!S.failed()) {
      S.note(limit < 0 ? string("solve") : "solve_limited(" + to_string(limit) + ")");
      e.st = limit < 0 ? solve(S.s) : solve_limited(S.s, (unsigned)limit);
      S.calls++; S.note(status_to_string(e.st));
      if (e.st != status::UNKNOWN) break;
      if (limit < 0) { S.fail("unlimited-unknown", "solve without a limit answers UNKNOWN"); break; }
      if (e.unknowns++ == 0) e.first_unknown = true;
      if (e.unknowns >= cap) { e.capped = true; break; }
    }
    if (!S.failed() && e.st == status::SAT) S.check_model();
    e.path = S.m.path; e.learned = S.m.n_learned; e.failed = S.failed(); tally(c, S); return e;
  };
  const unsigned CAP = 2500;
  End step = run(0, CAP); if (step.failed || step.capped) return;
  const long N = step.unknowns; // each call of limit 0 stops at its first conflict
  End whole = run(-1, 0); if (whole.failed) return;
  auto differ = [&](const char* what, long limit, const End& e, const string& d) {
    Session S(c, g); S.note("limit " + to_string(limit)); S.fail(what, d + " (limit " + to_string(limit) + ", " + to_string(N) + " conflicts in all, " + to_string(e.unknowns) + " interruptions) on " + oracle::str(f)); };
  auto same = [&](const End& e, long limit) {
    if (e.st != whole.st) { differ("limit-changes-verdict", limit, e, status_to_string(e.st) + " instead of " + status_to_string(whole.st)); return false; }
    if (e.path != whole.path || e.learned != whole.learned) { differ("limit-changes-search", limit, e, "the assignments or learned clauses differ from those of the unlimited run"); return false; }
    return true; };
  if (!same(step, 0)) return;
  for (int k = 0; k < 3; k++) {
    long L = k == 0 ? N + (long)r.below(3) : k == 1 ? (long)r.below(N + 1) : (long)r.below(min(N, 12l) + 1);
    End e = run(L, CAP); if (e.failed || e.capped) return;
    c.count("exact_limit_runs");
    if (!same(e, L)) return;
    if (L > N && e.first_unknown) { differ("limit-stops-early", L, e, "stopped although the limit exceeds the number of conflicts"); return; }
    // at most L+1 conflicts are met by a run, and at least L by a run that is interrupted
    if (e.unknowns > N / max(L, 1l) + 1) { differ("limit-stops-early", L, e, "too many interruptions"); return; }
    if ((long)e.unknowns + 1 < N / (L + 2)) { differ("limit-ignored", L, e, "too few interruptions"); return; }
    if (e.unknowns) c.count("exact_interruptions", e.unknowns);
  }
  if (N) c.nontrivial(fp_formula(f, g.tag) ^ whole.path);
}
static void w_limits(Ctx& c, Rng& r) {
  if (r.chance(35)) { limits_exact(c, r); return; }
  string fam; Cnf f; int want = -1;
  if (r.chance(40)) f = big_formula(r, 1, want, fam); else f = gen::formula(r, (int)r.range(1, 2), &fam);
  if (want < 0) { oracle::Dpll d(0, f, 4000000); want = d.solve(); }
  Config g = make_config(r, r.chance(50));
  bool by_option = r.chance(30); unsigned optlim = (unsigned)r.below(30);
  if (by_option) { g.extra.push_back("-cl"); g.extra.push_back(to_string(optlim)); }
  Session S(c, g); S.mode = (int)r.below(3); S.open(); maybe_weights(S, r);
  for (auto& cl : f) S.add(cl, &r);
  unsigned interrupted = 0, rounds = 0;
  status st = get_status(S.s);
  while (!S.failed() && st == status::UNKNOWN && rounds++ < 4000) {
    unsigned lim = rounds > 60 ? 1000000 : (unsigned)r.below(r.chance(50) ? 3 : 40);
    uint64_t learned_before = S.m.n_learned;
    if (by_option && rounds == 1) { lim = optlim; S.note("solve"); st = solve(S.s); }
    else { S.note("solve_limited(" + to_string(lim) + ")"); st = solve_limited(S.s, lim); }
    S.calls++; S.note(status_to_string(st));
    if (get_status(S.s) != st) S.fail("status-differs", "get_status differs from the answer");
    if (st == status::UNKNOWN) {
      interrupted++; S.check_assignment_view();
      // a conflict teaches at most a few clauses: an ignored limit shows as unbounded learning
      if (g.observe && S.m.n_learned - learned_before > 8ull * (lim + 2)) S.fail("limit-ignored", to_string(S.m.n_learned - learned_before) + " clauses learned under a limit of " + to_string(lim) + " conflicts");
    } else if (st != status::SAT && st != status::UNSAT) S.fail("no-verdict", status_to_string(st));
    if (st == status::UNKNOWN && r.chance(20) && !by_option) { walk(S, r, (int)r.below(3), [&] { S.check_complete(false); }); st = get_status(S.s); }
  }
  if (!S.failed() && st == status::UNKNOWN) S.fail("no-verdict", "no verdict after many resumptions");
  if (!S.failed() && st == status::SAT) S.check_model();
  if (!S.failed() && want >= 0 && st != (want ? status::SAT : status::UNSAT)) S.fail("wrong-verdict-after-resume", "answer " + status_to_string(st) + " after " + to_string(interrupted) + " interruptions, expected " + (want ? "SAT" : "UNSAT"));
  c.count("interruptions", interrupted); c.count(interrupted ? "interrupted_runs" : "uninterrupted_runs");
  if (interrupted) c.nontrivial(fp_formula(f, g.tag) ^ fnv(S.trace));
  c.sample(g.text() + " family " + fam + ": " + to_string(interrupted) + " interruptions then " + status_to_string(st));
  tally(c, S);
}

int main(int argc, char** argv) {
  env::set_suppress_info(true); env::set_suppress_warning(true);
  env::set_invariant_configuration_folder(string(getenv("VF_REPO") ? getenv("VF_REPO") : "/repo") + "/invariant-configurations/");
  return run_main(argc, argv, {
    {"models", w_models}, {"verdict", w_verdict}, {"learned", w_learned}, {"trail", w_trail}, {"propagation", w_propagation},
    {"incremental", w_incremental}, {"allmodels", w_allmodels}, {"proof", w_proof}, {"proof_lcm", w_proof_lcm}, {"limits", w_limits}, {"wide", w_wide}, {"deep", w_deep},
  });
}
