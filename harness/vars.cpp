// C29: which variables exist and which get assigned. C32: which literal a decision picks.
#include "session.hpp"
using namespace napsat; using namespace std; using namespace vf;
using oracle::Cnf; using oracle::Clause;

// ------------------------------------------------------------------ C29
struct Names : Mon { // the variables the observer is told of
  vector<unsigned> told; void add_variable(unsigned v) override { Mon::add_variable(v); told.push_back(v); }
};
static void w_variables(Ctx& c, Rng& r) {
  Config g = make_config(r, r.chance(50), r.chance(15)); bool iuv = r.chance(40); if (iuv) g.extra.push_back("-iuv");
  g.n_var = r.chance(30) ? 0 : r.chance(70) ? (unsigned)r.below(12) : (unsigned)r.below(200); g.n_cl = r.chance(50) ? 0 : (unsigned)r.below(40);
  Session S(c, g); S.mode = 0; S.m.step_limit = 20000000;
  vector<string> t = g.strat; t.insert(t.end(), g.extra.begin(), g.extra.end()); if (g.observe) t.push_back("-o"); if (g.proof) t.push_back("-bp");
  Names nm; nm.key_tag = g.tag; nm.label = g.text();
  S.opts = make_unique<options>(t); sentinel::current_monitor() = g.observe ? &nm : nullptr; S.s = create_solver(g.n_var, g.n_cl, *S.opts); sentinel::current_monitor() = nullptr;
  unsigned want = g.n_var; set<unsigned> used; bool created = false, mixed = false; Cnf f = gen::formula(r, 0); size_t next = 0; if (f.size() > 60) f.resize(60);
  // spread the variables, so that some are never used
  if (r.chance(60)) { int k = (int)r.range(1, 3), o = (int)r.below(4); for (auto& cl : f) for (int& l : cl) l = l > 0 ? l * k + o : l * k - o; }
  bool pending = false; // a clause is being written
  string what = "creation";
  auto look = [&] {
    if (variables_count(S.s) != want) { S.fail("variables-count", what + ": " + to_string(variables_count(S.s)) + " variables exist and not " + to_string(want)); return false; }
    if (g.observe) { if (nm.told.size() != want) { S.fail("variables-told", what + ": the observer was told of " + to_string(nm.told.size()) + " of " + to_string(want) + " variables"); return false; }
      for (unsigned i = 0; i < want; i++) if (nm.told[i] != i + 1) { S.fail("variables-told", what + ": variable " + to_string(i + 1) + " is told as " + to_string(nm.told[i])); return false; } }
    for (Tlit l : get_partial_assignment(S.s)) { unsigned v = l.var().value; if (!v || v > want) { S.fail("unknown-variable-assigned", what + ": variable " + to_string(v)); return false; }
      if (iuv && !used.count(v)) { S.fail("unused-variable-assigned", what + ": variable " + to_string(v) + " occurs in no clause and is assigned"); return false; } }
    for (unsigned v = 1; v <= want; v++) { if (iuv && !used.count(v) && S.value((int)v)) { S.fail("unused-variable-assigned", what + ": variable " + to_string(v)); return false; } }
    c.count("counts_checked"); return true;
  };
  if (!look()) return;
  for (int i = 0, n = (int)r.range(4, 40); i < n; i++) {
    if (get_status(S.s) == status::ERROR) return;
    switch (r.below(8)) {
      case 0: case 1: { Tvar v = new_variable(S.s); want++; what = "new_variable"; S.note(what); created = true; if (v.value != want) { S.fail("new-variable", "the new variable is " + to_string(v.value) + " and not " + to_string(want)); return; } c.count("created"); break; }
      case 2: case 3: case 4: { Clause cl; if (next < f.size() && r.chance(70)) cl = f[next++]; else for (int k = (int)r.range(1, 4); k; k--) cl.push_back((int)r.range(1, want + 3) * (r.chance(50) ? 1 : -1));
          if (r.chance(4)) cl.push_back(-cl[0]); if (r.chance(4)) cl.push_back(cl[0]);
          S.mode = r.chance(60) ? 0 : 1; for (int l : cl) { want = max(want, (unsigned)abs(l)); used.insert((unsigned)abs(l)); } what = "adding " + oracle::str(cl);
          if (S.mode == 1) { set<int> vs; for (int l : cl) vs.insert(abs(l)); if (vs.size() == cl.size()) { // the variables exist as soon as they are pushed
              S.m.input.push_back(cl); S.note("push(" + oracle::str(cl) + ")"); start_new_clause(S.s); for (int l : cl) { push_literal(S.s, L(l)); if (variables_count(S.s) < (unsigned)abs(l)) { S.fail("variables-count", "variable of a pushed literal does not exist"); return; } } finalize_clause(S.s); break; } }
          S.mode = 0; S.add(cl); if (created) mixed = true; break; }
      case 5: { S.do_solve(); what = "solve"; if (get_status(S.s) == status::SAT) {
            for (auto& cl : S.m.input) { bool sat = false; for (int l : cl) for (int o : cl) sat |= l == -o; for (int l : cl) sat |= S.lv(l) > 0; if (!sat) { S.fail("not-a-model", oracle::str(cl) + "is not satisfied"); return; } }
            if (!iuv) for (unsigned v = 1; v <= want; v++) if (!S.value((int)v)) { S.fail("model-not-total", "variable " + to_string(v) + " has no value"); return; }
            c.count(iuv ? "models_with_free_variables" : "total_models"); for (unsigned v = 1; v <= want; v++) if (!S.value((int)v)) c.count("free_variables"); } break; }
      case 6: { if (get_status(S.s) == status::UNKNOWN && propagate(S.s)) { decide(S.s); what = "decide"; S.note(what); } break; }
      default: { unsigned v = 0; if (want && r.chance(50)) { v = (unsigned)r.range(1, want); suggest_polarity(S.s, L((int)v), r.chance(50)); what = "suggest_polarity"; S.note(what); } break; }
    }
    if (!look()) return;
  }
  (void)pending;
  status st = S.do_solve(); what = "solve"; if (!look()) return;
  // the answer does not depend on variables that are only created
  int q = oracle::implied(S.m.input, {}, (int)want, 500000);
  if ((st == status::SAT && q == 1) || (st == status::UNSAT && q == 0)) { S.fail("wrong-verdict", "with " + to_string(want) + " variables"); return; }
  if (mixed) c.count("mixed_histories"); c.count(iuv ? "ignoring_unused" : "using_all"); c.count("variables", want); c.count("strat:" + g.tag);
  c.nontrivial(fnv(S.trace)); c.sample(g.text() + ": " + to_string(want) + " variables, " + to_string(used.size()) + " used: " + S.trace.substr(0, 250));
}
// the variables of a parsed formula
static void w_parsed(Ctx& c, Rng& r) {
  Config g = make_config(r, false); g.n_var = (unsigned)r.below(15); g.n_cl = 0; Session S(c, g); S.open();
  unsigned n = (unsigned)r.below(40), mx = 0; string text = "p cnf " + to_string(n) + " "; Cnf f; int k = (int)r.below(15);
  for (int i = 0; i < k; i++) { Clause cl; for (int j = (int)r.range(1, 4); j; j--) { int l = (int)r.range(1, max(1u, n)) * (r.chance(50) ? 1 : -1); cl.push_back(l); mx = max(mx, (unsigned)abs(l)); } f.push_back(cl); }
  text += to_string(k) + "\n"; for (auto& cl : f) text += oracle::str(cl) + "0\n";
  string path = c.scratch + "/v.cnf"; FILE* o = fopen(path.c_str(), "w"); fputs(text.c_str(), o); fclose(o);
  if (!parse_dimacs(S.s, path.c_str())) { S.fail("parse-refused", text); return; }
  unsigned low = max(g.n_var, mx), high = max(low, n), got = variables_count(S.s);
  if (got < low || got > high) { S.fail("variables-count", "after parsing, " + to_string(got) + " variables exist: " + text); return; }
  if (S.do_solve() == status::SAT) for (unsigned v = 1; v <= got; v++) if (!S.value((int)v)) { S.fail("model-not-total", text); return; }
  c.count("parsed"); c.nontrivial(fnv(text)); c.sample(to_string(got) + " variables: " + text.substr(0, 200));
}

// ------------------------------------------------------------------ C32
struct Picker : Mon {
  sentinel::SATSentinel* sent = nullptr; Session* S = nullptr; int asked = 0; bool automatic = true; bool iuv = false; set<unsigned> used; map<unsigned, bool> suggested;
  uint64_t n_auto = 0, n_user = 0, n_suggested = 0, n_ranked = 0, n_strict = 0; unsigned nvars = 0;
  unsigned every = 1; bool rewrites = false, single = false;
  double activity(unsigned v) { string t = sent->var_detail(sentinel::Tvar(v)); size_t k = t.find("vsids: "); return k == string::npos ? -1 : atof(t.c_str() + k + 7); }
  void add_variable(unsigned v) override { Mon::add_variable(v); nvars = max(nvars, v); }
  // the variables used: those of the clauses kept (one satisfied at level 0, or a tautology, is dropped as soon as it is announced)
  vector<unsigned> fresh; unsigned fresh_id = UNDEF;
  void flush() { used.insert(fresh.begin(), fresh.end()); fresh.clear(); fresh_id = UNDEF; }
  void add_clause(unsigned id, const unsigned* l, unsigned n, bool external) override { flush(); Mon::add_clause(id, l, n, external); if (external) { fresh_id = id; for (unsigned i = 0; i < n; i++) fresh.push_back(l[i] >> 1); } }
  void delete_clause(unsigned id) override { if (id == fresh_id) { fresh.clear(); fresh_id = UNDEF; } Mon::delete_clause(id); }
  void assign(unsigned lit, unsigned reason) override {
    flush(); int l = dim(lit); unsigned v = lit >> 1; bool was = val(l) != 0; Mon::assign(lit, reason);
    if (reason != UNDEF) return;
    if (was) { fail("decided-assigned", to_string(l) + " is decided while its variable is assigned"); return; }
    if (!automatic) { n_user++; if (l != asked) fail("other-literal-decided", to_string(asked) + " was requested and " + to_string(l) + " is decided"); return; }
    // merging chunks eagerly rewrites the trail and notifies its decisions again: only the explicit decisions are judged
    if (rewrites && !single) { suggested.erase(v); n_auto++; return; }
    n_auto++;
    auto s = suggested.find(v); if (s != suggested.end()) { n_suggested++; if (s->second != (l > 0)) { fail("suggestion-ignored", "variable " + to_string(v) + " is decided " + to_string(l) + " against the suggestion"); return; } suggested.erase(s); }
    if (!sent || n_auto % every) return;
    double a = activity(v), best = -1; unsigned who = 0; bool strict = false; n_ranked++;
    for (unsigned u = 1; u <= nvars; u++) if (u != v && !val((int)u) && (!iuv || used.count(u))) { double b = activity(u); if (b < a) strict = true; if (b > best) { best = b; who = u; } }
    if (who && best > a) fail("not-the-most-active", "variable " + to_string(v) + " of activity " + to_string(a) + " is decided while " + to_string(who) + " of activity " + to_string(best) + " is unassigned");
    if (strict) n_strict++;
  }
};
static void w_decisions(Ctx& c, Rng& r) {
  Config g = make_config(r, false); bool iuv = r.chance(15); if (iuv) g.extra.push_back("-iuv"); if (r.chance(60)) { bool has = false; for (auto& e : g.extra) has |= e == "--var-activity-decay"; if (!has) { g.extra.push_back("--var-activity-decay"); g.extra.push_back(r.chance(50) ? "0.5" : "0.2"); } }
  Session S(c, g); int want; string fam; Cnf f = r.chance(12) ? big_formula(r, 1, want, fam) : gen::formula(r, (int)r.below(2), &fam);
  bool big = f.size() > 150; Picker pk; pk.key_tag = g.tag; pk.label = g.text(); pk.check_assign = true; pk.iuv = iuv; pk.step_limit = 20000000; pk.every = big ? 40 : 1; for (auto& e : g.strat) pk.rewrites |= e.find("-ecm") != string::npos;
  vector<string> t = g.strat; t.insert(t.end(), g.extra.begin(), g.extra.end()); t.push_back("-o"); S.opts = make_unique<options>(t);
  sentinel::current_monitor() = &pk; S.s = create_solver((unsigned)r.below(8), 0, *S.opts); sentinel::current_monitor() = nullptr; pk.sent = sentinel::last_sentinel();
  size_t next = 0; pk.input = {};
  auto give = [&](size_t k) { while (k-- && next < f.size()) { pk.input.push_back(f[next]); S.add(f[next++], &r); } };
  give(r.chance(50) ? f.size() : r.below(f.size() + 1));
  for (int i = 0, n = (int)r.below(30); i < n && !pk.failed; i++) {
    status st = get_status(S.s); if (st == status::ERROR || st == status::UNSAT) break;
    switch (r.below(8)) {
      case 0: case 1: if (st == status::UNKNOWN && propagate(S.s)) { uint64_t before = pk.n_auto; pk.single = true; decide(S.s); pk.single = false; S.note("decide"); if (pk.n_auto != before + 1 && !(iuv && get_status(S.s) == status::SAT)) { pk.fail("no-decision", "decide() took " + to_string(pk.n_auto - before) + " decisions after: " + S.trace); return; } } break;
      case 2: case 3: { if (st != status::UNKNOWN || !propagate(S.s)) break; vector<int> u; for (unsigned v = 1; v <= S.nvars(); v++) if (!S.value((int)v)) u.push_back((int)v); if (u.empty()) break; int l = r.pick(u) * (r.chance(50) ? 1 : -1);
          uint64_t before = pk.n_user; pk.automatic = false; pk.asked = l; decide(S.s, L(l)); pk.automatic = true; S.note("decide " + to_string(l));
          if (pk.n_user != before + 1 || S.lv(l) != 1 || !is_decided(S.s, L(l))) { pk.fail("request-ignored", "decide(" + to_string(l) + ") after: " + S.trace); return; } break; }
      case 4: case 5: { if (!S.nvars()) break; int v = (int)r.range(1, S.nvars()); bool pol = r.chance(50); suggest_polarity(S.s, L(r.chance(50) ? v : -v), pol); pk.suggested[(unsigned)v] = pol; S.note("suggest " + to_string(pol ? v : -v)); break; }
      case 6: give(1 + r.below(5)); break;
      default: if (r.chance(30)) { synchronize(S.s); S.note("synchronize"); } else if (r.chance(40)) { S.note("solve_limited"); solve_limited(S.s, (unsigned)r.below(6)); } break;
    }
  }
  give(f.size()); status st = get_status(S.s); if (st != status::ERROR && !pk.failed) st = S.do_solve();
  // block the model and go on: more conflicts, more decisions
  for (int i = 0; i < 6 && st == status::SAT && !pk.failed; i++) { Clause b; for (Tlit l : get_partial_assignment(S.s)) if (is_decided(S.s, l) || r.chance(20)) b.push_back(-D(l)); if (b.empty()) break; if (S.nvars()) { int v = (int)r.range(1, S.nvars()); bool pol = r.chance(50); suggest_polarity(S.s, L(v), pol); pk.suggested[(unsigned)v] = pol; } S.add(b, &r); st = S.do_solve(); }
  c.count("automatic_decisions", pk.n_auto); c.count("user_decisions", pk.n_user); c.count("suggestions_followed", pk.n_suggested); c.count("decisions_ranked", pk.n_ranked); c.count("strictly_ranked", pk.n_strict); c.count("events", pk.events);
  c.count("strat:" + g.tag); if (pk.n_auto) c.nontrivial(pk.path); c.sample(g.text() + " " + fam + ": " + to_string(pk.n_auto) + " decisions, " + to_string(pk.n_strict) + " above another variable: " + S.trace.substr(0, 200));
}

int main(int argc, char** argv) {
  env::set_suppress_info(true); env::set_suppress_warning(true);
  env::set_invariant_configuration_folder(string(getenv("VF_REPO") ? getenv("VF_REPO") : "/repo") + "/invariant-configurations/");
  return run_main(argc, argv, {{"variables", w_variables}, {"parsed", w_parsed}, {"decisions", w_decisions}});
}
