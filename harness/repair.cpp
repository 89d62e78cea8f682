// C23: graph backtracking retracts a cheapest set of decisions, and exactly what depends on it.
#include "session.hpp"
using namespace napsat; using namespace std; using namespace vf;
using oracle::Cnf; using oracle::Clause;

struct Repairs : Mon {
  bool gb = false, minimal = false; double slack = 0; function<double(int)> cost; Session* S = nullptr;
  // one retraction: literals retracted in a row, and the state before it
  bool open = false, merged = false, rewrite = false; set<int> gone; vector<pair<int, unsigned>> before; vector<Clause> false_before; map<unsigned, vector<int>> reasons; vector<int> decisions;
  // what is to be judged once it is known whether something was learned
  bool pending = false; double got = 0, best = 0; string what; uint64_t learned_at = 0;
  uint64_t n_batches = 0, n_exact = 0, n_dependent = 0, n_kept = 0, n_conflicts = 0, n_judged = 0, n_several = 0, n_not_last = 0, n_saved = 0, n_forced = 0, n_sets = 0, n_rewrites = 0, n_multi = 0;
  void start() {
    open = true; gone.clear(); before.clear(); reasons.clear(); false_before.clear(); decisions.clear();
    settle();
    for (unsigned v : order) if (vars[v].val) { int l = vars[v].val > 0 ? (int)v : -(int)v; before.push_back({l, vars[v].reason}); if (vars[v].reason < 0xFFFFFFF0u) { auto it = cls.find(vars[v].reason); reasons[v] = it == cls.end() ? Clause() : it->second.lits; } else decisions.push_back(l); }
    for (auto& [i, k] : cls) if (k.alive && !k.lits.empty()) { bool f = true; for (int l : k.lits) if (val(l) >= 0) { f = false; break; } if (f) false_before.push_back(k.lits); }
  }
  void end() {
    if (!open) return;
    open = false; n_batches++;
    if (!gb) return;
    if (rewrite) { n_rewrites++; return; } // an eager merge moves the end of the trail, retracting nothing
    // which decisions each literal depends on
    if (decisions.size() > 60) return;
    map<int, uint64_t> dep; uint64_t B = 0; size_t nd = 0; map<int, int> at;
    for (auto& [l, r] : before) { if (r == UNDEF) { at[l] = (int)nd; dep[l] = 1ull << nd++; } else { uint64_t m = 0; for (int x : reasons[(unsigned)abs(l)]) if (abs(x) != abs(l)) m |= dep.count(-x) ? dep[-x] : 0; dep[l] = m; } }
    for (int l : gone) if (at.count(l)) B |= 1ull << at[l];
    uint64_t n = 0; for (auto& [l, r] : before) { bool want = dep[l] & B, is = gone.count(l); if (want) n++; else n_kept++;
      if (want != is) { fail(is ? "retracted-independent" : "kept-dependent", "literal " + to_string(l) + (is ? " is retracted and depends on none of the decisions retracted" : " is kept and depends on a decision retracted") + " after: " + (S ? S->trace : "")); return; } }
    n_exact++; n_dependent += n;
    if (false_before.empty()) return;
    n_conflicts++; if (__builtin_popcountll(B) > 1) n_several++; if (false_before.size() > 1) n_multi++;
    if (!minimal || nd > 9 || !nd) return;
    vector<uint64_t> hit; for (auto& c : false_before) { uint64_t m = 0; for (int l : c) m |= dep[-l]; hit.push_back(m); if (!m) return; } // a conflict of level 0
    auto price = [&](uint64_t b) { double s = 0; for (auto& [l, r] : before) if (dep[l] & b) s += cost(l); return s; };
    got = price(B); best = 1e300; double worst = 0; for (uint64_t b = 1; b < 1ull << nd; b++) { bool ok = true; for (uint64_t h : hit) if (!(h & b)) { ok = false; break; } if (!ok) continue; n_sets++; double p = price(b); best = min(best, p); if (__builtin_popcountll(b) == 1) worst = max(worst, p); }
    if (!(B >> (nd - 1) & 1)) n_not_last++;
    if (worst > best + 1e-6) n_saved++;
    what = "conflicts"; for (auto& c : false_before) what += " [" + oracle::str(c) + "]"; what += " decisions retracted:"; for (int l : gone) if (at.count(l)) what += " " + to_string(l); what += " of"; for (int l : decisions) what += " " + to_string(l);
    pending = true; learned_at = n_learned; best += slack * (double)before.size();
  }
  void settle() { // nothing more belongs to the last repair
    if (!pending) return;
    pending = false;
    if (n_learned == learned_at) { n_forced++; return; }
    n_judged++; if (got > best + 1e-6) fail("not-the-cheapest", "retracted literals of cost " + to_string(got) + " while " + to_string(best) + " suffices; " + what + " after: " + (S ? S->trace : ""));
  }
  void unassign(unsigned lit) override { if (!open) { start(); rewrite = merged; } gone.insert(dim(lit)); Mon::unassign(lit); }
  void assign(unsigned lit, unsigned r) override { end(); merged = false; Mon::assign(lit, r); }
  void add_clause(unsigned id, const unsigned* l, unsigned n, bool e) override { end(); merged = false; if (e) settle(); Mon::add_clause(id, l, n, e); }
  void propagate(unsigned lit) override { end(); merged = false; settle(); Mon::propagate(lit); }
  void update_reason(unsigned l, unsigned r) override { end(); Mon::update_reason(l, r); merged = true; }
  void check_invariants() override { end(); merged = false; settle(); Mon::check_invariants(); }
  void done() { end(); merged = false; settle(); }
};
static void w_cheapest(Ctx& c, Rng& r) {
  Config g = make_config(r, false); while (!g.gb()) g = make_config(r, false);
  Session S(c, g); string fam; Cnf f = gen::formula(r, (int)r.below(2), &fam); if (f.size() > 120) f.resize(120);
  Repairs m; m.key_tag = g.tag; m.label = g.text(); m.step_limit = 20000000; m.gb = true; m.S = &S; m.minimal = true; m.slack = 0.01;
  for (auto& x : g.strat) { if (x.find("approx") != string::npos || x == "-bl" || x == "-lcm") m.minimal = false; }
  for (size_t i = 0; i < g.extra.size(); i++) { if (g.extra[i] == "--backtrack-possibilities-limit") m.minimal = false; if (g.extra[i] == "--chunk-level-penalty") m.slack = atof(g.extra[i + 1].c_str()); }
  vector<string> t = g.strat; t.insert(t.end(), g.extra.begin(), g.extra.end()); t.push_back("-o"); S.opts = make_unique<options>(t);
  sentinel::current_monitor() = &m; S.s = create_solver(0, 0, *S.opts); sentinel::current_monitor() = nullptr;
  vector<double> w; for (int i = 0; i < 2000; i++) w.push_back(r.chance(25) ? 0 : r.chance(50) ? (double)r.below(10) : (double)r.below(1000) / 7); uint64_t asked = 0;
  bool own = r.chance(75); if (own) { set_weight_function(S.s, [&](Tlit l) -> double { asked++; return w[l.value % w.size()]; }); m.cost = [&](int l) { return w[L(l).value % w.size()]; }; } else m.cost = [](int) { return 1.0; };
  size_t next = 0; auto give = [&](size_t k) { while (k-- && next < f.size()) { m.input.push_back(f[next]); S.add(f[next++], &r); m.done(); } };
  give(r.chance(50) ? f.size() : r.below(f.size() + 1));
  for (int i = 0, n = (int)r.below(60); i < n && !m.failed; i++) {
    status st = get_status(S.s); if (st == status::ERROR || st == status::UNSAT) break;
    switch (r.below(10)) {
      case 0: case 1: if (st == status::UNKNOWN && propagate(S.s)) { m.done(); decide(S.s); S.note("decide"); } break;
      case 2: case 3: case 4: case 5: { if (st != status::UNKNOWN || !propagate(S.s)) break; m.done(); vector<int> u; for (unsigned v = 1; v <= S.nvars(); v++) if (!S.value((int)v)) u.push_back((int)v); if (u.empty()) break; int l = r.pick(u) * (r.chance(50) ? 1 : -1); decide(S.s, L(l)); S.note("decide " + to_string(l)); break; }
      case 6: case 7: give(1 + r.below(5)); break;
      case 8: synchronize(S.s); S.note("synchronize"); break;
      default: if (r.chance(30)) { S.note("solve_limited"); solve_limited(S.s, (unsigned)r.below(6)); } break;
    }
    m.done();
  }
  give(f.size()); status st = get_status(S.s); if (st != status::ERROR && !m.failed) st = S.do_solve(); m.done();
  for (int i = 0; i < 4 && st == status::SAT && !m.failed; i++) { Clause b; for (Tlit l : get_partial_assignment(S.s)) if (is_decided(S.s, l) || r.chance(20)) b.push_back(-D(l)); if (b.empty()) break; m.input.push_back(b); S.add(b, &r); m.done(); st = S.do_solve(); m.done(); }
  c.count("retractions", m.n_batches); c.count("exact", m.n_exact); c.count("retracted", m.n_dependent); c.count("kept", m.n_kept); c.count("repairs", m.n_conflicts); c.count("judged", m.n_judged); c.count("several_decisions", m.n_several); c.count("several_conflicts", m.n_multi); c.count("last_decision_kept", m.n_not_last); c.count("choice_matters", m.n_saved); c.count("without_learning", m.n_forced); c.count("rewrites", m.n_rewrites); c.count("sets_priced", m.n_sets); c.count(own ? "own_weights" : "unit_weights");
  c.count("strat:" + g.tag); if (m.n_conflicts) c.nontrivial(m.path); c.sample(g.text() + " " + fam + ": " + to_string(m.n_judged) + " of " + to_string(m.n_conflicts) + " repairs judged: " + S.trace.substr(0, 200));
}
int main(int argc, char** argv) {
  env::set_suppress_info(true); env::set_suppress_warning(true);
  env::set_invariant_configuration_folder(string(getenv("VF_REPO") ? getenv("VF_REPO") : "/repo") + "/invariant-configurations/");
  return run_main(argc, argv, {{"cheapest", w_cheapest}});
}
