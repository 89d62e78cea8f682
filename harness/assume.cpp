// C14, C15: histories of adding and forgetting assumptions, clauses and searches (graph backtracking).
#include "session.hpp"
#include <filesystem>
#include <fstream>
#include <map>
#include "../src/solver/NapSAT.hpp"
using namespace napsat; using namespace std; using namespace vf;
using oracle::Cnf; using oracle::Clause;

#define TR() do { if (getenv("VF_TRACE")) { S.s->print_trail(); fprintf(stderr, "status %d\n", (int)get_status(S.s)); } } while (0)

struct History {
  Ctx& c; Rng& r; bool cores; Config g; Session S; int nv = 1;
  Cnf given; vector<int> as; map<unsigned, Clause> ids;

  static Config config(Rng& r, bool cores) {
    Config g = make_config(r, r.chance(50)); if (!g.gb()) { g.strat = strategies()[3 + r.below(strategies().size() - 3)]; g.extra = extra_options(r, true); g.tag = tag_of(g.strat); }
    if (cores) g.extra.push_back("--record-dependencies");
    g.n_var = r.chance(50) ? 0 : (unsigned)r.below(20);
    return g;
  }
  History(Ctx& c_, Rng& r_, bool cores_) : c(c_), r(r_), cores(cores_), g(config(r_, cores_)), S(c_, g) { S.mode = (int)r.below(3); S.m.step_limit = 20000000; S.open(); }

  string list(const vector<int>& v) { return "{" + oracle::str(v) + "}"; }
  void held(const char* where) {
    for (int a : as) { c.count("held_checks"); if (S.lv(a) != 1) { S.fail("assumption-undone", "assumption " + to_string(a) + " is no longer true after " + where); return; } }
  }
  void add(const Clause& cl) {
    Tclause id = S.add(cl, &r); given.push_back(cl); nv = max(nv, oracle::max_var({cl}));
    if (id != CLAUSE_UNDEF) ids[id.value] = cl;
    held("adding a clause");
  }
  bool assumed(int v) { for (int a : as) if (abs(a) == v) return true; return false; }
  void assume() {
    int n = (int)S.nvars(); if (!n) return;
    vector<int> ls;
    for (int k = (int)(r.chance(75) ? 1 : r.range(0, 3)); k > 0; k--) {
      int v = (int)r.range(1, n); bool dup = assumed(v) && r.chance(90); for (int l : ls) if (abs(l) == v) dup = true;
      if (!dup) ls.push_back(r.chance(50) ? v : -v);
    }
    if (ls.size() == 1 && r.chance(80)) {
      int l = ls[0], val = S.lv(l); string kind = val == 0 ? "undef" : val < 0 ? "false" : is_root_level(S.s, Tvar((unsigned)abs(l))) ? "root" : is_decided(S.s, L(l)) ? "decided" : "true";
      fprintf(stderr, "TAG assume-%s\n", kind.c_str()); S.note("assume(" + to_string(l) + ":" + kind + ")");
      bool ok; { Capture q; ok = add_assumption(S.s, L(l)); } TR();
      c.count("assume-" + kind + (ok ? "-accepted" : "-refused")); c.count(ok ? "accepted" : "refused");
      judge(ls, ok);
    } else {
      vector<Tlit> t; for (int l : ls) t.push_back(L(l));
      S.note("assume" + list(ls)); fprintf(stderr, "TAG assume-list\n");
      bool ok; { Capture q; ok = add_assumption(S.s, t); } TR();
      c.count(ok ? "list-accepted" : "list-refused");
      judge(ls, ok);
    }
  }
  void judge(const vector<int>& ls, bool ok) {
    if (ok) {
      for (int l : ls) { if (S.lv(l) != 1) S.fail("assumed-not-true", to_string(l) + " was accepted as assumption but is not true"); if (find(as.begin(), as.end(), l) == as.end()) as.push_back(l); }
    } else {
      vector<int> q = as; q.insert(q.end(), ls.begin(), ls.end());
      if (oracle::solve(given, max(nv, (int)S.nvars()), q) == 1) S.fail("refused", list(ls) + " refused though the clauses are satisfiable with it and the assumptions " + list(as));
      // of a refused list, those that could be assumed may hold now: forget them, so that the assumptions are known
      if (ls.size() != 1) for (int l : ls) if (!assumed(abs(l))) forget_assumption(S.s, L(l));
    }
    held("assuming");
  }
  void forget() {
    fprintf(stderr, "TAG forget\n");
    if (r.chance(25)) { S.note("forget()"); forget_assumption(S.s); c.count("forgotten_all"); as.clear(); TR(); return; }
    if (r.chance(10)) { // not an assumption
      vector<int> q; for (unsigned v = 1; v <= S.nvars(); v++) if (!assumed((int)v)) q.push_back((int)v);
      if (!q.empty()) { int v = r.pick(q); S.note("forget(" + to_string(v) + ":none)"); c.count("forgotten_none"); if (forget_assumption(S.s, L(v))) S.fail("forgot-nothing", to_string(v) + " was forgotten but was not assumed"); }
      return;
    }
    if (as.empty()) return;
    size_t k = r.below(as.size()); int a = as[k]; S.note("forget(" + to_string(a) + ")");
    bool root = is_root_level(S.s, Tvar((unsigned)abs(a))), ok = forget_assumption(S.s, L(a)); TR();
    if (!ok && !root) S.fail("forget-refused", "forgetting assumption " + to_string(a) + " was refused");
    as.erase(as.begin() + k); c.count("forgotten"); held("forgetting " "another");
  }
  void answer(status st) {
    c.count(st == status::SAT ? "sat" : st == status::UNSAT ? "unsat" : "unknown");
    if (!as.empty()) c.count(st == status::SAT ? "sat_under_assumptions" : "unsat_under_assumptions");
    if (st == status::SAT) {
      held("finding a model");
      for (auto& cl : given) { bool s = false; for (int l : cl) if (S.lv(l) == 1) s = true; if (!s) { S.fail("model-clause", "the model falsifies " + oracle::str(cl)); break; } }
    } else if (st == status::UNSAT) {
      if (oracle::solve(given, max(nv, (int)S.nvars()), as) == 1) S.fail("unsat", "UNSAT though the clauses are satisfiable with the assumptions " + list(as));
      else if (cores) core();
    } else S.fail("no-answer", "a search without limit ended without answer");
  }
  void core() {
    fprintf(stderr, "TAG unsat_core\n");
    vector<int> q; for (Tlit l : unsat_core(S.s)) q.push_back(-D(l)); // the falsified literals of the conflict
    S.note("core" + list(q)); c.count("cores"); c.count("core_literals", q.size()); if (q.size() < as.size()) c.count("cores_smaller");
    if (oracle::solve(given, max(nv, (int)S.nvars()), {}) == 1) c.count("cores_needing_assumptions");
    for (int l : q) if (find(as.begin(), as.end(), l) == as.end()) { S.fail("core-not-assumed", to_string(l) + " of the core is not assumed: " + list(as)); return; }
    if (oracle::solve(given, max(nv, (int)S.nvars()), q) == 1) { S.fail("core-satisfiable", "the clauses are satisfiable with the core " + list(q)); return; }
    fprintf(stderr, "TAG clause_unsat_core\n");
    Cnf cc; auto cl = clause_unsat_core(S.s); string t;
    for (Tclause k : cl) { auto it = ids.find(k.value); t += to_string(k.value) + " "; if (it == ids.end()) { S.fail("clause-core-unknown", "clause " + to_string(k.value) + " of the core was never given"); return; } cc.push_back(it->second); }
    S.note("clause core " + t); c.count("clause_cores"); c.count("core_clauses", cc.size()); if (cc.size() < given.size()) c.count("clause_cores_smaller");
    if (oracle::solve(cc, max(nv, (int)S.nvars()), as) == 1) { S.fail("clause-core-satisfiable", "the clauses of the core are satisfiable with the assumptions " + list(as)); return; }
    if (auto again = clause_unsat_core(S.s); again != cl) S.fail("clause-core-changes", "asked again, the core is another");
  }
  void run() {
    string fam; Cnf f = gen::formula(r, (int)r.below(2), &fam);
    for (auto& cl : f) { sort(cl.begin(), cl.end()); cl.erase(unique(cl.begin(), cl.end()), cl.end()); }
    size_t i = 0; unsigned steps = (unsigned)r.range(4, 40); bool early = r.chance(40);
    if (early) for (; i < f.size() / 2; i++) add(f[i]);
    while (steps-- && !S.failed()) {
      status st = get_status(S.s); if (st == status::ERROR) break;
      switch (r.below(13)) {
        case 0: case 1: case 2: for (int k = (int)r.range(1, 8); k > 0 && i < f.size() && !S.failed(); k--) add(f[i++]); break;
        case 3: case 4: case 5: assume(); break;
        case 6: case 7: forget(); break;
        case 8: case 9: S.note("solve"); fprintf(stderr, "TAG solve\n"); c.count("solves"); answer(solve(S.s)); break;
        case 10: S.note("propagate"); propagate(S.s); held("propagating"); break;
        case 11: if (st != status::UNKNOWN) break; S.note("limited"); fprintf(stderr, "TAG limited\n"); c.count("limited"); { status l = solve_limited(S.s, (unsigned)r.below(6)); held("a limited search"); if (l != status::UNKNOWN) answer(l); } break;
        case 12: if (st == status::UNKNOWN && propagate(S.s)) { vector<int> u; for (unsigned v = 1; v <= S.nvars(); v++) if (!S.value((int)v)) u.push_back((int)v); if (!u.empty()) { int l = r.pick(u) * (r.chance(50) ? 1 : -1); S.note("decide(" + to_string(l) + ")"); decide(S.s, L(l)); } } break;
      }
      TR();
    }
    if (S.failed()) return;
    for (; i < f.size() && !S.failed(); i++) add(f[i]);
    if (!S.failed()) { S.note("solve"); answer(solve(S.s)); }
    if (!S.failed()) { S.note("forget()"); forget_assumption(S.s); as.clear(); S.note("solve"); answer(solve(S.s)); c.count("solves_after_forgetting"); }
    c.count("strat:" + g.tag); c.nontrivial(fnv(S.trace) ^ fnv(g.text()));
    c.sample(g.text() + " family " + fam + ": " + S.trace.substr(0, 400));
  }
};
static void w_assume(Ctx& c, Rng& r) { History h(c, r, false); h.run(); }
static void w_cores(Ctx& c, Rng& r) { History h(c, r, true); h.run(); }
int main(int argc, char** argv) {
  env::set_suppress_info(true); env::set_suppress_warning(true);
  env::set_invariant_configuration_folder(string(getenv("VF_REPO") ? getenv("VF_REPO") : "/repo") + "/invariant-configurations/");
  return run_main(argc, argv, {{"assume", w_assume}, {"cores", w_cores}});
}
