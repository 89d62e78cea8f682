// C31: the invariants that each strategy documents hold whenever the solver announces a stable point.
#include "session.hpp"
#include <fstream>
using namespace napsat; using namespace std; using namespace vf;
using oracle::Cnf; using oracle::Clause;

struct Watcher : Mon {
  sentinel::SATSentinel* sent = nullptr;
  map<unsigned, map<int, int>> w;   // clause -> watched literal -> blocker
  bool ncb = false, gb = false, lazy = false; unsigned every = 1; bool probe = false;
  uint64_t n_points = 0, n_pairs = 0, n_registered = 0, n_false = 0, n_block = 0, n_levels = 0, n_topo = 0, n_moved = 0, n_skip = 0, n_compat = 0, n_chunks = 0, n_lazy = 0;
  map<string, uint64_t> broken; vector<string> conf; Rng* rng = nullptr; uint64_t n_agree = 0, n_reject = 0;
#ifdef NDEBUG
  bool told = false;
#else
  bool told = true;
#endif
  // the documented formulas
  bool holds(const string& f, int c1, int c2, int b) {
    if (!(val(c1) < 0 && info(c1).propagated)) return true;
    bool other = val(c2) < 0 && info(c2).propagated, t2 = val(c2) > 0, tb = val(b) > 0;
    if (f == "blocked_weak_watched_literals") return !other || tb;
    if (f == "blocked_strong_watched_literals") return t2 || tb;
    if (f == "blocked_backtrack_compatible_weak_watched_literals") return !other || (tb && level(b) <= level(c1));
    if (f == "blocked_backtrack_compatible_strong_watched_literals") return (t2 && level(c2) <= level(c1)) || (tb && level(b) <= level(c1));
    if (f == "blocked_lazy_backtrack_compatible_strong_watched_literals") return (t2 && lazy_level(c2) <= level(c1)) || (tb && lazy_level(b) <= level(c1));
    auto in = [&](int l) { auto& a = info(l).chunks; auto& d = info(c1).cross; return includes(d.begin(), d.end(), a.begin(), a.end()); };
    return (t2 && in(c2)) || (tb && in(b));
  }
  static sentinel::Tlit tl(int l) { return sentinel::Tlit(sentinel::Tvar((unsigned)abs(l)), l > 0); }
  // the invariants given to the observer say what is documented, on any literals
  void agree() {
    if (sent->invariants.size() != conf.size()) { bad("invariants-missing", to_string(sent->invariants.size()) + " watch invariants are given to the observer, and the configuration lists " + join(conf)); return; }
    vector<int> a; for (unsigned v : order) if (vars[v].val) a.push_back((int)v); if (a.empty()) return;
    for (int i = 0; i < 6; i++) {
      int l[3]; for (int& x : l) { x = rng->chance(10) && nv ? (int)rng->range(1, nv) : rng->pick(a); if (rng->chance(50)) x = -x; } if (val(l[0]) > 0) l[0] = -l[0];
      for (size_t k = 0; k < conf.size(); k++) { string err; bool got = sent->invariants[k]->check(tl(l[0]), tl(l[1]), tl(l[2]), err), want = holds(conf[k], l[0], l[1], l[2]); n_agree++; if (!want) n_reject++;
        if (got != want) bad("invariant-evaluated", conf[k] + " is " + (got ? "true" : "false") + " for " + to_string(l[0]) + ", " + to_string(l[1]) + ", blocker " + to_string(l[2])); }
    }
  }
  void bad(const string& k, const string& what) { if (probe) { broken[k]++; static int left = 6; if (left-- > 0) fprintf(stderr, "%s: %s\n", k.c_str(), what.c_str()); } else fail(k, what); }
  void watch(unsigned c, unsigned l) override { Mon::watch(c, l); if (w[c].count(dim(l))) bad("watched-twice", "clause " + cstr(c) + "is watched twice by " + to_string(dim(l))); w[c][dim(l)] = 0; n_moved++; }
  void unwatch(unsigned c, unsigned l) override { tick(); w[c].erase(dim(l)); }
  void block(unsigned c, unsigned b, unsigned l) override { tick(); n_block++; auto it = w[c].find(dim(l)); if (it == w[c].end()) { bad("block-unwatched", "clause " + cstr(c) + "gets a blocker for " + to_string(dim(l)) + " which does not watch it"); return; } it->second = dim(b); }
  void delete_clause(unsigned id) override { Mon::delete_clause(id); w.erase(id); }
  void check_invariants() override { Mon::check_invariants(); if (!failed && n_inv_checks % every == 0) look("announced"); }
  // what the solver tells the observer's interface of a variable
  struct Info { long level = -1; set<long> chunks, cross; vector<int> lazy; bool propagated = false; };
  map<unsigned, Info> cache;
  static set<long> numbers(const string& t, size_t k) { set<long> o; size_t e = t.find('\n', k); string l = t.substr(k, e - k); for (char* p = &l[0]; *p;) if (isdigit((unsigned char)*p)) o.insert(strtol(p, &p, 10)); else p++; return o; }
  const Info& info(int l) {
    unsigned v = (unsigned)abs(l); auto it = cache.find(v); if (it != cache.end()) return it->second;
    Info& o = cache[v]; string t = sent->var_detail(sentinel::Tvar(v)); t = t.substr(0, t.find("\nWatch list")) + "\n";
    auto at = [&](const char* n) -> size_t { size_t k = t.find(n); return k == string::npos ? k : k + strlen(n); };
    size_t k = at("δ: "); if (k != string::npos && isdigit((unsigned char)t[k])) o.level = atol(t.c_str() + k);
    k = at("γ: "); if (k != string::npos) o.chunks = numbers(t, k);
    k = at("η: "); if (k != string::npos) { o.cross = numbers(t, k); o.cross.insert(o.chunks.begin(), o.chunks.end()); }
    k = at("λ: "); if (k != string::npos && t[k] == 'C') { auto c = cls.find((unsigned)atol(t.c_str() + k + 1)); if (c != cls.end() && c->second.alive) o.lazy = c->second.lits; }
    o.propagated = t.find("propagated: true") != string::npos; return o;
  }
  long level(int l) { return info(l).level; }
  // the lowest level a literal is known to have
  long lazy_level(int l) { const Info& o = info(l); if (o.lazy.empty()) return o.level; n_lazy++; long m = 0; vector<int> z = o.lazy; for (int x : z) if (x != l) m = max(m, level(x)); return m; }
  bool compatible(int l, int c1) { // a true literal may only go when c1 does
    if (gb) { auto& a = info(l).chunks; auto& b = info(c1).cross; return includes(b.begin(), b.end(), a.begin(), a.end()); }
    return lazy ? lazy_level(l) <= level(c1) : ncb ? level(l) <= level(c1) : true; }
  void look(const char* when) {
    n_points++; cache.clear();
    for (auto& [i, k] : cls) if (k.alive) scan(k.lits, true, "stored"); // no conflict, no missed implication
    for (auto& [id, k] : cls) {
      if (!k.alive) continue;
      if (!told) continue; // watches are only told of in debug builds
      auto it = w.find(id); size_t n = it == w.end() ? 0 : it->second.size();
      if (k.lits.size() < 2) continue;
      if (n == 0) { n_skip++; bool taut = false; for (int a : k.lits) taut |= val(a) > 0; if (!taut) bad("not-watched", "clause " + oracle::str(k.lits) + "is not watched"); continue; }
      if (n != 2) { bad("number-of-watches", "clause " + oracle::str(k.lits) + "has " + to_string(n) + " watches"); continue; }
      int c[2], b[2], j = 0; for (auto& [l, bl] : it->second) { c[j] = l; b[j++] = bl; }
      for (j = 0; j < 2; j++) {
        bool in = false, bin = false; for (int l : k.lits) { in |= l == c[j]; bin |= l == b[j]; }
        if (!bin && val(b[j]) < 0 && level(b[j]) == 0) bin = true; // removed from the clause because it is false for ever
        if (!in) bad("watch-not-in-clause", to_string(c[j]) + " watches " + oracle::str(k.lits));
        if (!bin) bad("blocker-not-in-clause", to_string(b[j]) + " blocks " + oracle::str(k.lits));
        n_pairs++;
        bool fp = val(c[j]) < 0 && vars[abs(c[j])].propagated; if (fp) n_false++;
        int c2 = c[1 - j];
        // weakest form: once a falsified watched literal was propagated, another literal watching or blocking it is true
        if (fp && val(c2) <= 0 && val(b[j]) <= 0) bad("strong", "clause " + oracle::str(k.lits) + ": " + to_string(c[j]) + " was propagated, " + to_string(c2) + " and the blocker " + to_string(b[j]) + " are not true (" + when + ")");
        if (fp && val(c2) < 0 && vars[abs(c2)].propagated && val(b[j]) <= 0) bad("weak", oracle::str(k.lits));
        if (fp) { n_compat++; if (!(val(c2) > 0 && compatible(c2, c[j])) && !(val(b[j]) > 0 && compatible(b[j], c[j]))) bad("not-backtrack-compatible", "clause " + oracle::str(k.lits) + ": " + to_string(c[j]) + "@" + to_string(level(c[j])) + ", " + to_string(c2) + "@" + to_string(level(c2)) + ", blocker " + to_string(b[j]) + "@" + to_string(level(b[j])) + " (" + when + ")"); }
        string err; for (auto* inv : sent->invariants) { n_registered++;
          if (!inv->check(tl(c[j]), tl(c2), tl(b[j]), err)) bad("registered", inv->name + " on clause " + oracle::str(k.lits) + ": " + to_string(c[j]) + ", " + to_string(c2) + ", blocker " + to_string(b[j]) + " (" + when + ")"); }
      }
    }
    if (told) agree();
    // trail
    long last = 0, decisions = 0; set<unsigned> seen; (void)decisions;
    for (unsigned v : order) {
      if (!vars[v].val) continue;
      long lv = level((int)v); if (lv < 0) bad("no-level", "variable " + to_string(v) + " is assigned and has no level"); n_levels++;
      if (info((int)v).propagated != vars[v].propagated) bad("propagated-not-told", "variable " + to_string(v));
      if (ncb) { if (lv < last) bad("not-monotone", "variable " + to_string(v) + " of level " + to_string(lv) + " follows level " + to_string(last)); last = lv; }
      if (vars[v].reason < 0xFFFFFFF0u) {
        auto it = cls.find(vars[v].reason); if (it == cls.end()) { bad("no-reason", to_string(v)); continue; }
        long mx = 0; set<long> ch; for (int l : it->second.lits) if (abs(l) != (int)v) { mx = max(mx, level(l)); if (gb) { auto& x = info(l).chunks; ch.insert(x.begin(), x.end()); } if (!seen.count((unsigned)abs(l))) bad("not-topological", "variable " + to_string(v) + " precedes " + to_string(l) + " of its reason " + oracle::str(it->second.lits)); n_topo++; }
        if (mx != lv) bad("implied-level", "variable " + to_string(v) + " has level " + to_string(lv) + " and its reason " + oracle::str(it->second.lits) + "has level " + to_string(mx));
        if (gb) { n_chunks += ch.size(); if (ch != info((int)v).chunks) bad("implied-chunks", "variable " + to_string(v) + " and its reason " + oracle::str(it->second.lits) + "depend on other chunks"); }
      } else if (vars[v].reason == UNDEF && gb && info((int)v).chunks.size() != 1) bad("decision-chunks", "decision " + to_string(v) + " has " + to_string(info((int)v).chunks.size()) + " chunks");
      seen.insert(v);
    }
  }
};
static void w_invariants(Ctx& c, Rng& r) {
  Config g = make_config(r, false); Session S(c, g); int want; string fam; Cnf f = r.chance(15) ? big_formula(r, 1, want, fam) : gen::formula(r, (int)r.below(2), &fam);
  Watcher m; m.key_tag = g.tag; m.label = g.text(); m.step_limit = 20000000; m.ncb = g.strat.empty(); m.gb = g.gb(); m.lazy = g.tag == "-lscb"; m.every = f.size() > 150 ? 20 : f.size() > 60 ? 4 : 1; m.probe = getenv("PROBE");
  vector<string> t = g.strat; t.insert(t.end(), g.extra.begin(), g.extra.end()); t.push_back("-o"); S.opts = make_unique<options>(t);
  sentinel::current_monitor() = &m; S.s = create_solver(0, 0, *S.opts); sentinel::current_monitor() = nullptr; m.sent = sentinel::last_sentinel(); m.rng = &r;
  { ifstream in(env::get_invariant_configuration_folder() + (m.gb ? "graph" : m.lazy ? "lazy-strong-chronological" : m.ncb ? "non-chronological" : "chronological") + "-backtracking.conf"); auto& o = m.sent->options; int n = 0;
    map<string, bool> flags = {{"trail_sanity", o.check_no_conflicts}, {"trail_monotonicity", o.check_trail_monotonicity}, {"implied_levels", o.check_implied_levels}, {"no_missed_implications", o.check_no_missed_implications}, {"topological_order", o.check_topological_order}};
    for (string line; getline(in, line);) { if (line.find("blocked_") == 0) m.conf.push_back(line); auto f = flags.find(line); if (f != flags.end()) { n++; if (!f->second) m.fail("invariant-not-enabled", line); flags.erase(f); } }
    for (auto& [k, on] : flags) if (on) m.fail("invariant-enabled", k + " is enabled and not listed"); if (!n) m.fail("no-configuration", "no invariant is listed"); }
  size_t next = 0; auto give = [&](size_t k) { while (k-- && next < f.size()) { m.input.push_back(f[next]); S.add(f[next++], &r); } };
  give(r.chance(50) ? f.size() : r.below(f.size() + 1));
  for (int i = 0, n = (int)r.below(25); i < n && !m.failed; i++) {
    status st = get_status(S.s); if (st == status::ERROR || st == status::UNSAT) break;
    switch (r.below(8)) {
      case 0: case 1: case 2: if (st == status::UNKNOWN && propagate(S.s)) { m.look("after propagate()"); decide(S.s); S.note("decide"); } break;
      case 3: { if (st != status::UNKNOWN || !propagate(S.s)) break; m.look("after propagate()"); vector<int> u; for (unsigned v = 1; v <= S.nvars(); v++) if (!S.value((int)v)) u.push_back((int)v); if (u.empty()) break; int l = r.pick(u) * (r.chance(50) ? 1 : -1); decide(S.s, L(l)); S.note("decide " + to_string(l)); break; }
      case 4: case 5: give(1 + r.below(5)); break;
      case 6: synchronize(S.s); S.note("synchronize"); break;
      default: S.note("solve_limited"); solve_limited(S.s, (unsigned)r.below(6)); break;
    }
  }
  give(f.size()); status st = get_status(S.s); if (st != status::ERROR && !m.failed) st = S.do_solve();
  for (int i = 0; i < 4 && st == status::SAT && !m.failed; i++) { m.look("at a model"); Clause b; for (Tlit l : get_partial_assignment(S.s)) if (is_decided(S.s, l) || r.chance(20)) b.push_back(-D(l)); if (b.empty()) break; S.add(b, &r); st = S.do_solve(); }
  c.count("points", m.n_points); c.count("watch_pairs", m.n_pairs); c.count("propagated_false_watches", m.n_false); c.count("registered_evaluations", m.n_registered); c.count("blockers", m.n_block); c.count("watches_moved", m.n_moved); c.count("levels", m.n_levels); c.count("formulas_compared", m.n_agree); c.count("formulas_false", m.n_reject); c.count("compatible", m.n_compat); c.count("chunks", m.n_chunks); c.count("lazy_levels", m.n_lazy); c.count("reason_literals", m.n_topo); c.count("unwatched_satisfied", m.n_skip);
  for (auto& [k, n] : m.broken) c.count("broken:" + k + ":" + g.tag);
  if (!m.sent->invariants.empty()) c.count("with_registered:" + g.tag);
  c.count("strat:" + g.tag); if (m.n_points) c.nontrivial(m.path); c.sample(g.text() + " " + fam + ": " + to_string(m.n_points) + " points: " + S.trace.substr(0, 200));
}
int main(int argc, char** argv) {
  env::set_suppress_info(true); env::set_suppress_warning(true);
  env::set_invariant_configuration_folder(string(getenv("VF_REPO") ? getenv("VF_REPO") : "/repo") + "/invariant-configurations/");
  return run_main(argc, argv, {{"invariants", w_invariants}});
}
