// C34: synchronizing covers exactly the literals that changed since the last time.
#include <filesystem>
#include <fstream>
#include "session.hpp"
#include "src/solver/NapSAT.hpp"
using namespace napsat; using namespace std; using namespace vf;
using oracle::Cnf; using oracle::Clause;

struct Stats { long long sync = 0, cost = 0, repairs = 0; };
static Stats stats(NapSAT* s) {
  string text; { Capture cap; print_statistics(s); text = cap.str(); } Stats o; istringstream is(text); string line;
  while (getline(is, line)) if (line.rfind("c  - ", 0) == 0) { size_t k = line.find(": "); string n = line.substr(5, k - 5), d; for (char ch : line.substr(k)) if (isdigit((unsigned char)ch)) d += ch;
    long long v = d.empty() ? 0 : stoll(d); if (n == "Sync") o.sync = v; else if (n == "Sync Cost") o.cost = v; else if (n == "Conflict repair") o.repairs = v; }
  return o;
}
static void w_sync(Ctx& c, Rng& r) {
  Config g = make_config(r, false); Session S(c, g); Mon m; m.key_tag = g.tag; m.label = g.text(); m.step_limit = 20000000;
  string fam; Cnf f = gen::formula(r, 0, &fam); if (f.size() > 120) f.resize(120);
  vector<string> t = g.strat; t.insert(t.end(), g.extra.begin(), g.extra.end()); t.push_back("-o"); t.push_back("-stat"); S.opts = make_unique<options>(t);
  sentinel::current_monitor() = &m; S.s = create_solver((unsigned)r.below(8), 0, *S.opts); sentinel::current_monitor() = nullptr; auto* sent = sentinel::last_sentinel();
  uint64_t salt = r.next(); auto cost = [salt](int l) { Rng q(salt ^ ((uint64_t)(unsigned)l * 0x9E37ull)); return (double)(1 + q.below(20)); };
  set_weight_function(S.s, [&](Tlit l) { return cost(D(l)); });
  auto bad = [&](const string& k, const string& what) { S.fail(k, what); };
  map<int, int> last; vector<int> then; Stats at = stats(S.s); // what was synchronized last, as far as it is known
  bool exact = true; // no conflict was repaired since
  auto synced = [&](unsigned v) { string d = sent->var_detail(sentinel::Tvar(v)); size_t k = d.find("synced: "); return k == string::npos ? -1 : d.compare(k + 8, 4, "true") == 0 ? 1 : 0; };
  auto look = [&](const char* when) {
    Stats now = stats(S.s); if (now.repairs != at.repairs) exact = false;
    vector<int> trail; for (Tlit l : get_partial_assignment(S.s)) trail.push_back(D(l));
    unsigned lim = S.s->sync_validity_limit(); if (lim > trail.size()) return bad("limit-past-trail", string(when) + ": the limit of what is synchronized is " + to_string(lim) + " of " + to_string(trail.size()) + " literals");
    for (unsigned i = 0; i < trail.size(); i++) {
      int l = trail[i], y = synced((unsigned)abs(l)); c.count("flags");
      if (y < 0) return bad("no-flag", "the observer cannot tell whether " + to_string(abs(l)) + " is synchronized");
      if (i < lim) { c.count("below_limit"); if (!y) return bad("limit-unsynced", string(when) + ": " + to_string(l) + " is at " + to_string(i) + ", below the limit " + to_string(lim) + ", and is not synchronized"); }
      if (exact) {
        int p = last.count(abs(l)) ? last[abs(l)] : -1; // variables start as synchronized to false
        if ((p == (l > 0 ? 1 : -1)) != (bool)y) return bad("flag", string(when) + ": " + to_string(l) + (y ? " counts as synchronized and was not" : " was synchronized and does not count as such")); c.count("flags_exact");
        if (i < lim && (i >= then.size() || then[i] != l)) return bad("limit-changed", string(when) + ": " + to_string(l) + " is at " + to_string(i) + ", below the limit " + to_string(lim) + ", and is not where it was synchronized"); }
    }
    if (exact && (now.sync != at.sync || now.cost != at.cost)) return bad("counted-unsynced", string(when) + ": synchronized literals were counted without a synchronization");
  };
  auto sync = [&] {
    Stats before = stats(S.s); vector<int> ch; double w = 0; for (Tlit l : get_partial_assignment(S.s)) if (!synced(l.var().value)) { ch.push_back(D(l)); w += cost(D(l)); }
    synchronize(S.s); S.note("synchronize"); Stats after = stats(S.s); c.count("synchronizations"); c.count("changed", ch.size()); if (!ch.empty()) c.count("with_changes");
    if (after.sync - before.sync != (long long)ch.size()) return bad("sync-count", to_string(after.sync - before.sync) + " literals were synchronized, " + to_string(ch.size()) + " had changed");
    if (after.cost - before.cost != (long long)w) return bad("sync-cost", "synchronizing cost " + to_string(after.cost - before.cost) + " instead of " + to_string((long long)w));
    then.clear(); for (Tlit l : get_partial_assignment(S.s)) { then.push_back(D(l)); last[abs(D(l))] = D(l) > 0 ? 1 : -1; }
    for (int l : then) if (synced((unsigned)abs(l)) != 1) return bad("not-synced", to_string(l) + " is not synchronized after a synchronization");
    if (S.s->sync_validity_limit() != then.size()) return bad("limit-after", "the limit is " + to_string(S.s->sync_validity_limit()) + " after synchronizing " + to_string(then.size()) + " literals");
    at = after;
  };
  size_t next = 0; auto give = [&](size_t k) { while (k-- && next < f.size()) { m.input.push_back(f[next]); S.add(f[next++], &r); } };
  give(r.below(f.size() + 1)); set<int> unknown;
  for (int i = 0, n = (int)r.range(5, 40); i < n && !S.failed() && !m.failed; i++) {
    status st = get_status(S.s); if (st == status::ERROR || st == status::UNSAT) break;
    switch (r.below(9)) {
      case 0: case 1: if (st == status::UNKNOWN && propagate(S.s)) { decide(S.s); S.note("decide"); } break;
      case 2: { if (st != status::UNKNOWN || !propagate(S.s)) break; vector<int> u; for (unsigned v = 1; v <= S.nvars(); v++) if (!S.value((int)v)) u.push_back((int)v); if (u.empty()) break; int l = r.pick(u) * (r.chance(50) ? 1 : -1); decide(S.s, L(l)); S.note("decide " + to_string(l)); break; }
      case 3: S.note("solve_limited"); solve_limited(S.s, (unsigned)r.below(4)); break;
      case 4: give(1 + r.below(4)); break;
      case 5: if (st == status::SAT || r.chance(20)) { Clause b; for (Tlit l : get_partial_assignment(S.s)) if (is_decided(S.s, l) || r.chance(15)) b.push_back(-D(l)); if (!b.empty()) { m.input.push_back(b); S.add(b, &r); } } break;
      case 6: if (r.chance(30)) { S.note("solve"); solve(S.s); } break;
      default: sync(); if (!exact) { exact = true; for (unsigned v = 1; v <= S.nvars(); v++) if (!S.value((int)v)) unknown.insert((int)v); } break;
    }
    if (!unknown.empty()) { // variables unassigned when synchronized after a conflict: their last polarity is not known until they are
      for (auto it = unknown.begin(); it != unknown.end();) if (int x = S.value(*it)) { if (exact) last[*it] = synced((unsigned)*it) ? x : -x; it = unknown.erase(it); } else ++it; }
    if (!S.failed() && get_status(S.s) != status::ERROR) look("between calls");
  }
  c.count("strat:" + g.tag); c.nontrivial(m.path); c.sample(g.text() + " " + fam + ": " + S.trace.substr(0, 300));
}

int main(int argc, char** argv) {
  env::set_suppress_info(true); env::set_suppress_warning(true);
  env::set_invariant_configuration_folder(string(getenv("VF_REPO") ? getenv("VF_REPO") : "/repo") + "/invariant-configurations/");
  return run_main(argc, argv, {{"sync", w_sync}});
}
