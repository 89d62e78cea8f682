// C09: the proof checker on derivations built by hand, intact and corrupted.
#include "session.hpp"
#include "audit.hpp"
#include "src/proof/proof.hpp"
using namespace napsat; using namespace std; using namespace vf;
using oracle::Cnf; using oracle::Clause;

struct Op { int kind = 0; unsigned id = 0; Clause lits; vector<pair<int, unsigned>> chain; };  // 0 input, 1 derive, 2 deactivate
using Script = vector<Op>;

static bool taut(const Clause& c) { for (int a : c) for (int b : c) if (a == -b) return true; return false; }
static bool has(const Clause& c, int l) { return find(c.begin(), c.end(), l) != c.end(); }
static Clause resolve(const Clause& a, const Clause& b, int l) { Clause q; for (int x : a) if (x != l) q.push_back(x); for (int x : b) if (x != -l) q.push_back(x); return norm(q); }

// what the documentation of the checker says, on the script itself
struct Line { Clause lits; vector<pair<int, unsigned>> chain; };
static bool line_ok(const vector<Line>& P, unsigned i) {
  const Line& l = P[i];
  if (l.chain.empty()) return true;
  Clause cur;
  for (size_t k = 0; k < l.chain.size(); k++) {
    auto [p, j] = l.chain[k];
    if (j >= i) return false;
    if (!k) { cur = norm(P[j].lits); continue; }
    if (!p || !has(cur, p) || !has(P[j].lits, -p)) return false;
    cur = resolve(cur, P[j].lits, p);
  }
  return cur == norm(l.lits) && !taut(l.lits);
}
static void reach(const vector<Line>& P, unsigned i, vector<char>& seen, bool& ok) {
  vector<unsigned> st{i};
  while (!st.empty()) { unsigned j = st.back(); st.pop_back(); if (seen[j]) continue; seen[j] = 1; if (!line_ok(P, j)) ok = false; for (auto& [p, q] : P[j].chain) st.push_back(q); }
}
// 1 accepted, 0 rejected, -1 several empty clauses that do not agree
static int reference(const Script& S, vector<Line>& P) {
  map<unsigned, unsigned> idx; P.clear();
  for (auto& o : S) {
    if (o.kind == 2) { idx.erase(o.id); continue; }
    Line l{o.lits, {}};
    for (auto& [p, id] : o.chain) l.chain.push_back({p, idx[id]});
    P.push_back(l); idx[o.id] = (unsigned)P.size() - 1;
  }
  int v = -2;
  for (unsigned i = 0; i < P.size(); i++) if (P[i].lits.empty()) {
    vector<char> seen(P.size(), 0); bool ok = true; reach(P, i, seen, ok);
    if (v == -2) v = ok; else if (v != (int)ok) return -1;
  }
  return v == -2 ? 0 : v;
}
static void emit(const Script& S, proof::resolution_proof& pr, bool root_api) {
  (void)root_api;
  for (auto& o : S) {
    vector<Tlit> l; for (int x : o.lits) l.push_back(L(x));
    if (o.kind == 0) pr.input_clause(Tclause(o.id), l.data(), (unsigned)l.size());
    else if (o.kind == 2) pr.deactivate_clause(Tclause(o.id));
    else {
      pr.start_resolution_chain();
      for (auto& [p, id] : o.chain) pr.link_resolution(p ? L(p) : LIT_UNDEF, Tclause(id));
      pr.finalize_resolution(Tclause(o.id), l.data(), (unsigned)l.size());
    }
  }
}
// a derivation of the empty clause, with detours, id reuse and clauses nobody needs
static bool build(Rng& r, Script& S) {
  int n = (int)r.range(1, 5);
  vector<pair<unsigned, Clause>> live;
  unsigned next = 0; vector<unsigned> free_ids;
  auto fresh = [&] { if (!free_ids.empty() && r.chance(70)) { unsigned k = free_ids.back(); free_ids.pop_back(); return k; } next += 1 + (r.chance(5) ? r.below(200) : 0); return next - 1; };
  int m = (int)r.range(3, 14);
  for (int i = 0; i < m; i++) {
    Clause c = gen::rand_clause(r, n, (int)r.range(1, min(n, 4)));
    if (r.chance(10)) c.insert(c.begin() + r.below(c.size() + 1), r.pick(c));   // a literal twice
    r.shuffle(c);
    unsigned id = fresh(); S.push_back({0, id, c, {}}); live.push_back({id, norm(c)});
  }
  for (int step = 0; step < 400; step++) {
    // a chain of one or more resolutions
    Op o; o.kind = 1; auto [id0, cur] = r.pick(live);
    o.chain.push_back({0, id0});
    int len = (int)r.range(1, r.chance(30) ? 6 : 2);
    for (int k = 0; k < len; k++) {
      vector<pair<int, unsigned>> cand; vector<Clause> res;
      for (auto& [id, c] : live) for (int l : cur) if (has(c, -l)) { Clause q = resolve(cur, c, l); if (!taut(q)) { cand.push_back({l, id}); res.push_back(q); } }
      if (cand.empty()) break;
      size_t best = r.below(cand.size());
      if (r.chance(60)) for (size_t i = 0; i < res.size(); i++) if (res[i].size() < res[best].size()) best = i;
      o.chain.push_back(cand[best]); cur = res[best];
      if (cur.empty()) break;
    }
    if (o.chain.size() < 2 && !r.chance(3)) continue;
    // an existing clause may be replaced by what was derived, under its own id
    bool reuse = !cur.empty() && r.chance(15) && live.size() > 3;
    if (reuse) { size_t k = r.below(live.size()); o.id = live[k].first; live.erase(live.begin() + k); o.lits = cur; 
      // the chain is linked first, the old clause deactivated afterwards: same thing for the script as indexes are fixed at link time
      Op d; d.kind = 2; d.id = o.id; bool used = false; for (auto& [p, q] : o.chain) used |= q == o.id;
      if (used) { live.push_back({o.id, cur}); o.kind = 3; S.push_back(o); continue; }
      S.push_back(d);
    } else o.id = fresh();
    o.lits = cur; r.shuffle(o.lits); S.push_back(o);
    if (cur.empty()) return true;
    live.push_back({o.id, cur});
    if (r.chance(8) && live.size() > 6) { size_t k = r.below(live.size()); S.push_back({2, live[k].first, {}, {}}); free_ids.push_back(live[k].first); live.erase(live.begin() + k); }
  }
  return false;
}
// kind 3 (replace a clause by one derived from it) becomes: derive under a new id; it only needs an unused id
static void lower(Script& S) {
  unsigned big = 0; for (auto& o : S) { big = max(big, o.id); for (auto& [p, q] : o.chain) big = max(big, q); }
  map<unsigned, unsigned> ren; Script T;
  for (auto& o : S) {
    for (auto& [p, q] : o.chain) if (ren.count(q)) q = ren[q];
    if (o.kind == 3) { ren[o.id] = ++big; o.kind = 1; o.id = big; T.push_back(o); }
    else if (o.kind == 2) { unsigned id = ren.count(o.id) ? ren[o.id] : o.id; unsigned orig = o.id; o.id = id; T.push_back(o); if (ren.count(orig)) { T.push_back({2, orig, {}, {}}); ren.erase(orig); } }
    else T.push_back(o);
  }
  S = T;
}
static string show(const Script& S) { string s; for (auto& o : S) { s += o.kind == 0 ? "in " : o.kind == 1 ? "derive " : "drop "; s += to_string(o.id) + " (" + oracle::str(o.lits) + ")"; for (auto& [p, q] : o.chain) s += " <" + to_string(p) + "," + to_string(q) + ">"; s += "; "; } return s; }

static void w_checker(Ctx& c, Rng& r) {
  Script S; bool done = build(r, S); lower(S);
  int n = 1; for (auto& o : S) for (int l : o.lits) n = max(n, abs(l));
  for (int round = 0; round < 14; round++) {
    Script T = S; string what = "intact";
    if (round) {
      vector<size_t> der; for (size_t i = 0; i < T.size(); i++) if (T[i].kind == 1) der.push_back(i);
      if (der.empty()) return;
      // mostly near the end, where the clauses that matter are
      size_t at = r.chance(50) ? der[der.size() - 1 - r.below(min<size_t>(der.size(), 4))] : r.pick(der);
      Op& o = T[at];
      auto links = [&] { vector<size_t> k; for (size_t i = 1; i < o.chain.size(); i++) k.push_back(i); return k; };
      switch (r.below(12)) {
        case 0: { int l = (int)r.range(1, n) * (r.chance(50) ? 1 : -1); o.lits.push_back(l); what = "extra-literal"; break; }
        case 1: if (!o.lits.empty()) o.lits.erase(o.lits.begin() + r.below(o.lits.size())); what = "missing-literal"; break;
        case 2: if (!o.lits.empty()) { size_t k = r.below(o.lits.size()); o.lits[k] = -o.lits[k]; } what = "flipped-literal"; break;
        case 3: { auto k = links(); if (!k.empty()) { auto& p = o.chain[r.pick(k)].first; p = -p; } what = "flipped-pivot"; break; }
        case 4: { auto k = links(); if (!k.empty()) o.chain[r.pick(k)].first = (int)r.range(1, n + 1) * (r.chance(50) ? 1 : -1); what = "other-pivot"; break; }
        case 5: { auto k = links(); if (!k.empty()) o.chain.erase(o.chain.begin() + r.pick(k)); what = "missing-step"; break; }
        case 6: { auto k = links(); if (k.size() > 1) { size_t a = r.pick(k), b = r.pick(k); swap(o.chain[a], o.chain[b]); } what = "swapped-steps"; break; }
        case 7: { set<unsigned> ids; for (size_t i = 0; i < at; i++) { if (T[i].kind == 2) ids.erase(T[i].id); else ids.insert(T[i].id); } vector<unsigned> v(ids.begin(), ids.end()); if (!v.empty()) o.chain[r.below(o.chain.size())].second = r.pick(v); what = "other-premise"; break; }
        case 8: { auto k = links(); if (!k.empty()) o.chain[r.pick(k)].first = 0; what = "no-pivot"; break; }
        case 9: { size_t k = r.below(o.chain.size()); auto dup = o.chain[k]; if (!dup.first) dup.first = (int)r.range(1, n); o.chain.insert(o.chain.begin() + 1 + r.below(o.chain.size()), dup); what = "repeated-step"; break; }
        case 10: { // an input clause that is not what the chains were built on
          vector<size_t> in; for (size_t i = 0; i < T.size(); i++) if (T[i].kind == 0) in.push_back(i);
          Op& q = T[r.pick(in)]; Clause x = gen::rand_clause(r, n, (int)r.range(1, min(n, 4))); if (!taut(x) && !x.empty()) q.lits = x; what = "other-input"; break; }
        default: { // no empty clause at all
          Script U; for (auto& q : T) if (q.kind != 1 || !q.lits.empty()) U.push_back(q); T = U; what = "no-empty-clause"; break; }
      }
      bool bad = false; for (auto& q : T) if (q.kind == 0 && taut(q.lits)) bad = true;
      if (bad) continue;
    }
    vector<Line> P; int want = reference(T, P);
    fprintf(stderr, "TAG %s\n", what.c_str());
    if (!round && done && want != 1) { fprintf(stderr, "the harness built a wrong derivation: %s\n", show(T).c_str()); exit(3); }
    proof::resolution_proof pr; emit(T, pr, false);
    bool got = pr.check_proof();
    if (want >= 0 && got != (want == 1)) { c.violation((got ? "accepted/" : "rejected/") + what, show(T)); return; }
    if (pr.check_proof() != got) { c.violation("second-check/" + what, show(T)); return; }
    c.count("checked"); c.count(want == 1 ? "valid" : want == 0 ? "invalid" : "ambiguous"); c.count("kind:" + what);
    if (want == 1 && got) {
      string text; { Capture cap; pr.print_proof(); text = cap.str(); }
      Cnf in; for (auto& o : T) if (o.kind == 0) in.push_back(o.lits);
      bool copies = false; for (auto& l : P) if (l.chain.size() == 1) copies = true;
      if (!copies) { string e = audit_proof(c, text, in); if (!e.empty()) { c.violation("printed/" + what, e + " in " + text + " for " + show(T)); return; } c.count("printed"); }
      if (!pr.check_proof()) { c.violation("check-after-print", show(T)); return; }
    }
    c.nontrivial(fnv(show(T)));
    if (round == 5) c.sample(what + " -> " + (got ? "accepted" : "rejected") + ": " + show(T).substr(0, 400));
  }
}

int main(int argc, char** argv) {
  env::set_suppress_info(true); env::set_suppress_warning(true);
  return run_main(argc, argv, {{"checker", w_checker}});
}
