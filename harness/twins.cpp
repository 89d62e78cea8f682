// C24, C30: the same history several times - alone, interleaved, nested, in threads, observed or not - compared step by step.
#include "session.hpp"
#include <thread>
using namespace napsat; using namespace std; using namespace vf;
using oracle::Cnf; using oracle::Clause;

static uint64_t mix(uint64_t h, uint64_t x) { return (h ^ x) * 1099511628211ull ^ (h >> 29); }

struct Plan { // a history is a function of this and of nothing else
  Config g; Cnf f; uint64_t seed = 0; unsigned steps = 0; int mode = 0; bool weights = false;
};
// executes a history one call at a time; what can be seen after each call is summarised in `seen`
struct Runner {
  Plan p; Session S; Rng r; size_t next = 0; unsigned left; bool done = false, fed = false;
  vector<uint64_t> seen; vector<string> calls;
  function<void()> inside;      // called from the weight function, in the middle of a repair
  bool keep = false;
  uint64_t nested = 0, solves = 0;
  Runner(Ctx& c, const Plan& p_) : p(p_), S(c, p_.g), r(p_.seed), left(p_.steps) { S.mode = p.mode; S.m.step_limit = 20000000; }
  void open() {
    S.open();
    if (p.weights) { uint64_t salt = p.seed; set_weight_function(S.s, [this, salt](Tlit l) { if (inside) { nested++; inside(); } Rng q(salt ^ (l.value * 0x9E37ull)); return 0.25 * (double)(1 + q.below(200)); }); }
  }
  void look(uint64_t ret) {
    uint64_t h = mix(1469598103934665603ull, ret);
    h = mix(h, (uint64_t)get_status(S.s)); h = mix(h, S.nvars());
    for (Tlit l : get_partial_assignment(S.s)) h = mix(mix(mix(h, l.value), is_decided(S.s, l)), is_root_level(S.s, l.var()));
    if (S.cfg.proof) h = mix(h, 77);
    seen.push_back(h);
  }
  void step() { // one call
    if (done) return;
    uint64_t ret = 0; string what;
    status st = get_status(S.s);
    if (st == status::ERROR) { done = true; return; }
    if (!left) {
      if (!fed) { fed = true; while (next < p.f.size()) ret = mix(ret, S.add(p.f[next++], &r).value); what = "add the rest"; }
      else { solves++; ret = (uint64_t)S.do_solve(); what = "solve";
        if (get_status(S.s) == status::UNSAT && p.g.proof && !p.g.lcm()) { Capture cap; print_proof(S.s); ret = mix(ret, fnv(cap.str())); }
        done = true; }
    } else {
      left--;
      switch (r.below(12)) {
        case 0: case 1: case 2: case 3: { int k = (int)r.range(1, 6); while (k-- && next < p.f.size()) ret = mix(ret, S.add(p.f[next++], &r).value); what = "add"; break; }
        case 4: what = "solve"; solves++; ret = (uint64_t)S.do_solve(); break;
        case 5: { unsigned lim = (unsigned)r.below(12); what = "solve_limited"; S.note(what); solves++; ret = (uint64_t)solve_limited(S.s, lim); break; }
        case 6: case 7: case 8: { what = "propagate/decide"; if (st != status::UNKNOWN) break; ret = propagate(S.s); if (!ret) break;
            if (r.chance(50)) ret = 2 + decide(S.s);
            else { vector<int> u; for (unsigned v = 1; v <= S.nvars(); v++) if (!S.value((int)v)) u.push_back((int)v); if (!u.empty()) ret = 4 + decide(S.s, L(r.pick(u) * (r.chance(50) ? 1 : -1))); }
            S.note(what); break; }
        case 9: what = "synchronize"; S.note(what); synchronize(S.s); break;
        case 10: { what = "polarity"; if (S.nvars()) suggest_polarity(S.s, L((int)r.range(1, S.nvars())), r.chance(50)); break; }
        default: { what = "block"; if (st != status::SAT) break; Clause b; for (Tlit l : get_partial_assignment(S.s)) b.push_back(-D(l)); ret = S.add(b, &r).value; break; }
      }
    }
    look(ret); if (keep) calls.push_back(what);
  }
  void run() { open(); while (!done) step(); }
};
static Plan plan(Rng& r, int size, bool gb_bias) {
  Plan p; string fam; int want;
  if (r.chance(10)) p.f = big_formula(r, 1, want, fam); else p.f = gen::formula(r, (int)r.below(size + 1), &fam);
  p.g = make_config(r, false, r.chance(25));
  if (gb_bias) while (!p.g.gb()) { p.g.strat = pick_strategy(r); p.g.tag = tag_of(p.g.strat); }
  p.g.n_var = r.chance(50) ? 0 : (unsigned)r.below(20); p.g.n_cl = r.chance(50) ? 0 : (unsigned)r.below(50);
  p.seed = r.next(); p.steps = (unsigned)r.range(0, 25); p.mode = (int)r.below(3); p.weights = p.g.gb() && r.chance(60);
  return p;
}
static string where(const vector<uint64_t>& a, const vector<uint64_t>& b) {
  size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  return "step " + to_string(i + 1) + " of " + to_string(a.size()) + "/" + to_string(b.size());
}
static void compare(Runner& base, Runner& other, const char* key, const string& how) {
  if (base.seen == other.seen) return;
  size_t i = 0; while (i < base.seen.size() && i < other.seen.size() && base.seen[i] == other.seen[i]) i++;
  base.S.m.failed = false;
  base.S.m.input = base.p.f;
  base.S.fail(key, how + ": what is seen differs at " + where(base.seen, other.seen) + " (" + (i < other.calls.size() ? other.calls[i] : i < base.calls.size() ? base.calls[i] : "?") + ")");
}

// ------------------------------------------------------------------ C24
static void w_twins(Ctx& c, Rng& r) {
  Plan p = plan(r, 2, r.chance(40));
  Runner base(c, p); base.keep = true; base.run();
  c.count("steps_compared", base.seen.size());
  // again, after others and with the memory in another state
  { vector<char*> junk; for (int k = 0; k < 20; k++) { size_t n = 1 + r.below(4000); char* x = (char*)malloc(n); memset(x, (int)r.below(256), n); junk.push_back(x); } for (auto x : junk) free(x);
    Runner o(c, plan(r, 1, true)); o.run();
    Runner again(c, p); again.keep = true; again.run(); c.count("repeated"); compare(base, again, "differs-when-repeated", "repeating the history"); }
  // interleaved with others, call by call
  { unsigned k = (unsigned)r.range(1, 3); vector<unique_ptr<Runner>> o; vector<unique_ptr<Runner>> solo;
    Runner me(c, p); me.keep = true; me.open();
    for (unsigned i = 0; i < k; i++) { Plan q = r.chance(30) ? p : plan(r, 1, r.chance(60)); solo.push_back(make_unique<Runner>(c, q)); solo.back()->run(); o.push_back(make_unique<Runner>(c, q)); o.back()->open(); }
    uint64_t sched = 0; bool any = true;
    while (any) { any = !me.done; for (auto& x : o) any |= !x->done; unsigned t = (unsigned)r.below(k + 1); sched = mix(sched, t); if (t == k) me.step(); else o[t]->step(); }
    c.count("interleaved"); c.nontrivial(mix(sched, p.seed)); compare(base, me, "differs-when-interleaved", "interleaved with other solvers");
    for (unsigned i = 0; i < k; i++) compare(*solo[i], *o[i], "differs-when-interleaved", "interleaved with other solvers"); }
  // calls to another solver from within the weight function: the user's code runs in the middle of a repair
  if (p.weights) {
    Plan q = plan(r, 1, true); q.weights = r.chance(50);
    Runner solo(c, q); solo.run();
    Runner me(c, p), in(c, q); me.keep = true; in.open(); me.open();
    Rng t(r.next()); bool busy = false;
    me.inside = [&] { if (busy || in.done || !t.chance(30)) return; busy = true; in.step(); busy = false; };
    while (!me.done) me.step();
    while (!in.done) in.step();
    if (me.nested) c.count("nested"); c.count("nested_calls", me.nested);
    compare(base, me, "differs-when-nested", "with another solver called from the weight function"); compare(solo, in, "differs-when-nested", "called from the weight function of another solver");
  }
  c.count("strat:" + p.g.tag);
  c.sample(p.g.text() + ": " + to_string(base.seen.size()) + " steps, the same each time: " + base.S.trace.substr(0, 300));
}
// one solver per thread
static void w_threads(Ctx& c, Rng& r) {
  unsigned k = (unsigned)r.range(2, 5); vector<Plan> ps; vector<unique_ptr<Runner>> solo, par;
  for (unsigned i = 0; i < k; i++) { Plan p = r.chance(25) && i ? ps[0] : plan(r, 1, r.chance(60)); p.g.proof = false; ps.push_back(p); }
  for (auto& p : ps) { solo.push_back(make_unique<Runner>(c, p)); solo.back()->run(); par.push_back(make_unique<Runner>(c, p)); par.back()->keep = true; }
  vector<thread> ts; for (auto& x : par) ts.emplace_back([&x] { x->run(); });
  for (auto& t : ts) t.join();
  for (unsigned i = 0; i < k; i++) { compare(*solo[i], *par[i], "differs-in-a-thread", "with other solvers in other threads"); c.count("threads"); c.count("steps_compared", solo[i]->seen.size()); c.nontrivial(fnv(solo[i]->S.trace) ^ i); }
  c.sample(to_string(k) + " threads: " + ps[0].g.text() + ", " + ps[1].g.text());
}

// ------------------------------------------------------------------ C30
struct Capture2 { ostringstream os; streambuf* old; Capture2() { old = cerr.rdbuf(os.rdbuf()); } ~Capture2() { cerr.rdbuf(old); } string str() const { return os.str(); } };
// the events of the observer, counted, and what it can reconstruct
struct Watcher : Mon {
  uint64_t n_add = 0, n_prop = 0, n_unprop = 0, n_vars = 0, n_confl = 0;
  set<unsigned> known; sentinel::Tparser* parser = nullptr;
  void add_variable(unsigned v) override { Mon::add_variable(v); n_vars++; known.insert(v); }
  void add_clause(unsigned id, const unsigned* l, unsigned n, bool e) override { Mon::add_clause(id, l, n, e); n_add++; }
  void propagate(unsigned l) override { Mon::propagate(l); n_prop++; }
  void unpropagate(unsigned l) override { Mon::unpropagate(l); n_unprop++; }
  void message(const string& t, unsigned l) override { Mon::message(t, l); if (t.rfind("Conflict detected", 0) == 0) n_confl++; }
  void set_parser(sentinel::Tparser* p) override { parser = p; }
  function<void()> hook;
  void checkpoint() override { if (hook) hook(); else if (parser) { Capture cap; (*parser)(""); } } // in interactive mode each decision waits for a command; the empty one decides
};
struct Observed : Runner {
  Watcher w; vector<string> opt; uint64_t compared = 0; sentinel::SATSentinel* sent = nullptr; map<string, unsigned long> diffs;
  static string field(const string& t, const string& name) { size_t k = t.find("\n" + name); if (t.rfind(name, 0) == 0) k = 0; else if (k == string::npos) return "?"; else k++; k += name.size(); size_t e = t.find('\n', k); string v = t.substr(k, e - k); while (!v.empty() && v[0] == ' ') v.erase(0, 1); return v; }
  // what the solver answers of a variable against what the events tell of it
  bool variable(unsigned v) {
    string t = sent->var_detail(sentinel::Tvar(v)); auto& k = w.vars[v];
    auto eq = [&](const char* n, const string& want, const string& got) { ctx().count("details_compared"); if (want == got) return true; fail(string(n) + "-from-events", "variable " + to_string(v) + ": " + n + " " + got + " in the solver and " + want + " from the events"); return false; };
    if (!eq("locked", k.locked ? "true" : "false", field(t, "locked:"))) return false;
    if (!k.val) return true;
    if (!eq("propagated", k.propagated ? "true" : "false", field(t, "propagated:"))) return false;
    if (!eq("level", to_string(k.level), field(t, "\u03B4:"))) return false;
    string rho = field(t, "\u03C1:"), id; if (rho != "undef") for (char ch : rho) { if (ch == ':' ) break; if (isdigit((unsigned char)ch)) id += ch; }
    return eq("reason", k.reason == Mon::UNDEF ? "" : to_string(k.reason), id);
  }
  Observed(Ctx& c, const Plan& p, const vector<string>& opt_) : Runner(c, p), opt(opt_) {}
  void open() {
    S.cfg.extra.insert(S.cfg.extra.end(), opt.begin(), opt.end());
    w.key_tag = S.cfg.tag; w.label = S.cfg.text() + " observed"; w.check_assign = w.track_levels = true;
    vector<string> t = S.cfg.strat; t.insert(t.end(), S.cfg.extra.begin(), S.cfg.extra.end()); if (S.cfg.proof) t.push_back("-bp");
    S.opts = make_unique<options>(t);
    sentinel::current_monitor() = &w; S.s = create_solver(S.cfg.n_var, S.cfg.n_cl, *S.opts); sentinel::current_monitor() = nullptr; sent = sentinel::last_sentinel();
    if (p.weights) { uint64_t salt = p.seed; set_weight_function(S.s, [salt](Tlit l) { Rng q(salt ^ (l.value * 0x9E37ull)); return 0.25 * (double)(1 + q.below(200)); }); }
  }
  void fail(const string& k, const string& what) { w.input = p.f; w.fail(k, what + " after: " + S.trace); }
  void check(bool clauses) { // what the events tell against what the solver says
    compared++;
    const auto& t = get_partial_assignment(S.s);
    vector<int> a, b; for (Tlit l : t) a.push_back(D(l)); for (unsigned v : w.order) b.push_back(w.vars[v].val > 0 ? (int)v : -(int)v);
    if (a != b) { auto x = a, y = b; sort(x.begin(), x.end()); sort(y.begin(), y.end());
      fail(x == y ? "trail-order-from-events" : "trail-from-events", "the trail is " + oracle::str(a) + "but from the events it is " + oracle::str(b)); return; }
    for (Tlit l : t) { bool dec = w.vars[l.var().value].reason == Mon::UNDEF; if (dec != is_decided(S.s, l)) { fail("decision-from-events", to_string(D(l)) + (dec ? " has no reason in the events but is not reported as decided" : " has a reason in the events but is reported as decided")); return; } }
    for (unsigned v = 1; v <= S.nvars(); v++) if (!w.known.count(v)) { fail("variables-from-events", "variable " + to_string(v) + " was never notified"); return; }
    if (w.known.size() && *w.known.rbegin() > S.nvars()) fail("variables-from-events", "notified variable " + to_string(*w.known.rbegin()) + " does not exist");
    if (sent && get_status(S.s) != status::ERROR) { unsigned n = S.nvars(), at = n > 25 ? (unsigned)(compared * 25 % n) : 0; for (unsigned i = 0; i < n && i < 25; i++) if (!variable(1 + (at + i) % n)) return; }
    if (!clauses || !w.parser) return;
    string text; { Capture cap; (*w.parser)("PRINT clause-set"); text = cap.str(); }
    map<unsigned, pair<string, vector<int>>> got; string plain;
    for (size_t i = 0; i < text.size(); i++) { if (text[i] == 27) { while (i < text.size() && text[i] != 'm') i++; continue; } plain += text[i]; }
    istringstream is(plain); string tok; unsigned cur = 0; bool open_ = false, bad = false;
    while (is >> tok) {
      size_t lock = tok.find("\xF0\x9F\x94\x92"); if (lock != string::npos) tok.erase(lock);
      if (tok.back() == ':') { string fl; size_t i = 0; while (i < tok.size() && isalpha((unsigned char)tok[i])) { if (tok[i] != 'C') fl += tok[i]; i++; } cur = (unsigned)stoul(tok.substr(i)); got[cur].first = fl; open_ = true; }
      else if (tok == "\u2610") ;
      else if (!open_) bad = true;
      else got[cur].second.push_back(tok[0] == '~' ? -stoi(tok.substr(1)) : stoi(tok));
    }
    if (bad) { fail("clause-set-text", plain); return; }
    map<unsigned, pair<string, vector<int>>> want;
    for (auto& [i, k] : w.cls) if (k.alive) { auto l = k.lits; sort(l.begin(), l.end()); want[i] = {k.external ? "e" : "l", l}; }
    for (auto& [i, k] : got) { sort(k.second.begin(), k.second.end()); auto it = want.find(i);
      if (it == want.end()) { fail("clause-set-from-events", "clause " + to_string(i) + ": " + oracle::str(k.second) + "is in the solver but not in the events"); return; }
      if (it->second.second != k.second) { fail("clause-set-from-events", "clause " + to_string(i) + " is " + oracle::str(k.second) + "in the solver and " + oracle::str(it->second.second) + "from the events"); return; }
      if ((it->second.first == "e") != (k.first.find('e') != string::npos)) { fail("clause-set-from-events", "clause " + to_string(i) + " is flagged " + k.first + " in the solver and " + it->second.first + " from the events"); return; } }
    for (auto& [i, k] : want) if (!got.count(i)) { fail("clause-set-from-events", "clause " + to_string(i) + ": " + oracle::str(k.second) + "is in the events but not in the solver"); return; }
    ctx().count("clause_sets_compared"); ctx().count("clauses_compared", got.size());
  }
  map<string, long long> stats() {
    string text; { Capture cap; print_statistics(S.s); text = cap.str(); }
    map<string, long long> m; istringstream is(text); string line;
    while (getline(is, line)) if (line.rfind("c  - ", 0) == 0) { size_t k = line.find(": "); string v = line.substr(k + 2), d; for (char ch : v) if (isdigit((unsigned char)ch)) d += ch; m[line.substr(5, k - 5)] = d.empty() ? -1 : stoll(d); }
    return m;
  }
};
static void w_observed(Ctx& c, Rng& r) {
  Plan p = plan(r, 2, false);
  Runner base(c, p); base.keep = true; base.run();
  vector<vector<string>> ways = {{"-i"}, {"-o", "-stat"}};
  for (auto& o : ways) {
    Observed x(c, p, o); x.keep = true; x.open();
    while (!x.done && !x.w.failed) { x.step(); if (get_status(x.S.s) != status::ERROR) x.check(r.chance(30) || x.done); }
    if (x.w.failed) return;
    c.count("observed_runs"); c.count("observed_steps", x.compared); c.count("events", x.w.events);
    // in interactive mode the empty command leaves a solver that is already satisfied alone, where solve() looks for one more decision:
    // the heap is left in another order, so that the runs may part
    if (o[0] == "-o") compare(base, x, "differs-when-observed", "observed (" + join(o) + ")");
    if (o.size() == 2 && !getenv("NOSTAT")) {
      auto m = x.stats();
      auto eq = [&](const char* n, uint64_t want) { long long got = m.count(n) ? m[n] : 0; c.count(string("stat:") + n, (uint64_t)got); c.count("counters_compared"); if (got != (long long)want) x.fail(string("statistic:") + n, string(n) + " is " + to_string(got) + " but there were " + to_string(want) + " such events"); };
      eq("Add variable", x.w.n_vars); eq("Remove literal", x.w.n_shrink);
      // a clause satisfied at the root or tautological is shown to the observer as added and deleted at once, and is counted as neither
      long long na = (long long)x.w.n_add, nd = (long long)x.w.n_delete, ga = m["Add clause"], gd = m["Delete clause"];
      c.count("stat:Add clause", (uint64_t)ga); c.count("stat:Delete clause", (uint64_t)gd); c.count("counters_compared", 2);
      if (ga - gd != na - nd || ga > na || gd < 0) x.fail("statistic:clauses", "the statistics count " + to_string(ga) + " added and " + to_string(gd) + " deleted clauses, the observer was told of " + to_string(na) + " and " + to_string(nd));
      eq("Solve calls", x.solves);
      bool ecm = false, gb = p.g.gb(); for (auto& t : p.g.strat) ecm |= t == "-ecm";
      long long P = m["Propagation"], K = m["Skipped Propagation"];
      if (!ecm) { // eager merging rewrites the trail in the observer's view
        eq("Decisions", x.w.n_decide); eq("Implication", x.w.n_imply); eq("Unassignment", x.w.n_unassign);
        c.count("stat:Propagation", (uint64_t)P); c.count("counters_compared");
        if (2 * P + K != (long long)x.w.n_prop) x.fail("statistic:Propagation", to_string(P) + " propagations and " + to_string(K) + " skipped ones are counted, the observer was told of " + to_string(x.w.n_prop)); // a literal is reported before and after its watches are visited
      } else for (auto& kv : vector<pair<const char*, uint64_t>>{{"Decisions", x.w.n_decide}, {"Implication", x.w.n_imply}, {"Unassignment", x.w.n_unassign}})
        if (m[kv.first] > (long long)kv.second) x.fail(string("statistic:") + kv.first, string(kv.first) + " is " + to_string(m[kv.first]) + " but the observer was told of only " + to_string(kv.second));
      if (!gb) eq("Conflicts", x.w.n_confl);
    }
  }
  c.nontrivial(mix(base.seen.empty() ? 0 : base.seen.back(), p.seed)); c.count("strat:" + p.g.tag);
  c.sample(p.g.text() + ": " + to_string(base.seen.size()) + " steps, the same when observed: " + base.S.trace.substr(0, 300));
}

// ------------------------------------------------------------------ C33
struct Console {
  Observed x; bool via; Rng r; Cnf given, dropped; size_t next = 0; unsigned budget; vector<uint64_t> seen; vector<string> log_; uint64_t refused = 0, accepted = 0; Rng bad;
  bool quiet = false; // only empty commands
  Console(Ctx& c, const Plan& p, bool via_, uint64_t badseed) : x(c, p, {"-i"}), via(via_), r(p.seed), budget(p.steps * 3), bad(badseed) {
    x.open(); x.w.hook = [this] { point(true); };
  }
  bool ok() const { return !x.w.failed && get_status(x.S.s) != status::ERROR; }
  NapSAT* s() { return x.S.s; }
  string text; bool say(const string& cmd) { env::set_suppress_warning(false); bool ret; { Capture cap; Capture2 err; ret = (*x.w.parser)(cmd); text = cap.str() + err.str(); } env::set_suppress_warning(true); return ret; }
  string clauses() { Capture cap; (*x.w.parser)("PRINT clause-set"); return cap.str(); }
  string state() {
    string t = to_string((int)get_status(s())) + " " + to_string(x.S.nvars()) + ":";
    for (Tlit l : get_partial_assignment(s())) t += " " + to_string(D(l)) + (is_decided(s(), l) ? "d" : is_root_level(s(), l.var()) ? "r" : "");
    return t + "\n" + clauses();
  }
  void note(const string& t) { x.S.note(t); log_.push_back(t); }
  vector<int> undefined() { vector<int> u; for (unsigned v = 1; v <= x.S.nvars(); v++) if (!x.S.value((int)v)) u.push_back((int)v); return u; }
  void good(const string& cmd, bool want_text = false) {
    accepted++;
    if (!say(cmd)) x.fail("good-command-refused", "\"" + cmd + "\" was refused with \"" + text.substr(0, 200) + "\"");
    if (want_text && text.empty()) x.fail("nothing-printed", "\"" + cmd + "\" printed nothing");
  }
  void bad_one() {
    unsigned nv = x.S.nvars(); auto num = [&] { return to_string(bad.range(1, max(1u, nv))); };
    string known = num(), cmd; status st = get_status(s());
    vector<string> junk = {"x", "0", "-0", "99999999999", "-99999999999", "2147483648", "-2147483648", known + "x", "-", "--1", "1.5", "0x1", "~" + known, to_string(nv + 1), "-" + to_string(nv + 1 + bad.below(1000000)), "2147483647"};
    const string& j = bad.pick(junk);
    bool gb = x.p.g.gb();
    switch (bad.below(16)) {
      case 0: case 1: cmd = "DECIDE " + j; break;
      case 2: cmd = "DECIDE " + known + " " + known; break;
      case 3: { const auto& t = get_partial_assignment(s()); if (t.empty()) return; int l = D(bad.pick(t)); cmd = "DECIDE " + to_string(bad.chance(50) ? l : -l); break; }
      case 4: cmd = (bad.chance(50) ? "ASSUME" : "FORGET") + string(gb ? bad.chance(50) ? "" : " " + known + " " + known : " " + known); break;
      case 5: cmd = (bad.chance(50) ? "ASSUME " : "FORGET ") + j; break;
      case 6: cmd = "HINT" + string(bad.chance(30) ? "" : " " + (bad.chance(50) ? known : j)) + (bad.chance(30) ? " 1" : ""); break;
      case 7: { size_t k = bad.below(9); cmd = "LEARN"; for (int i = 0, n = (int)bad.range(0, 3); i < n; i++) cmd += " " + num(); cmd += " " + junk[k]; for (int i = 0, n = (int)bad.range(0, 3); i < n; i++) cmd += " " + num(); break; }
      case 8: cmd = bad.chance(30) ? "PRINT" : bad.chance(50) ? "PRINT clauses" : "PRINT trail trail"; break;
      case 9: { static const char* q[] = {"", " x", " -1", " 4294967295", " 4294967296", " 99999999999999999999", " 1 2", " 1x", " 3000000"}; cmd = string("DELETE_CLAUSE") + q[bad.below(9)]; break; }
      case 10: { vector<unsigned> dead; for (auto& [i, k] : x.w.cls) if (!k.alive) dead.push_back(i); if (dead.empty()) return; cmd = "DELETE_CLAUSE " + to_string(bad.pick(dead)); break; }
      case 11: { vector<unsigned> why; for (Tlit l : get_partial_assignment(s())) { unsigned q = x.w.vars[l.var().value].reason; if (q != Mon::UNDEF && x.w.cls.count(q) && x.w.cls[q].alive) why.push_back(q); } if (why.empty()) return; cmd = "DELETE_CLAUSE " + to_string(bad.pick(why)); break; }
      case 12: cmd = bad.chance(50) ? "decide " + known : "learn " + known; break;
      case 13: cmd = string((size_t)bad.range(1, 3), bad.chance(50) ? ' ' : '\t'); break;
      case 14: { if (st == status::UNKNOWN) return; cmd = "DECIDE" + string(bad.chance(50) ? "" : " " + known); break; }
      default: { for (int i = 0, n = (int)bad.range(1, 30); i < n; i++) cmd += (char)bad.range(1, 255); istringstream is(cmd); string w1; is >> w1; if (w1.empty()) break; static const set<string> words = {"DECIDE", "ASSUME", "FORGET", "LEARN", "PRINT", "HELP", "EXIT", "HINT", "DELETE_CLAUSE"}; if (words.count(w1)) return; }
    }
    string before = state(); uint64_t ev = x.w.events; refused++;
    bool ret = say(cmd);
    string shown; for (char ch : cmd) shown += ch >= ' ' && ch < 127 ? ch : '?';
    if (ret) x.fail("bad-command-accepted", "\"" + shown + "\" was accepted");
    else if (text.empty()) x.fail("refused-silently", "\"" + shown + "\" was refused without a message");
    uint64_t seen_ev = x.w.events - ev; string after = state();
    if (before != after) x.fail("refused-command-had-an-effect", "\"" + shown + "\" changed " + before.substr(0, 600) + " into " + after.substr(0, 600));
    else if (seen_ev) x.fail("refused-command-had-an-effect", "\"" + shown + "\" sent " + to_string(seen_ev) + " events to the observer");
  }
  // one command, at a point where the solver waits; in_solve: the solver propagates again afterwards
  void point(bool in_solve) {
    if (via && !quiet) for (unsigned i = 0, n = (unsigned)bad.below(3); i < n && ok(); i++) bad_one();
    if (!ok()) return;
    unsigned k = (unsigned)r.below(10); status st = get_status(s());
    if (quiet || (in_solve && !budget)) k = 0;
    if (budget) budget--;
    vector<int> u = undefined();
    if (k < 4) { // the empty command and DECIDE without argument decide
      if (st != status::UNKNOWN) { if (via) good(""); }
      else if (via) good(r.chance(50) ? "" : "DECIDE"); else { r.chance(50); decide(s()); }
      note("decide");
    } else if (k < 7) {
      if (u.empty() || st != status::UNKNOWN) { if (st == status::UNKNOWN) { if (via) good("DECIDE"); else decide(s()); } return; }
      int l = r.pick(u) * (r.chance(50) ? 1 : -1);
      if (via) good(string(r.chance(20) ? "  DECIDE   " : "DECIDE ") + to_string(l) + (r.chance(20) ? "\t\r\n" : "")); else { r.chance(20); r.chance(20); decide(s(), L(l)); }
      note("decide " + to_string(l));
    } else {
      Clause cl; if (next < x.p.f.size() && r.chance(80)) cl = x.p.f[next++]; else { int n = (int)r.range(r.chance(3) ? 0 : 2, 5); for (int i = 0; i < n; i++) cl.push_back((int)r.range(1, 1 + x.S.nvars()) * (r.chance(50) ? 1 : -1)); }
      learn(cl);
    }
    seen.push_back(fnv(state()));
  }
  void learn(const Clause& cl) {
    given.push_back(cl);
    if (via) { string cmd = "LEARN"; for (int l : cl) cmd += " " + to_string(l); good(cmd); }
    else { vector<Tlit> q; for (int l : cl) q.push_back(L(l)); add_clause(s(), q.data(), (unsigned)q.size()); }
    note("learn " + oracle::str(cl));
  }
  void session() {
    for (unsigned i = 0; i < x.p.steps && ok(); i++) {
      if (get_status(s()) == status::UNKNOWN) propagate(s());
      if (r.chance(15)) { note("solve"); seen.push_back((uint64_t)solve(s())); } else point(false);
      seen.push_back(fnv(state()));
    }
    while (next < x.p.f.size() && ok()) learn(x.p.f[next++]);
    quiet = true; note("solve"); if (ok()) seen.push_back((uint64_t)solve(s())); seen.push_back(fnv(state()));
  }
  void verdict() {
    if (!ok()) return;
    status st = get_status(s()); int n = max(oracle::max_var(given), (int)x.S.nvars());
    if (st == status::SAT) { for (auto& cl : given) { bool sat = false, skip = false; for (int l : cl) sat |= x.S.lv(l) > 0; for (auto& d : dropped) { bool sub = true; for (int l : d) sub &= find(cl.begin(), cl.end(), l) != cl.end(); skip |= sub; } if (!sat && !skip) { x.fail("not-a-model", "answer SAT but " + oracle::str(cl) + "is not satisfied"); return; } } }
    else if (st == status::UNSAT) { int q = oracle::implied(given, {}, n, 2000000); if (q == 0) x.fail("wrong-verdict", "answer UNSAT to satisfiable clauses"); else if (q < 0) ctx().count("inconclusive"); }
    else x.fail("no-verdict", "solve ended without an answer");
  }
};
static void w_commands(Ctx& c, Rng& r) {
  Plan p; p.f = gen::formula(r, (int)r.below(2)); p.g = make_config(r, false, r.chance(25)); p.g.n_var = r.chance(50) ? 0 : (unsigned)r.below(20); p.g.n_cl = 0;
  p.seed = r.next(); p.steps = (unsigned)r.range(1, 40);
  uint64_t bs = r.next();
  Console a(c, p, true, bs), b(c, p, false, bs);
  a.session(); b.session();
  if (!a.ok() || !b.ok()) return;
  if (a.seen != b.seen) { size_t i = 0; while (i < a.seen.size() && i < b.seen.size() && a.seen[i] == b.seen[i]) i++;
    a.x.fail("command-differs-from-call", "after " + to_string(i) + " of " + to_string(a.seen.size()) + "/" + to_string(b.seen.size()) + " steps the solver given commands and the one given calls differ"); return; }
  a.verdict();
  c.count("sessions"); c.count("states_compared", a.seen.size());
  // what is printed, and the commands without effect on the solver
  string before = a.state();
  for (auto q : {"PRINT trail", "PRINT trail-simple", "PRINT clause-set", "PRINT watch-lists", "HELP"}) if (a.ok()) a.good(q, q[0] == 'H' || (a.x.S.nvars() && q[6] == 't'));
  if (a.ok() && before != a.state()) a.x.fail("printing-had-an-effect", before.substr(0, 500));
  // deleting clauses
  for (int round = 0; round < 2 && a.ok(); round++) {
    vector<unsigned> ids; for (auto& [i, k] : a.x.w.cls) if (k.alive && k.lits.size()) ids.push_back(i);
    r.shuffle(ids); if (ids.size() > 8) ids.resize(8);
    for (unsigned id : ids) {
      auto k = a.x.w.cls[id]; bool some_true = false; for (int l : k.lits) some_true |= a.x.S.lv(l) > 0;
      string t0 = a.state(); bool ret = a.say("DELETE_CLAUSE " + to_string(id)); string t1 = a.state();
      if (!a.ok()) return;
      if (ret) {
        c.count("deleted");
        if (a.x.w.cls[id].alive) { a.x.fail("deleted-clause-lives", "clause " + to_string(id) + " was deleted but the observer was not told"); return; }
        if (t0.substr(0, t0.find('\n')) != t1.substr(0, t1.find('\n'))) { a.x.fail("deletion-changed-the-trail", t0.substr(0, 300) + " / " + t1.substr(0, 300)); return; }
        a.x.check(true); // the printed clauses are those alive in the events
        if (k.external) { Clause d(k.lits.begin(), k.lits.end()); a.dropped.push_back(d); }
        if (r.chance(60)) { // said again, it is refused: the clause is gone
          uint64_t e0 = a.x.w.events; bool again = a.say("DELETE_CLAUSE " + to_string(id)); a.refused++; c.count("deleted_again");
          if (again) { a.x.fail("bad-command-accepted", "deletion of clause " + to_string(id) + " which was deleted before"); return; }
          if (a.text.find_first_not_of(" \n") == string::npos) { a.x.fail("refused-without-message", "second deletion of clause " + to_string(id)); return; }
          if (a.x.w.events != e0 || a.state() != t1) { a.x.fail("refused-command-had-an-effect", "second deletion of clause " + to_string(id)); return; }
        }
      } else {
        c.count("deletion_refused");
        if (t0 != t1) { a.x.fail("refused-command-had-an-effect", "refused deletion of clause " + to_string(id)); return; }
        if (!some_true && get_status(a.s()) != status::UNSAT) { a.x.fail("good-command-refused", "clause " + to_string(id) + ": " + oracle::str(k.lits) + "supports no literal but cannot be deleted: " + a.text.substr(0, 200)); return; }
      }
    }
    // the solver still works after it
    for (int i = 0, n = (int)r.range(1, 6); i < n && a.ok(); i++) { Clause cl; for (int j = 0, m = (int)r.range(2, 4); j < m; j++) cl.push_back((int)r.range(1, 2 + a.x.S.nvars()) * (r.chance(50) ? 1 : -1)); a.learn(cl); }
    if (!a.ok()) return;
    solve(a.s()); a.verdict();
  }
  c.count("commands", a.accepted); c.count("refused", a.refused); c.nontrivial(mix(a.seen.back(), p.seed)); c.count("strat:" + p.g.tag);
  c.sample(p.g.text() + ": " + to_string(a.accepted) + " commands, " + to_string(a.refused) + " refused: " + a.x.S.trace.substr(0, 300));
}

// ------------------------------------------------------------------ C26
// printed text read back
struct Word { string text, style; };  // style: the escape sequences in force
static vector<Word> words(const string& t) {
  vector<Word> out; string cur, style, at;
  auto flush = [&] { if (!cur.empty()) out.push_back({cur, at}); cur.clear(); at.clear(); };
  for (size_t i = 0; i < t.size(); i++) {
    if (t[i] == 27) { string e; while (i < t.size() && t[i] != 'm') e += t[i++]; if (e == "\033[0") style.clear(); else style += e; continue; }
    if (t[i] == ' ' || t[i] == '\n') { flush(); continue; }
    if (cur.empty()) at = style; else if (at.empty()) at = style;
    cur += t[i];
  }
  flush(); return out;
}
struct PLit { int l = 0; bool dec = false, lock = false; string color; };
struct PClause { bool undef = false, d = false, e = false, l = false; unsigned id = 0; vector<PLit> lits; };
struct Reader {
  Observed& x; sentinel::SATSentinel* sent; map<string, string>& colors;   // a colour per value, the same everywhere
  uint64_t lits = 0, trails = 0, simples = 0, sets = 0, lists = 0, vars = 0, infos = 0, reasons = 0, watches = 0; map<int, unsigned> level;
  map<unsigned, PClause> db; string why;
  bool bad(const string& k, const string& w) { x.fail("printed-" + k, w); return false; }
  static bool number(const string& s, unsigned& v) { if (s.empty() || s.size() > 9) return false; for (char ch : s) if (!isdigit((unsigned char)ch)) return false; v = (unsigned)stoul(s); return true; }
  static bool bare(string t, int& l) { bool n = t[0] == '~'; if (n) t.erase(0, 1); unsigned v; if (!number(t, v) || !v) return false; l = n ? -(int)v : (int)v; return true; }
  bool literal(const Word& w, PLit& p) {
    string t = w.text; size_t k = t.find("\xF0\x9F\x94\x92"); if (k != string::npos) { p.lock = true; t.erase(k, 4); }
    if (!bare(t, p.l)) return bad("literal", "\"" + w.text + "\" is not a literal");
    string st = w.style; size_t u = st.find("\033[4"); if (u != string::npos) { p.dec = true; st.erase(u, 3); }
    p.color = st; lits++;
    if ((unsigned)abs(p.l) > x.S.nvars()) return bad("literal", w.text + " has an unknown variable");
    int v = x.S.lv(p.l); string name = v > 0 ? "true" : v < 0 ? "false" : "undefined";
    auto it = colors.find(name); if (it == colors.end()) { for (auto& [n, cc] : colors) if (cc == st) return bad("value", w.text + " is " + name + " and is shown as " + n); colors[name] = st; }
    else if (it->second != st) { string as = "neither true, false nor undefined"; for (auto& [n, cc] : colors) if (cc == st) as = n; return bad("value", w.text + " is " + name + " and is shown as " + as); }
    bool isdec = v != 0 && is_decided(x.S.s, L(v > 0 ? p.l : -p.l));
    if (isdec != p.dec) return bad("decision", w.text + (isdec ? " is" : " is not") + " a decision but is" + (p.dec ? "" : " not") + " underlined");
    if (p.lock != (bool)(x.w.vars[abs(p.l)].locked)) return bad("lock", w.text + " is " + (p.lock ? "" : "not ") + "shown as assumed");
    return true;
  }
  // a clause as printed: flags and number, then its literals up to `until`
  bool clause(const vector<Word>& ws, size_t& i, PClause& p) {
    if (i < ws.size() && ws[i].text == "undef") { p.undef = true; i++; return true; }
    if (i >= ws.size() || ws[i].text.back() != ':') return bad("clause", "no clause where one is expected");
    string t = ws[i++].text; t.pop_back(); size_t k = 0;
    for (; k < t.size() && (t[k] == 'd' || t[k] == 'e' || t[k] == 'l'); k++) (t[k] == 'd' ? p.d : t[k] == 'e' ? p.e : p.l) = true;
    if (t[k] == 'C') k++;
    if (!number(t.substr(k), p.id)) return bad("clause", "\"" + t + "\" is not a clause");
    if (i < ws.size() && ws[i].text == "\u2610") { i++; return same(p); }
    PLit q; for (; i < ws.size() && (isdigit((unsigned char)ws[i].text[0]) || ws[i].text[0] == '~') && ws[i].text.back() != ':'; i++) { q = PLit(); if (!literal(ws[i], q)) return false; p.lits.push_back(q); }
    return same(p);
  }
  bool same(const PClause& p) { // against the events
    auto it = x.w.cls.find(p.id); if (it == x.w.cls.end()) return bad("clause", "clause " + to_string(p.id) + " is printed but unknown");
    vector<int> a, b = it->second.lits; for (auto& q : p.lits) a.push_back(q.l); sort(a.begin(), a.end()); sort(b.begin(), b.end());
    if (a != b) return bad("clause", "clause " + to_string(p.id) + " is " + oracle::str(b) + "and is printed as " + oracle::str(a));
    if (p.d == it->second.alive || p.e != it->second.external) return bad("clause-flags", "the flags of clause " + to_string(p.id) + " are wrong");
    return true;
  }
  string say(const string& cmd) { Capture cap; (*x.w.parser)(cmd); return cap.str(); }
  bool clause_set() {
    db.clear(); auto ws = words(say("PRINT clause-set")); size_t i = 0;
    while (i < ws.size()) { PClause p; if (!clause(ws, i, p)) return false; if (p.undef || p.d) return bad("clause-set", "a deleted or undefined clause is listed"); if (db.count(p.id)) return bad("clause-set", "clause " + to_string(p.id) + " is listed twice"); db[p.id] = p; }
    for (auto& [id, k] : x.w.cls) if (k.alive && !db.count(id)) return bad("clause-set", "clause " + to_string(id) + " is not listed");
    sets++; return true;
  }
  bool trail() {
    string text = say("PRINT trail"); istringstream is(text); string line; getline(is, line);
    const auto& t = get_partial_assignment(x.S.s); unsigned np, pend; auto h = words(line);
    if (h.size() < 4 || h[0].text != "trail:" || !number(h[1].text, np) || !number(h[3].text, pend) || np + pend != t.size()) return bad("trail", "header \"" + line + "\" for " + to_string(t.size()) + " literals");
    size_t n = 0; unsigned decisions = 0; level.clear(); bool head = false; unsigned conflicts = 0;
    while (getline(is, line)) {
      auto ws = words(line); if (ws.empty()) continue; size_t i = 0;
      if (ws[0].text == "^") { if (n != np) return bad("trail", "the propagation head is shown at " + to_string(n) + " and not at " + to_string(np)); head = true; continue; }
      if (ws[0].text == "conflict:") { i = 1; PClause p; if (!clause(ws, i, p)) return false; conflicts++; if (get_status(x.S.s) != status::UNSAT) for (auto& q : p.lits) if (x.S.lv(q.l) >= 0) return bad("trail", "the conflict " + to_string(p.id) + " is not falsified"); continue; }
      if (n >= t.size()) return bad("trail", "more literals than assigned");
      unsigned idx; string num = ws[0].text; if (num.back() != ':') return bad("trail", "\"" + line + "\""); num.pop_back();
      if (!number(num, idx) || idx != n) return bad("trail", "literal " + to_string(n) + " is numbered " + num);
      if (ws.size() < 8) return bad("trail", "\"" + line + "\"");
      unsigned lvl; if (!number(ws[3].text, lvl)) return bad("trail", "level \"" + ws[3].text + "\"");
      PLit q; if (!literal(ws[4], q)) return false;
      if (q.l != D(t[n])) return bad("trail", "literal " + to_string(n) + " is " + to_string(D(t[n])) + " and is printed as " + to_string(q.l));
      if (q.dec) { decisions++; if (lvl != decisions) return bad("trail-level", "decision " + to_string(decisions) + " is shown at level " + to_string(lvl)); }
      if ((lvl == 0) != is_root_level(x.S.s, t[n].var())) return bad("trail-level", to_string(q.l) + " is shown at level " + to_string(lvl) + " but is" + (lvl ? "" : " not") + " at root level");
      level[abs(q.l)] = lvl;
      i = 8; PClause p; if (!clause(ws, i, p)) return false;
      if (p.undef != q.dec) return bad("trail-reason", to_string(q.l) + (q.dec ? " is a decision with a reason" : " is implied without a reason"));
      if (!p.undef) {
        reasons++;
        if (x.w.vars[abs(q.l)].reason != p.id) return bad("trail-reason", "the reason of " + to_string(q.l) + " is " + to_string(x.w.vars[abs(q.l)].reason) + " and is printed as " + to_string(p.id));
        for (auto& o : p.lits) if (o.l != q.l && x.S.lv(o.l) >= 0) return bad("trail-reason", "the reason printed for " + to_string(q.l) + " does not imply it");
      }
      n++;
    }
    if (n != t.size()) return bad("trail", "only " + to_string(n) + " of " + to_string(t.size()) + " literals are printed");
    if (head != (pend > 0)) return bad("trail", "the propagation head is missing or past the end");
    trails++;
    // by levels
    text = say("PRINT trail-simple"); istringstream is2(text); getline(is2, line); map<int, unsigned> lv2; unsigned want = decisions;
    while (getline(is2, line)) {
      auto ws = words(line); if (ws.empty()) continue; unsigned lvl; string num = ws[0].text; if (num.back() != ':') return bad("trail-simple", line); num.pop_back();
      if (!number(num, lvl) || lvl != want) return bad("trail-simple", "level " + num + " where " + to_string(want) + " is expected"); want--;
      size_t last = 0; for (size_t i = 1; i < ws.size(); i++) { if (ws[i].text == "|") continue; int l; if (!bare(ws[i].text, l)) return bad("trail-simple", ws[i].text); lv2[l] = lvl; while (last < t.size() && D(t[last]) != l) last++; if (last == t.size()) return bad("trail-simple", ws[i].text + " is not assigned, or out of order"); }
    }
    if (lv2.size() != t.size()) return bad("trail-simple", to_string(lv2.size()) + " of " + to_string(t.size()) + " literals are printed");
    for (auto& [l, lvl] : lv2) if (level[abs(l)] != lvl) return bad("trail-simple", to_string(l) + " is at level " + to_string(level[abs(l)]) + " and is shown at " + to_string(lvl));
    simples++; return true;
  }
  struct W { int block; unsigned id; };
  bool watch_lists() { // after clause_set(): each clause is watched by its first two literals
    string text = say("PRINT watch-lists"); auto ws = words(text); map<int, vector<W>> bin; map<int, vector<unsigned>> lng; set<int> seen; int cur = 0; bool b = false;
    auto id_of = [](const string& t, unsigned& id) { return t[0] == 'C' && number(t.substr(1), id); };
    for (size_t i = 0; i < ws.size(); i++) {
      const string& t = ws[i].text;
      if (t == "watch" && i + 3 < ws.size()) { string q = ws[i + 3].text; if (q.back() != ':') return bad("watch-lists", q); q.pop_back(); if (!bare(q, cur) || (unsigned)abs(cur) > x.S.nvars() || !seen.insert(cur).second) return bad("watch-lists", "a list is shown for " + q); i += 3; }
      else if (t == "binary:") b = true; else if (t == "non-binary:") b = false;
      else if (b) { W w; if (i + 2 >= ws.size() || !bare(t, w.block) || ws[i + 1].text != "<-" || !id_of(ws[i + 2].text, w.id)) return bad("watch-lists", "\"" + t + "\" among binary clauses"); bin[cur].push_back(w); i += 2; }
      else { unsigned id; if (!id_of(t, id)) return bad("watch-lists", "\"" + t + "\" among clauses"); lng[cur].push_back(id); }
    }
    if (seen.size() != 2 * x.S.nvars()) return bad("watch-lists", to_string(seen.size()) + " lists for " + to_string(x.S.nvars()) + " variables");
    lists++;
    if (get_status(x.S.s) == status::UNSAT) return true;
    map<unsigned, multiset<int>> in; for (auto& [l, v] : bin) for (auto& w : v) { in[w.id].insert(l); auto it = db.find(w.id); watches++; if (it == db.end() || it->second.lits.size() != 2) return bad("watch-lists", "clause " + to_string(w.id) + " is in a binary list of " + to_string(l)); auto& q = it->second.lits; if (!((q[0].l == l && q[1].l == w.block) || (q[1].l == l && q[0].l == w.block))) return bad("watch-lists", "clause " + to_string(w.id) + " is listed for " + to_string(l) + " with " + to_string(w.block)); }
    for (auto& [l, v] : lng) for (unsigned id : v) { in[id].insert(l); watches++; auto it = db.find(id); if (it == db.end()) return bad("watch-lists", "clause " + to_string(id) + " is listed for " + to_string(l) + " but is deleted"); if (it->second.lits.size() < 3) return bad("watch-lists", "clause " + to_string(id) + " is listed for " + to_string(l) + " but is short"); }
    for (auto& [id, k] : db) if (k.lits.size() >= 2) { multiset<int> want{k.lits[0].l, k.lits[1].l}; if (in[id] != want) { string got; for (int l : in[id]) got += to_string(l) + " "; return bad("watch-lists", "clause " + to_string(id) + " starting with " + to_string(k.lits[0].l) + " " + to_string(k.lits[1].l) + " is in the lists of " + got); } }
    return true;
  }
  static string field(const string& t, const string& name) { size_t k = t.find("\n" + name); if (t.rfind(name, 0) == 0) k = 0; else if (k == string::npos) return "?"; else k++; k += name.size(); size_t e = t.find('\n', k); string v = t.substr(k, e - k); while (!v.empty() && v[0] == ' ') v.erase(0, 1); return v; }
  bool details(Rng& r) {
    for (int n = 0; n < 3 && x.S.nvars(); n++) {
      unsigned v = (unsigned)r.range(1, x.S.nvars()); string t = sent->var_detail(sentinel::Tvar(v)); int val = x.S.value((int)v); auto at = "variable " + to_string(v) + ": ";
      int lit = val > 0 ? (int)v : -(int)v; bool dec = val && is_decided(x.S.s, L(lit));
      string tag = field(t, "tags:"); if (tag != (dec ? "decision" : val ? "implied" : "unassigned")) return bad("variable", at + "tag " + tag);
      if (field(t, "value:") != (val > 0 ? "true" : val < 0 ? "false" : "undef")) return bad("variable", at + "value " + field(t, "value:"));
      string lv = field(t, "\u03B4:"); if (val ? lv != to_string(level[(int)v]) : (lv.size() && isdigit((unsigned char)lv[0]))) return bad("variable", at + "level " + lv);
      string rho = field(t, "\u03C1:"); unsigned rs = x.w.vars[v].reason;
      if (!val || dec) { if (val && rho != "undef") return bad("variable", at + "reason " + rho); }
      else { istringstream is(rho); string tok; is >> tok; if (tok.empty() || tok.back() != ':') return bad("variable", at + "reason " + rho); tok.pop_back(); if (tok[0] == 'C') tok.erase(0, 1); unsigned id; if (!number(tok, id) || id != rs) return bad("variable", at + "reason " + rho + " and not " + to_string(rs));
        vector<int> a, b = x.w.cls[rs].lits; while (is >> tok) { int l; if (!bare(tok, l)) return bad("variable", at + "reason " + rho); a.push_back(l); } sort(a.begin(), a.end()); sort(b.begin(), b.end()); if (a != b) return bad("variable", at + "reason " + rho + " and not " + oracle::str(b)); }
      unsigned cnt = 0; for (auto& [id, k] : db) { bool has = false; for (auto& q : k.lits) has |= abs(q.l) == (int)v; cnt += has; }
      if (field(t, "n_clauses:") != to_string(cnt)) return bad("variable", at + "occurs in " + to_string(cnt) + " clauses and is shown in " + field(t, "n_clauses:"));
      if (field(t, "locked:") != (x.w.vars[v].locked ? "true" : "false")) return bad("variable", at + "locked " + field(t, "locked:"));
      vars++;
    }
    for (int n = 0; n < 3 && !db.empty(); n++) {
      auto it = db.begin(); advance(it, (long)r.below(db.size())); unsigned id = it->first; string t = sent->clause_detail(sentinel::Tclause(id)); auto at = "clause " + to_string(id) + ": ";
      string tags = " " + field(t, "tags:") + " "; if ((tags.find(" external ") != string::npos) != it->second.e || (tags.find(" learned ") != string::npos) != it->second.l || tags.find(" deleted ") != string::npos) return bad("clause-info", at + "tags" + tags);
      if (field(t, "size:") != to_string(it->second.lits.size())) return bad("clause-info", at + "size " + field(t, "size:"));
      size_t k = t.find("Literals:\n"); istringstream is(k == string::npos ? "" : t.substr(k + 10)); string line; vector<int> a, b;
      while (getline(is, line)) { istringstream ls(line); string tok, val, sep, lvl; ls >> tok; if (tok.back() == ':') tok.pop_back(); else { ls >> val; if (val != "(watched):") return bad("clause-info", at + line); } int l; if (!bare(tok, l)) return bad("clause-info", at + line); ls >> val >> sep >> lvl; int v = x.S.lv(l);
        if (val != (v > 0 ? "true" : v < 0 ? "false" : "undef") || (v && lvl != to_string(level[abs(l)]))) return bad("clause-info", at + line); a.push_back(l); }
      for (auto& q : it->second.lits) b.push_back(q.l);
      if (a != b) return bad("clause-info", at + "literals " + oracle::str(a));
      infos++;
    }
    if (sent->clause_detail(sentinel::Tclause(0xFFFFFFFFu)) != "undef" || sent->clause_detail(sentinel::Tclause(4000000u)) != "invalid clause") return bad("clause-info", "an undefined or invalid clause is described");
    return true;
  }
  bool all(Rng& r) { return clause_set() && trail() && watch_lists() && details(r); }
};
static void w_printed(Ctx& c, Rng& r) {
  Plan p = plan(r, 1, false); static map<string, string> colors;
  if (p.f.size() > 120) p.f.resize(120);
  Observed x(c, p, {"-i"}); x.open(); sentinel::SATSentinel* sent = sentinel::last_sentinel();
  Reader rd{x, sent, colors}; Rng q(r.next());
  while (!x.done && !x.w.failed) { x.step(); if (get_status(x.S.s) == status::ERROR) break; if (q.chance(60) || x.done) if (!rd.all(q)) return; }
  c.count("literals_read", rd.lits); c.count("trails_read", rd.trails); c.count("trails_by_level_read", rd.simples); c.count("clause_sets_read", rd.sets); c.count("watch_lists_read", rd.lists); c.count("watches", rd.watches);
  c.count("variables_read", rd.vars); c.count("clauses_read", rd.infos); c.count("reasons_read", rd.reasons);
  c.nontrivial(mix(x.seen.empty() ? 0 : x.seen.back(), p.seed)); c.count("strat:" + p.g.tag);
  if (!x.S.s || r.below(20) == 0) { string t = rd.say("PRINT trail"); c.sample(t.substr(0, 600)); }
}

int main(int argc, char** argv) {
  env::set_suppress_info(true); env::set_suppress_warning(true);
  env::set_invariant_configuration_folder(string(getenv("VF_REPO") ? getenv("VF_REPO") : "/repo") + "/invariant-configurations/");
  return run_main(argc, argv, {{"twins", w_twins}, {"threads", w_threads}, {"observed", w_observed}, {"commands", w_commands}, {"printed", w_printed}});
}
