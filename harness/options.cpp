// C16: lists of arguments against a model of what the documentation says they set.
#include "common.hpp"
#include "SAT-options.hpp"
#include <cmath>
#include <cstring>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
using namespace napsat; using namespace std; using namespace vf;

struct BoolField { const char* name; vector<string> aliases; bool options::*p; bool def; };
struct NumField { const char* name; vector<string> aliases; double options::*p; double def; };
static const vector<BoolField> BOOLS = {
  {"--chronological-backtracking", {"-cb"}, &options::chronological_backtracking, false},
  {"--lazy-strong-chronological-backtracking", {"-lscb"}, &options::lazy_strong_chronological_backtracking, false},
  {"--graph-backtracking", {"-gb"}, &options::graph_backtracking, false},
  {"--lazy-chunk-merging", {"-lcm"}, &options::lazy_chunk_merging, false},
  {"--eager-chunk-merging", {"-ecm"}, &options::eager_chunk_merging, false},
  {"--backtrack-smallest-chunk", {"-bsc"}, &options::backtrack_smallest_chunk, false},
  {"--backtrack-first-chunk", {"-bfc"}, &options::backtrack_first_chunk, false},
  {"--delete-clauses", {"-del"}, &options::delete_clauses, true},
  {"--ignore-unused-variables", {"-iuv", "--ignore-unused_variables"}, &options::ignore_unused_variables, false},
  {"--interactive", {"-i"}, &options::interactive, false},
  {"--observing", {"-o"}, &options::observing, false},
  {"--check-invariants", {"-c"}, &options::check_invariants, false},
  {"--save-state-on-interrupt", {"-ssi"}, &options::save_state_on_interrupt, true},
  {"--statistics", {"-stat"}, &options::print_stats, false},
  {"--live-statistics", {"-live-stat"}, &options::print_live_stats, false},
  {"--proof", {"-bp"}, &options::build_proof, false},
  {"--check-proof", {"-cp"}, &options::check_proof, false},
  {"--print-proof", {"-pp"}, &options::print_proof, false},
  {"--record-dependencies", {}, &options::record_dependencies, false},
  {"--restarts", {}, &options::restarts, true},
  {"--backtrack-learned", {"-bl"}, &options::backtrack_learned, false},
  {"--use-max-approximate-cost-estimation", {"-max-approx-cost"}, &options::use_max_approximate_cost_estimation, false},
  {"--use-sum-approximate-cost-estimation", {"-sum-approx-cost"}, &options::use_sum_approximate_cost_estimation, false},
  {"--use-vsids-approximate-cost-estimation", {"-vsids-approx-cost"}, &options::use_vsids_approximate_cost_estimation, false},
};
static const vector<NumField> NUMS = {
  {"--var-activity-decay", {}, &options::var_activity_decay, 0.95},
  {"--clause-elimination-multiplier", {}, &options::clause_elimination_multiplier, 2.0},
  {"--clause-activity-multiplier", {}, &options::clause_activity_multiplier, 1.001},
  {"--clause-activity-threshold-decay", {}, &options::clause_activity_threshold_decay, 0.85},
  {"--chunk-level-penalty", {}, &options::chunk_level_penalty, 0.01},
  {"--backtrack-possibilities-limit", {}, &options::backtrack_possibilities_limit, 1000},
  {"--sync-weight", {}, &options::sync_weight, 8},
  {"--timeout", {"-t"}, &options::timeout, -1},
  {"--conflict-limit", {"-cl"}, &options::conflict_limit, -1},
};
static const size_t THRESHOLD = 3;   // the only option with a documented hard range

struct Model { vector<bool> b; vector<double> d; vector<string> sentinel; };
static Model defaults() { Model m; for (auto& f : BOOLS) m.b.push_back(f.def); for (auto& f : NUMS) m.d.push_back(f.def); return m; }
static size_t idx(const char* n) { for (size_t i = 0; i < BOOLS.size(); i++) if (!strcmp(BOOLS[i].name, n)) return i; abort(); }

// the documented implications, on what was asked
static bool resolve(Model& m) {
  static const size_t cb = idx("--chronological-backtracking"), ls = idx("--lazy-strong-chronological-backtracking"), gb = idx("--graph-backtracking"), lcm = idx("--lazy-chunk-merging"), ecm = idx("--eager-chunk-merging"), bsc = idx("--backtrack-smallest-chunk"), bfc = idx("--backtrack-first-chunk"), bl = idx("--backtrack-learned"), mx = idx("--use-max-approximate-cost-estimation"), sm = idx("--use-sum-approximate-cost-estimation"), vs = idx("--use-vsids-approximate-cost-estimation"), bp = idx("--proof"), cp = idx("--check-proof"), pp = idx("--print-proof"), st = idx("--statistics"), ll = idx("--live-statistics"), ob = idx("--observing"), in = idx("--interactive");
  Model a = m; auto& b = m.b; bool conflict = false;
  for (size_t x : {lcm, ecm, bsc, bfc, bl, mx, sm, vs}) if (b[x] && !b[gb]) { b[x] = false; conflict = true; }
  if (b[ecm] && b[lcm]) { b[ecm] = false; conflict = true; }
  if (b[bsc] && b[bfc]) { b[bsc] = false; conflict = true; }
  if (b[sm] && b[mx]) { b[sm] = false; conflict = true; }
  if (b[vs] && (b[mx] || b[sm])) { b[vs] = false; conflict = true; }
  if (b[ls] && b[cb]) conflict = true;
  if (b[ls]) b[cb] = true;                       // strong backtracking is a chronological one
  if (b[gb] && b[cb]) { b[cb] = b[ls] = false; conflict = true; }
  if (b[cp] || b[pp]) b[bp] = true;
  if ((b[st] || b[ll]) && !b[ob] && !b[in]) { b[st] = b[ll] = false; conflict = true; }
  return conflict;
}

struct Capture { ostringstream os; streambuf *o, *e; Capture() { o = cout.rdbuf(os.rdbuf()); e = cerr.rdbuf(os.rdbuf()); } ~Capture() { cout.rdbuf(o); cerr.rdbuf(e); } };
static string join(const vector<string>& t) { string s; for (auto& x : t) s += (s.empty() ? "" : " ") + (x.find(' ') != string::npos ? "'" + x + "'" : x); return s; }

struct Gen {
  vector<string> tokens; Model m = defaults(); vector<string> reported; set<string> done;
  bool bad_range = false, clean = true;
  string name(Rng& r, const char* n, const vector<string>& al) { if (al.empty() || r.chance(50)) return n; return r.pick(al); }
};
static void add_bool(Ctx& c, Rng& r, Gen& g, size_t i) {
  auto& f = BOOLS[i]; string t = g.name(r, f.name, f.aliases); bool dup = g.done.count(f.name);
  g.tokens.push_back(t);
  if (dup) { // the second occurrence is reported and ignored, and so is its value
    g.reported.push_back(t); g.clean = false; c.count("duplicates");
    if (r.chance(60)) { string v = r.chance(50) ? "on" : "off"; g.tokens.push_back(v); g.reported.push_back(v); }
    return; }
  switch (r.below(12)) {
    case 0: case 1: case 2: g.tokens.push_back("off"); g.m.b[i] = false; g.done.insert(f.name); break;
    case 3: case 4: case 5: case 6: g.tokens.push_back("on"); g.m.b[i] = true; g.done.insert(f.name); break;
    case 7: { string v = r.pick(vector<string>{"yes", "1", "ON", "true", "of", "onn", "0", "o", "=on"}); g.tokens.push_back(v); g.reported.push_back(t); g.reported.push_back(v); g.clean = false; c.count("malformed_values"); break; }
    default: g.m.b[i] = true; g.done.insert(f.name); c.count("bare_flags"); break;
  }
}
static void add_num(Ctx& c, Rng& r, Gen& g, size_t i) {
  auto& f = NUMS[i]; string t = g.name(r, f.name, f.aliases); bool dup = g.done.count(f.name);
  g.tokens.push_back(t);
  if (dup) { g.reported.push_back(t); g.tokens.push_back("7"); g.reported.push_back("7"); g.clean = false; c.count("duplicates"); return; }
  unsigned k = r.below(12);
  if (k == 0) { string v = r.pick(vector<string>{"abc", "1x", "1,5", "--", "1e", "0.5.5", "1 2", "on", "1e999"}); g.tokens.push_back(v); g.reported.push_back(t); g.clean = false; g.reported.push_back(v); c.count("malformed_values"); return; }
  if (k == 1) { g.reported.push_back(t); g.clean = false; c.count("missing_values"); return; }
  string v; 
  if (i == THRESHOLD && !r.chance(25)) v = r.pick(vector<string>{"0", "1", "0.5", "1e-3", ".25", "1.0", "0.999999"});
  else v = r.pick(vector<string>{"0", "1", "2.5", "-1", "-0.5", "1e3", "+4", ".5", "5.", "0x10", "1000000", "-1e-7", "123456.789", "1e300"});
  if (i == THRESHOLD && r.chance(5)) { v = r.pick(vector<string>{"nan", "-nan", "inf", "-inf"}); }
  double d = strtod(v.c_str(), nullptr);
  g.tokens.push_back(v); g.m.d[i] = d; g.done.insert(f.name);
  if (i == THRESHOLD && !(d >= 0 && d <= 1)) g.bad_range = true;
}
static void w_options(Ctx& c, Rng& r) {
  Gen g; unsigned n = (unsigned)r.below(r.chance(20) ? 25 : 9); bool rich = r.chance(60);
  for (unsigned k = 0; k < n; k++) {
    unsigned w = r.below(20);
    if (w == 0 && rich) { string t = r.pick(vector<string>{"--foo", "-x", "foo", "--graph", "-gbb", "--GB", "-", "--chronological-backtracking=on", "-CB", "-DEL", "on", "0.5", "--sync-weight=3", "--timeou", "-hs"});
      g.tokens.push_back(t); g.reported.push_back(t); g.clean = false; c.count("unknown");
      // a word after a bare flag is its value
      if (t[0] != '-' && g.tokens.size() > 1) { g.tokens.pop_back(); g.reported.pop_back(); g.tokens.insert(g.tokens.begin(), t); g.reported.push_back(t); } }
    else if (w < 14) { size_t i = r.chance(60) ? r.below(7) : r.below(BOOLS.size()); if (g.done.count(BOOLS[i].name) && !r.chance(20)) continue; add_bool(c, r, g, i); }
    else if (w < 15) { // a group for the observer
      if (g.done.count("--observing")) continue;
      bool once = true; for (auto& t : g.tokens) if (t == "-o" || t == "--observing") once = false; if (!once) continue;
      vector<string> in; for (int q = (int)r.below(4); q > 0; q--) in.push_back(r.pick(vector<string>{"--gui", "-commands", "file.txt", "off", "-cb", "on", "-del"}));
      g.tokens.push_back(r.chance(50) ? "-o" : "--observing"); string all; for (auto& x : in) all += (all.empty() ? "" : " ") + x;
      if (r.chance(50) || in.empty()) g.tokens.push_back("{" + all + "}");
      else for (size_t q = 0; q < in.size(); q++) g.tokens.push_back((q == 0 ? "{" : "") + in[q] + (q + 1 == in.size() ? "}" : ""));
      g.m.b[idx("--observing")] = true; g.m.sentinel = in; g.done.insert("--observing"); c.count("observer_groups"); }
    else { size_t i = r.below(NUMS.size()); if (g.done.count(NUMS[i].name) && !r.chance(20)) continue; add_num(c, r, g, i); }
  }
  // a flag without value reads the next token: what follows must not start with a dash unless it is its value, which
  // the construction above guarantees, except that a missing number may be followed by something that reads as one
  for (size_t k = 0; k + 1 < g.tokens.size(); k++) for (auto& f : NUMS) { bool is = g.tokens[k] == f.name; for (auto& a : f.aliases) is |= g.tokens[k] == a;
    if (is) { const string& v = g.tokens[k + 1]; char* e; strtod(v.c_str(), &e); (void)e; } }
  string text = join(g.tokens); Model want = g.m; bool conflict = resolve(want);
  c.count("lists"); c.count("tokens", g.tokens.size()); if (conflict) c.count("conflicts");
  c.nontrivial(fnv(text)); c.sample(text.substr(0, 300));
  env::set_suppress_warning(false); env::set_suppress_info(false);

  if (g.bad_range) { // the only fatal mistake: the process ends with 1
    c.count("fatal_ranges"); cout.flush(); cerr.flush();
    pid_t p = fork(); if (p == 0) { Capture k; vector<string> t = g.tokens; options o(t); _exit(42); }
    int st = 0; waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) c.violation("range/accepted", "a threshold decay outside of [0, 1] was accepted, status " + to_string(st) + " [" + text + "]");
    return;
  }
  vector<string> t = g.tokens; string out; options* o;
  { Capture k; o = new options(t); out = k.os.str(); }
  auto fail = [&](const string& key, const string& d) { c.violation(key, d + " [" + text + "]"); };
  for (size_t i = 0; i < BOOLS.size(); i++) if (o->*BOOLS[i].p != want.b[i]) fail(string("value/") + BOOLS[i].name, string(BOOLS[i].name) + " is " + (o->*BOOLS[i].p ? "on" : "off"));
  for (size_t i = 0; i < NUMS.size(); i++) if (!(o->*NUMS[i].p == want.d[i])) fail(string("value/") + NUMS[i].name, string(NUMS[i].name) + " is " + to_string(o->*NUMS[i].p) + ", not " + to_string(want.d[i]));
  if (o->sentinel_options.seen_tokens != want.sentinel) fail("observer-group", "the observer was handed '" + join(o->sentinel_options.seen_tokens) + "'");
  for (auto& x : g.reported) { c.count("reports_expected"); if (out.find(x) == string::npos) fail("not-reported", "nothing was said about '" + x + "': " + out); }
  bool said = out.find("WARNING") != string::npos || !out.empty();
  if (g.clean && !conflict && said) fail("spurious-report", "a correct list was reported: " + out);
  if (conflict && !said) fail("conflict-not-reported", "incompatible options were not reported");
  delete o;

  // no dependency on the order: without repeated options, any order of the same arguments means the same
  if (g.clean && n > 1) {
    vector<vector<string>> groups; for (auto& x : g.tokens) { bool val = !groups.empty() && (x[0] != '-' || groups.back().size() == 1); 
      bool isnum = false; if (val && x[0] == '-') { for (auto& f : NUMS) { isnum |= groups.back()[0] == f.name; for (auto& a : f.aliases) isnum |= groups.back()[0] == a; } if (!isnum && groups.back()[0] != "-o" && groups.back()[0] != "--observing") val = false; if (!isnum) val = false; }
      if (!groups.empty() && groups.back().size() > 1 && groups.back()[1][0] == '{' && groups.back().back().back() != '}') val = true;
      if (val) groups.back().push_back(x); else groups.push_back({x}); }
    for (size_t k = groups.size(); k > 1; k--) swap(groups[k - 1], groups[r.below(k)]);
    vector<string> q; for (auto& x : groups) for (auto& y : x) q.push_back(y);
    vector<string> q0 = q; options* p; { Capture k; p = new options(q); }
    c.count("permuted");
    for (size_t i = 0; i < BOOLS.size(); i++) if (p->*BOOLS[i].p != want.b[i]) c.violation(string("order/") + BOOLS[i].name, string(BOOLS[i].name) + " depends on the order [" + join(q0) + "] of [" + text + "]");
    for (size_t i = 0; i < NUMS.size(); i++) if (!(p->*NUMS[i].p == want.d[i])) c.violation(string("order/") + NUMS[i].name, string(NUMS[i].name) + " depends on the order [" + join(q0) + "] of [" + text + "]");
    delete p;
  }
}

// the settings that concern the process are taken out, in whatever position, and nothing else is
static void w_env(Ctx& c, Rng& r) {
  static const vector<string> SW = {"-sw", "--suppress-warning"}, SI = {"-si", "--suppress-info"}, ICF = {"-icf", "--invariant-configuration-folder"}, OBS = {"--obsidian-template-folder"};
  env::set_suppress_warning(false); env::set_suppress_info(false); env::set_invariant_configuration_folder("D1"); env::set_obsidian_template_folder("D2");
  bool sw = false, si = false; string icf = "D1", obs = "D2"; vector<string> tokens, rest; bool quiet = false; size_t missing = 0;
  unsigned n = (unsigned)r.below(10);
  for (unsigned k = 0; k < n; k++) {
    switch (r.below(6)) {
      case 0: case 1: { bool w = r.chance(50); tokens.push_back(r.pick(w ? SW : SI)); bool& x = w ? sw : si;
        switch (r.below(4)) { case 0: tokens.push_back("on"); x = true; break; case 1: tokens.push_back("off"); x = false; break;
          case 2: { string v = r.pick(vector<string>{"yes", "1", "offf"}); tokens.push_back(v); rest.push_back(v); missing++; break; }
          default: x = true; // bare: must be followed by a dash or nothing
            { string v = r.pick(vector<string>{"-gb", "-cb", "--proof"}); tokens.push_back(v); rest.push_back(v); } }
        break; }
      case 2: { bool w = r.chance(50); tokens.push_back(w ? r.pick(ICF) : r.pick(OBS)); string& x = w ? icf : obs;
        if (r.chance(75)) { string v = r.pick(vector<string>{"dir", "/a/b c", "../x/", "on"}); tokens.push_back(v); x = v; }
        else { tokens.push_back("-del"); rest.push_back("-del"); missing++; } break; }
      default: { string v = r.pick(vector<string>{"-gb", "-lscb", "on", "off", "foo", "--timeout", "-1", "{--gui}", "-s"}); 
        if (v[0] != '-' && !tokens.empty() && !rest.empty() && tokens.back() != rest.back()) v = "-del";
        tokens.push_back(v); rest.push_back(v); }
    }
  }
  string text = join(tokens); vector<string> t = tokens, got; string out;
  { Capture k; got = env::extract_environment_variables(t); out = k.os.str(); }
  (void)quiet;
  c.count("env_lists"); c.count("env_tokens", tokens.size()); c.nontrivial(fnv(text) ^ 77);
  if (got != rest) c.violation("env/rest", "left '" + join(got) + "' instead of '" + join(rest) + "' [" + text + "]");
  if (env::get_suppress_warning() != sw || env::get_suppress_info() != si) c.violation("env/flags", "the flags are not as asked [" + text + "]");
  if (env::get_invariant_configuration_folder() != icf || env::get_obsidian_template_folder() != obs) c.violation("env/folders", "the folders are not as asked [" + text + "]");
  if (!missing && !out.empty()) c.violation("env/spurious-report", out + " [" + text + "]");
  env::set_suppress_warning(false); env::set_suppress_info(false);
}

// every option is in the help text, with its aliases and the value it has when nothing is given
static void w_help(Ctx& c, Rng&) {
  string h = options::get_help_text(); istringstream is(h); string l; map<string, string> entry;
  while (getline(is, l)) { size_t p = l.find("  --"); if (p != 0) continue; string n = l.substr(2, l.find_first_of(" ,", 2) - 2); if (entry.count(n)) c.violation("help/twice", l); entry[n] = l; }
  vector<string> none; options d(none);
  auto look = [&](const char* n, const vector<string>& al, const string& def) {
    c.count("help_entries"); if (!entry.count(n)) { c.violation("help/missing", n); return; }
    const string& e = entry[n]; string head = e.substr(0, e.find('(')); for (char& x : head) if (x == ',') x = ' ';
    set<string> words; { istringstream w(head); string x; while (w >> x) words.insert(x); } 
    for (auto& a : al) if (!words.count(a)) c.violation("help/alias", a + " is not in '" + e + "'");
    size_t q = e.find("default "); if (q == string::npos) { c.violation("help/default", e); return; }
    string v = e.substr(q + 8, e.find(')', q) - q - 8);
    if (def == "on" || def == "off" ? v != def : atof(v.c_str()) != atof(def.c_str())) c.violation("help/default", "the default of " + string(n) + " is " + def + ", not " + v); };
  for (auto& f : BOOLS) look(f.name, f.aliases, d.*f.p ? "on" : "off");
  for (auto& f : NUMS) { look(f.name, f.aliases, to_string(d.*f.p)); if (d.*f.p != f.def) c.violation("default", f.name); }
  for (auto& f : BOOLS) if (d.*f.p != f.def) c.violation("default", f.name);
  c.nontrivial(fnv(h));
}
static void w_all(Ctx& c, Rng& r) { if (r.chance(2)) w_help(c, r); else if (r.chance(25)) w_env(c, r); else w_options(c, r); }
int main(int argc, char** argv) { return run_main(argc, argv, {{"options", w_all}}); }
