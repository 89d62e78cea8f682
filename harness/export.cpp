// C27: what the exporter writes, read back from the files.
#include <filesystem>
#include <fstream>
#include "session.hpp"
#include "src/solver/NapSAT.hpp"
using namespace napsat; using namespace std; using namespace vf;
using oracle::Cnf; using oracle::Clause;
namespace fs = std::filesystem;

// save_state is not part of the public interface: a debugging session calls it from the debugger
template<void (NapSAT::*M)()> struct Open { friend void save_state_of(NapSAT& s) { (s.*M)(); } };
void save_state_of(NapSAT&);
template struct Open<&NapSAT::save_state>;

struct Input { // what the user types
  istringstream is; streambuf* old;
  Input(const string& text) : is(text) { old = cin.rdbuf(is.rdbuf()); cin.clear(); }
  ~Input() { cin.rdbuf(old); cin.clear(); }
  bool left() { string rest; getline(is, rest, '\0'); return !rest.empty(); }
};
static string text_of(const fs::path& p) { ifstream i(p); stringstream s; s << i.rdbuf(); return s.str(); }
static string name_of(int l) { return l > 0 ? to_string(l) : "~" + to_string(-l); }
static set<string> names(const fs::path& dir) { set<string> r; for (auto& e : fs::directory_iterator(dir)) r.insert(e.path().filename().string()); return r; }
static vector<string> lines_of(const string& t) { vector<string> v; istringstream is(t); string l; while (getline(is, l)) v.push_back(l); return v; }
static void put(const fs::path& p, const string& t) { ofstream o(p); o << t; }
static const string IMPLYING = "Implying the following literals";
// splits the text of a file into the description and the literals implied
static bool split(const string& t, string& info, vector<string>& links) {
  size_t k = t.find(IMPLYING); info = t.substr(0, k); links.clear(); if (k == string::npos) return true;
  auto ls = lines_of(t.substr(k)); for (size_t i = 1; i < ls.size(); i++) { if (ls[i].empty()) continue; if (ls[i].rfind("- [[", 0) || ls[i].size() < 7 || ls[i].substr(ls[i].size() - 2) != "]]") return false; links.push_back(ls[i].substr(4, ls[i].size() - 6)); }
  return true;
}
struct Vault { // a folder of the scratch directory, that the exporter fills
  Ctx& c; Rng& r; fs::path root, dir; string slash; bool templated;
  Vault(Ctx& c_, Rng& r_) : c(c_), r(r_) {
    root = fs::path(c.scratch) / "vaults"; fs::remove_all(root); fs::create_directory(root);
    templated = r.chance(70); fs::path t = root / "template"; fs::create_directory(t);
    if (templated) { fs::create_directory(t / ".obsidian"); put(t / ".obsidian" / "app.json", "{\"a\": 1}"); fs::create_directory(t / ".obsidian" / "sub"); put(t / ".obsidian" / "sub" / "graph.json", "{}"); }
    env::set_obsidian_template_folder(t.string());
    static const vector<string> nm = {"graph", "VAULT_NAME", "my VAULT_NAME graph", "g.1", "with space"};
    dir = root / r.pick(nm); slash = r.chance(25) ? r.chance(50) ? "/" : "//" : "";
  }
  ~Vault() { fs::remove_all(root); }
  // state of the folder before an export
  void prepare() {
    if (r.chance(30)) fs::remove_all(dir);
    else { fs::create_directory(dir); for (int i = (int)r.below(4); i; i--) put(dir / (r.pick(vector<string>{"~1.md", "1.md", "9999.md", "notes.txt", "~7.md", "image.png"})), "an older export\n" + IMPLYING + ": \n- [[1]]\n");
      if (r.chance(30) && !fs::exists(dir / ".obsidian")) { fs::create_directory(dir / ".obsidian"); put(dir / ".obsidian" / "mine.json", "mine"); } }
  }
};
// what the user types before the export takes place: refused names first
static string answers(Vault& v) {
  string a; Rng& r = v.r;
  for (int i = (int)r.below(3); i; i--) a += r.chance(50) ? "\n" : (v.root / "absent" / "deep").string() + "\n";
  return a + v.dir.string() + v.slash + "\n";
}
static bool folder(Vault& v, bool mine, const set<string>& want, const string& what, string& why) {
  if (!fs::is_directory(v.dir)) { why = "the folder does not exist"; return false; }
  set<string> got = names(v.dir), w = want; if (mine || v.templated) w.insert(".obsidian");
  for (auto& n : got) if (!w.count(n)) { why = "the file " + n + " is not of this export (" + what + ")"; return false; }
  for (auto& n : w) if (!got.count(n)) { why = "the file " + n + " is missing (" + what + ")"; return false; }
  if (mine) { if (text_of(v.dir / ".obsidian" / "mine.json") != "mine") { why = "the configuration of the vault was changed"; return false; } v.c.count("configurations_kept"); }
  else if (v.templated) { if (text_of(v.dir / ".obsidian" / "app.json") != "{\"a\": 1}" || text_of(v.dir / ".obsidian" / "sub" / "graph.json") != "{}") { why = "the template of the vault was not copied"; return false; } v.c.count("templates_copied"); }
  return true;
}

// ------------------------------------------------------------------ the state of a solver
static void w_state(Ctx& c, Rng& r) {
  Config g = make_config(r, true, r.chance(15)); bool off = r.chance(10); if (off) { g.extra.push_back("-ssi"); g.extra.push_back("off"); }
  Session S(c, g); S.mode = (int)r.below(3); S.m.step_limit = 20000000; S.m.check_assign = false; S.m.track_levels = true; string fam; Cnf f = gen::formula(r, 0, &fam); if (f.size() > 80) f.resize(80);
  S.open(); Vault v(c, r); size_t next = 0; uint64_t h = 1469598103934665603ull; int done = 0;
  auto weird = [&](const string& k, const string& w) { S.fail("exported-" + k, w); };
  auto check = [&]() -> bool {
    v.prepare(); bool mine = fs::exists(v.dir / ".obsidian" / "mine.json"), had = fs::exists(v.dir); set<string> before; if (had) before = names(v.dir);
    // y or n, junk first; or the end of the input
    string said; for (int i = (int)r.below(3); i; i--) said += r.pick(vector<string>{"", "yes", "maybe", "no", " y"}) + "\n";
    bool yes = r.chance(85), eof = r.chance(6); said += eof && r.chance(50) ? "" : string(yes ? (r.chance(50) ? "y" : "Y") : (r.chance(50) ? "n" : "N")) + "\n"; if (eof) yes = false; 
    if (eof && said.size() && r.chance(50)) said += r.chance(50) ? "\n\n" : (v.root / "absent" / "deep").string() + "\n"; 
    if (yes) said += answers(v);
    bool more = r.chance(50); if (yes && more) said += "something else\n";
    S.note("export"); vector<Tlit> trail = get_partial_assignment(S.s); status st = get_status(S.s);
    { Input in(said); Capture cap; save_state_of(*S.s);
      if (yes && !off && in.left() != more) { weird("input", "the answers were not read line by line: " + said); return false; }
      if (off && !said.empty() && !in.left()) { weird("input", "the user was asked although the option is off"); return false; } }
    if (get_partial_assignment(S.s) != trail || get_status(S.s) != st) { weird("state", "exporting changed the solver"); return false; }
    if (!yes || off) { if (fs::exists(v.dir) != had || (had && names(v.dir) != before)) { weird("refused", "an export that was not requested changed the folder"); return false; } c.count(eof ? "ends_of_input" : off ? "disabled" : "declined"); return true; }
    set<string> want; for (Tlit l : trail) want.insert(name_of(D(l)) + ".md");
    string why; if (!folder(v, mine, want, S.cfg.text(), why)) { weird("files", why); return false; }
    // the edges, from the reasons that were notified
    map<int, multiset<string>> edges; set<int> conflicting; uint64_t n = 0;
    for (Tlit t : trail) { int l = D(t); unsigned reason = S.m.vars[(unsigned)abs(l)].reason; auto k = S.m.cls.find(reason); if (k == S.m.cls.end()) continue;
      for (int q : k->second.lits) if (q != l) { edges[-q].insert(name_of(l)); n++; } }
    string vault = v.dir.filename().string(); map<unsigned, unsigned> seen;
    // the lists of the clauses watched by a literal and its opposite
    auto bare = [](const string& t) { vector<int> o; for (size_t i = 0; (i = t.find(")\">", i)) != string::npos;) { i += 3; if (t.compare(i, 3, "<u>") == 0) i += 3; bool n = t[i] == '~'; if (n) i++; int x = atoi(t.c_str() + i); o.push_back(n ? -x : x); } return o; };
    auto watches = [&](int l, const string& info, map<unsigned, unsigned>& times) -> bool {
      int cur = 0, lists = 0;
      for (auto& line : lines_of(info)) {
        if (line.rfind("Watch list for ", 0) == 0) { auto x = bare(line); if (x.size() != 1) { weird("watch-list", line); return false; } cur = x[0]; if (abs(cur) != abs(l) || (++lists == 1) != (cur == l)) { weird("watch-list", "a list of " + to_string(cur) + " in the file of " + to_string(l)); return false; } continue; }
        bool binary = line.rfind("  Binary clause ", 0) == 0; if (!binary && line.rfind("  Clause ", 0)) continue;
        size_t b = line.find(" with blocking literal "); if (b == string::npos || !cur) { weird("watch-list", line); return false; }
        auto x = bare(line.substr(0, b)), y = bare(line.substr(b)); if (y.size() != 1) { weird("watch-list", line); return false; }
        string num; for (char ch : line.substr(binary ? 16 : 9)) { if (isdigit((unsigned char)ch)) num += ch; else if (num.size()) break; }
        auto k = S.m.cls.find(num.empty() ? 0 : (unsigned)stoul(num)); if (k == S.m.cls.end() || !k->second.alive) { weird("watch-list", "in the list of " + to_string(cur) + " is " + line); return false; }
        auto p = x, q = k->second.lits; sort(p.begin(), p.end()); sort(q.begin(), q.end()); if (p != q) { weird("watch-list", "clause " + num + ": " + oracle::str(q) + "is written " + line); return false; }
        if (st != status::UNSAT && find(x.begin(), x.end(), cur) == x.end()) { weird("watch-list", "clause " + num + ": " + oracle::str(q) + "is in the list of " + to_string(cur)); return false; }
        if (binary && st != status::UNSAT && (x.size() != 2 || y[0] == cur || find(x.begin(), x.end(), y[0]) == x.end())) { weird("watch-list", "clause " + num + " in the list of " + to_string(cur) + " is blocked by " + to_string(y[0])); return false; }
        times[k->first]++; c.count("watches_read");
      }
      if (lists != 2) { weird("watch-list", to_string(lists) + " lists in the file of " + to_string(l)); return false; }
      return true;
    };
    for (Tlit t : trail) {
      int l = D(t); string info, all = text_of(v.dir / (name_of(l) + ".md")); vector<string> links; if (!split(all, info, links)) { weird("format", "the file of " + to_string(l) + " ends with " + all.substr(all.find(IMPLYING))); return false; }
      if (multiset<string>(links.begin(), links.end()) != edges[l]) { string a; for (auto& x : links) a += x + " "; string b; for (auto& x : edges[l]) b += x + " "; weird("edges", "the file of " + to_string(l) + " says that it implies " + a + "but the literals that have it in their reason are " + b); return false; }
      auto has = [&](const string& line) { return info.find("\n" + line + "\n") != string::npos; };
      bool dec = is_decided(S.s, t); if (has("   - decision") != dec || has("   - implied") == dec) { weird("kind", "the file of " + to_string(l) + ": " + info); return false; }
      unsigned reason = S.m.vars[(unsigned)abs(l)].reason; auto k = S.m.cls.find(reason); size_t p = info.find("$\\rho(\\ell)$: "); if (p == string::npos) { weird("format", info); return false; }
      string rho = info.substr(p, info.find('\n', p) - p); multiset<string> got, exp;
      for (size_t i = 0; (i = rho.find(")\">", i)) != string::npos;) { i += 3; if (rho.compare(i, 3, "<u>") == 0) i += 3; string x; while (i < rho.size() && (isdigit((unsigned char)rho[i]) || rho[i] == '~')) x += rho[i++]; got.insert(x); }
      if (k != S.m.cls.end()) for (int q : k->second.lits) exp.insert(name_of(q));
      if (got != exp) { weird("reason", "the reason of " + to_string(l) + " is written as " + rho); return false; }
      unsigned cnt = 0; for (auto& [id, q] : S.m.cls) if (q.alive) for (int x : q.lits) if (abs(x) == abs(l)) { cnt++; break; }
      if (!has("  n_clauses: " + to_string(cnt))) { weird("clauses", to_string(l) + " occurs in " + to_string(cnt) + " clauses: " + info.substr(0, 300)); return false; }
      auto& var = S.m.vars[(unsigned)abs(l)]; string lv = to_string(var.level);
      if (!has("  level: " + lv) || !has("$\\delta(\\ell)$: " + lv)) { weird("level", to_string(l) + " has level " + lv + ": " + info.substr(0, 300)); return false; }
      if (!has(string("  propagated: ") + (var.propagated ? "true" : "false"))) { weird("propagated", to_string(l) + ": " + info.substr(0, 300)); return false; }
      if (!has(string("  locked: ") + (var.locked ? "true" : "false"))) { weird("locked", to_string(l) + ": " + info.substr(0, 300)); return false; }
      if (!watches(l, info, seen)) return false;
      c.count("levels_read");
      if (info.find("VAULT_NAME") != string::npos && vault.find("VAULT_NAME") == string::npos) { weird("vault", "a link names no vault: " + info); return false; }
      // the links to assigned literals lead to a file of the export
      for (size_t i = 0; (i = info.find("[<span", i)) != string::npos;) { size_t e = info.find("](", i), q = info.find(')', e == string::npos ? i : e); if (q == string::npos) { weird("format", info); return false; }
        string link = info.substr(e + 2, q - e - 2), shown; size_t b = info.find('>', i) + 1; if (info.compare(b, 3, "<u>") == 0) b += 3; while (isdigit((unsigned char)info[b]) || info[b] == '~') shown += info[b++];
        int sl = shown[0] == '~' ? -atoi(shown.c_str() + 1) : atoi(shown.c_str()); int val = S.lv(sl); const char* colour = val > 0 ? "(0, 176, 80)" : val < 0 ? "(255, 0, 0)" : "(200, 200, 0)";
        if (info.substr(i, e - i).find(colour) == string::npos) { weird("colour", to_string(sl) + " of value " + to_string(val) + " is written as " + info.substr(i, e - i)); return false; }
        if (link.find("vault=" + vault + "&") == string::npos) { weird("vault", "the link " + link); return false; }
        if (val) { string file = link.substr(link.find("file=") + 5); if (!want.count(file) && !want.count(file + ".md")) { weird("link", "the link " + link + " of " + shown + " leads to no file"); return false; } c.count("links_followed"); }
        i = q; }
      c.count("files_read");
    }
    if (st != status::UNSAT) for (auto& [id, k] : S.m.cls) if (k.alive && k.lits.size() >= 2) {
      bool full = true; for (int x : k.lits) full &= S.lv(x) != 0;
      if (full ? seen[id] != 2 : seen[id] > 2) { weird("watch-list", "clause " + to_string(id) + ": " + oracle::str(k.lits) + "is in " + to_string(seen[id]) + " lists"); return false; } c.count("clauses_counted"); }
    c.count("edges", n); c.count("exports"); h = fnv(to_string(h) + to_string(n) + to_string(trail.size())); done++;
    return true;
  };
  for (int i = 0, n = (int)r.range(3, 16); i < n && !S.failed(); i++) {
    status st = get_status(S.s);
    switch (r.below(6)) {
      case 0: case 1: for (int k = (int)r.range(1, 15); k && next < f.size(); k--) S.add(f[next++], &r); break;
      case 2: case 3: for (int k = (int)r.range(1, 4); k; k--) { if (get_status(S.s) != status::UNKNOWN || !propagate(S.s)) break; S.note("decide"); decide(S.s); } break;
      case 4: S.note("solve_limited"); solve_limited(S.s, (unsigned)r.below(6)); break;
      default: if (r.chance(30)) S.do_solve(); else if (r.chance(50)) synchronize(S.s); break;
    }
    (void)st; if (r.chance(50) && !check()) return;
  }
  if (!S.failed()) check();
  c.count("strat:" + g.tag); if (done) c.nontrivial(h); c.sample(g.text() + ": " + to_string(done) + " exports: " + S.trace.substr(0, 200));
}

// ------------------------------------------------------------------ graphs that no solver gave
static void w_graph(Ctx& c, Rng& r) {
  Vault v(c, r); string what; uint64_t h = 1; 
  for (int round = (int)r.range(1, 3); round; round--) {
    size_t nv = r.chance(10) ? 0 : r.chance(80) ? r.range(1, 12) : r.range(13, 90); vector<Tlit> a; map<int, vector<Tlit>> reason; map<int, string> info; map<int, vector<string>> want; vector<int> vs; for (size_t i = 1; i <= nv; i++) if (r.chance(75)) vs.push_back((int)i); r.shuffle(vs);
    for (int x : vs) { int l = r.chance(50) ? x : -x; Tlit t = L(l);
      if (r.chance(70)) { auto& k = reason[l]; k.push_back(t); for (size_t j = r.below(6); j && !a.empty(); j--) k.push_back(~a[r.below(a.size())]); for (size_t j = 1; j < k.size(); j++) want[-D(k[j])].push_back(name_of(l)); }
      string s = "about " + name_of(l); for (int k = (int)r.below(4); k; k--) s += r.pick(vector<string>{"VAULT_NAME", " VAULT_NAMEVAULT_NAME", "\nVAULT_", "NAME", "VAULT", "[x](obsidian://open?vault=VAULT_NAME&file=1.md)"}); info[l] = s; a.push_back(t); }
    what = to_string(a.size()) + " literals"; v.prepare(); bool mine = fs::exists(v.dir / ".obsidian" / "mine.json"); string given, said;
    switch (r.below(3)) { case 0: given = v.dir.string() + v.slash; break; case 1: said = answers(v); break; default: given = (v.root / "absent" / "deep").string(); said = answers(v); break; }
    { Input in(said); Capture cap; exporter::implication_graph_exporter::export_implication_graph(given, nv, a, [&](Tlit l) { auto k = reason.find(D(l)); return k == reason.end() ? (const Tlit*)nullptr : k->second.data(); }, [&](Tlit l) { return reason.at(D(l)).size(); }, [&](Tlit l) { return info.at(D(l)); }); }
    set<string> files; for (Tlit l : a) files.insert(name_of(D(l)) + ".md"); string why; if (!folder(v, mine, files, what, why)) { c.violation("graph-files", why); return; }
    string vault = v.dir.filename().string();
    for (Tlit t : a) { int l = D(t); string all = text_of(v.dir / (name_of(l) + ".md")), exp, rest = info[l]; const string ph = "VAULT_NAME"; for (size_t k; (k = rest.find(ph)) != string::npos;) { exp += rest.substr(0, k) + vault; rest = rest.substr(k + ph.size()); } exp += rest;
      if (all.compare(0, exp.size(), exp)) { c.violation("graph-content", "the file of " + to_string(l) + " starts with " + all.substr(0, 200) + " and not with " + exp); return; }
      string i2; vector<string> links; if (!split(all.substr(exp.size()), i2, links) || i2.find_first_not_of(" \n") != string::npos) { c.violation("graph-format", all); return; }
      auto w = want[l]; sort(w.begin(), w.end()); sort(links.begin(), links.end()); if (w != links) { c.violation("graph-edges", "the file of " + to_string(l) + ": " + all); return; }
      h = fnv(to_string(h) + all); c.count("graph_files"); c.count("graph_edges", w.size()); }
    c.count("graphs");
  }
  c.nontrivial(h); c.sample(what + " in " + v.dir.filename().string());
}

int main(int argc, char** argv) {
  env::set_suppress_info(true); env::set_suppress_warning(true);
  env::set_invariant_configuration_folder(string(getenv("VF_REPO") ? getenv("VF_REPO") : "/repo") + "/invariant-configurations/");
  return run_main(argc, argv, {{"state", w_state}, {"graph", w_graph}});
}
