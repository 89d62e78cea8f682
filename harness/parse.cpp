// C11, C12: DIMACS files in every layout and container, and their corruptions.
#include "session.hpp"
#include "audit.hpp"
#include <bzlib.h>
#include <climits>
#include <filesystem>
#include <fstream>
#include <lzma.h>
using namespace napsat; using namespace std; using namespace vf;
using oracle::Cnf; using oracle::Clause;

static string xz_stream(Rng& r, const string& in) {
  string out(in.size() + in.size() / 2 + 1024, '\0'); size_t pos = 0;
  lzma_check chk = r.pick(vector<lzma_check>{LZMA_CHECK_CRC32, LZMA_CHECK_CRC64, LZMA_CHECK_SHA256});
  if (lzma_easy_buffer_encode((unsigned)r.below(4), chk, nullptr, (const uint8_t*)in.data(), in.size(), (uint8_t*)out.data(), &pos, out.size()) != LZMA_OK) { fprintf(stderr, "xz encoder failed\n"); exit(3); }
  out.resize(pos); return out;
}
static string bz2_pack(Rng& r, const string& in) {
  string out(in.size() + in.size() / 50 + 1024, '\0'); unsigned n = (unsigned)out.size();
  if (BZ2_bzBuffToBuffCompress(out.data(), &n, const_cast<char*>(in.data()), (unsigned)in.size(), 1 + (int)r.below(9), 0, 30) != BZ_OK) { fprintf(stderr, "bz2 encoder failed\n"); exit(3); }
  out.resize(n); return out;
}
// cut the text anywhere and compress the pieces one after the other
static string pack(Rng& r, const string& text, int kind, int& streams) {
  streams = 1;
  if (kind == 0) return text;
  vector<size_t> cuts{0};
  if (r.chance(40)) for (int k = (int)r.range(1, 3); k > 0; k--) cuts.push_back(r.below(text.size() + 1));
  cuts.push_back(text.size()); sort(cuts.begin(), cuts.end());
  string out; streams = 0;
  for (size_t i = 0; i + 1 < cuts.size(); i++) {
    string piece = text.substr(cuts[i], cuts[i + 1] - cuts[i]);
    out += kind == 1 ? xz_stream(r, piece) : bz2_pack(r, piece); streams++;
    if (kind == 1 && r.chance(10)) out += string(4 * (1 + r.below(3)), '\0');   // stream padding
  }
  return out;
}
static const char* const EXT[] = {"", ".xz", ".bz2"};

// what a DIMACS text means, independently of the code under test
struct Ref { bool ok = true; Cnf cls; int nvar = 0; map<int, string> alias; bool unsat_early = false; };
static bool integer(const string& t, long lo, long hi, long& out) {
  size_t i = 0; bool neg = false;
  if (i < t.size() && (t[i] == '+' || t[i] == '-')) neg = t[i++] == '-';
  if (i >= t.size()) return false;
  long v = 0;
  for (; i < t.size(); i++) { if (t[i] < '0' || t[i] > '9') return false; v = v * 10 + (t[i] - '0'); if (v > 4000000000l) return false; }
  if (neg) v = -v;
  if (v < lo || v > hi) return false;
  out = v; return true;
}
static bool space(char ch) { return ch == ' ' || ch == '\t' || ch == '\n' || ch == '\v' || ch == '\f' || ch == '\r'; }
static vector<string> words(const string& l) { vector<string> w; string cur; for (char ch : l) if (space(ch)) { if (!cur.empty()) w.push_back(cur); cur.clear(); } else cur += ch; if (!cur.empty()) w.push_back(cur); return w; }

// ------------------------------------------------------------------ layouts
struct Layout { string text; int header_vars = 0; map<int, string> alias; };
static Layout render(Rng& r, const Cnf& f, int nvar) {
  Layout o; string& s = o.text;
  string eol = r.chance(20) ? "\r\n" : "\n";
  auto blank = [&] { string w; do w += r.pick(vector<string>{" ", " ", " ", "\t", "  "}); while (r.chance(15)); return w; };
  auto comments = [&](unsigned pct) {
    while (r.chance(pct)) switch (r.below(5)) {
      case 0: s += eol; break;
      case 1: s += "   " + eol; break;
      case 2: s += "c" + eol; break;
      case 3: s += "c 1 -2 0 p cnf 3 3 %" + eol; break;
      default: s += string(r.chance(30) ? " " : "") + "comment " + to_string(r.below(1000)) + eol; break;
    }
  };
  comments(30);
  o.header_vars = -1;
  if (r.chance(85)) {
    int hv = nvar, hc = (int)f.size();
    if (r.chance(20)) hv = (int)r.below(nvar + 3);
    if (r.chance(20)) hc = (int)r.below(2 * f.size() + 2);
    o.header_vars = hv;
    s += "p cnf " + to_string(hv) + " " + to_string(hc) + (r.chance(10) ? " " : "") + eol;
  }
  int style = (int)r.below(4);   // 0 one per line, 1 several per line, 2 clauses broken over lines, 3 everything mixed
  bool aliases = r.chance(25);
  bool at_bol = true;
  for (size_t i = 0; i < f.size(); i++) {
    if (at_bol) {
      comments(8);
      if (aliases && r.chance(30)) { int v = (int)r.range(1, max(1, nvar)); string a = "x" + to_string(r.below(100)) + (r.chance(30) ? "_y" : ""); s += "co" + blank() + to_string(v) + blank() + a + eol; o.alias[v] = a; }
    }
    for (size_t k = 0; k <= f[i].size(); k++) {
      if (at_bol && r.chance(6)) s += blank();
      if (k < f[i].size()) s += string(f[i][k] > 0 && r.chance(2) ? "+" : "") + (r.chance(2) && f[i][k] > 0 ? "0" : "") + to_string(f[i][k]);
      else s += "0";
      at_bol = false;
      bool last = i + 1 == f.size() && k == f[i].size();
      if (k == f[i].size() ? (style == 0 || style == 2 || r.chance(style == 1 ? 25 : 50)) : (style >= 2 && r.chance(25))) {
        if (r.chance(10)) s += blank();
        if (last && r.chance(30)) break;   // no newline at the end of the file
        s += eol; at_bol = true;
        if (style >= 2 && r.chance(10)) s += r.chance(50) ? eol : "c inside a clause" + eol;
      } else if (!last) s += blank();
    }
  }
  // the final 0 may be forgotten
  if (!f.empty() && !f.back().empty() && r.chance(8)) { size_t z = s.find_last_of('0'); s = s.substr(0, z); while (!s.empty() && space(s.back())) s.pop_back(); if (r.chance(50)) s += eol; }
  else if (!at_bol && r.chance(50)) { s += eol; at_bol = true; }
  if (r.chance(5)) { if (!s.empty() && s.back() != '\n') s += eol; s += "%" + eol + "0" + eol + eol; }
  return o;
}
static string path_of(Ctx& c, Rng& r, int kind) { return c.scratch + "/" + r.pick(vector<string>{"f", "a.cnf", "long-name.with.dots", "xz", "b.bz2x"}) + (kind == 0 ? (r.chance(50) ? "" : ".cnf") : EXT[kind]); }
static void put(const string& p, const string& s) { ofstream o(p, ios::binary); o << s; if (!o) { fprintf(stderr, "cannot write\n"); exit(3); } }

// what reached the clause set, from the observer; `-o` runs only
struct Seen : Mon {
  Cnf given; map<int, string> alias;
  void add_clause(unsigned id, const unsigned* l, unsigned n, bool ext) override { if (ext) { Clause q; for (unsigned i = 0; i < n; i++) q.push_back(dim(l[i])); given.push_back(q); } Mon::add_clause(id, l, n, ext); }
  void set_variable_alias(unsigned v, const string& a) override { alias[(int)v] = a; }
};

static Cnf some_formula(Rng& r, bool units, string& fam) {
  Cnf f; int n;
  switch (r.below(4)) {
    case 0: n = (int)r.range(1, 10); f = gen::mixed(r, n, 0.5 + r.below(300) / 100.0); fam = "mixed"; break;
    case 1: f = gen::formula(r, 0, &fam); break;
    case 2: n = (int)r.range(3, 9); f = gen::planted(r, n, 3, 1.0 + r.below(250) / 100.0); fam = "planted"; break;
    default: { n = (int)r.range(2, 400); int m = (int)r.below(60); for (int i = 0; i < m; i++) f.push_back(gen::rand_clause(r, n, (int)r.range(2, 9))); fam = "wide"; break; }
  }
  if (r.chance(25)) for (auto& cl : f) if (r.chance(10) && !cl.empty()) cl.push_back(r.chance(60) ? r.pick(cl) : -r.pick(cl));
  if (!units) { Cnf g; for (auto& cl : f) if (norm(cl).size() > 1) g.push_back(cl); f = g; }
  else if (r.chance(3)) f.insert(f.begin() + r.below(f.size() + 1), Clause{});
  return f;
}

// ------------------------------------------------------------------ C11
static void w_layout(Ctx& c, Rng& r) {
  string fam; bool units = r.chance(50); Cnf f = some_formula(r, units, fam);
  int used = oracle::max_var(f), nvar = used + (r.chance(20) ? (int)r.below(4) : 0);
  Layout lay = render(r, f, nvar);
  int kind = (int)r.below(3), streams; string p = path_of(c, r, kind);
  put(p, pack(r, lay.text, kind, streams));
  int want_vars = max(used, max(0, lay.header_vars));
  bool observe = !units || r.chance(30);
  for (auto& [v, a] : lay.alias) if (observe) want_vars = max(want_vars, v);
  vector<string> t = pick_strategy(r); string tag = tag_of(t);
  if (observe) t.push_back("-o");
  fprintf(stderr, "TAG %s\n", EXT[kind][0] ? EXT[kind] + 1 : "plain");
  auto fail = [&](const string& k, const string& w) { c.violation(k + "/" + (EXT[kind][0] ? EXT[kind] + 1 : "plain"), w + " [" + tag + "] file: " + lay.text); };
  Seen m; options o(t); sentinel::current_monitor() = observe ? &m : nullptr;
  NapSAT* s = create_solver(0, 0, o); sentinel::current_monitor() = nullptr;
  bool ok = parse_dimacs(s, p.c_str());
  do {
    if (!ok) { fail("valid-file-rejected", "parse_dimacs returned false"); break; }
    if (get_status(s) == status::ERROR) { fail("valid-file-error", "the status is ERROR"); break; }
    if ((int)variables_count(s) != want_vars && get_status(s) != status::UNSAT) { fail("variables", to_string(variables_count(s)) + " variables instead of " + to_string(want_vars)); break; }
    if (observe && !units) {
      bool bad = m.given.size() != f.size();
      for (size_t i = 0; !bad && i < f.size(); i++) bad = norm(m.given[i]) != norm(f[i]);
      if (bad) { string g; for (auto& q : m.given) g += "(" + oracle::str(q) + ") "; fail("clauses-differ", "read " + g + "instead of " + oracle::str(f)); break; }
      c.count("clauses_compared", f.size());
    }
    if (observe) { if (m.alias != lay.alias && get_status(s) != status::UNSAT) { fail("aliases", "aliases differ"); break; } c.count("aliases", lay.alias.size()); }
    // the meaning: models over all the variables
    if (want_vars <= 9) {
      uint64_t want; { oracle::Dpll d(want_vars, f); want = d.count(want_vars); }
      uint64_t n = 0; bool bad = false;
      while (solve(s) == status::SAT && n <= want) {
        Clause mdl; for (Tlit l : get_partial_assignment(s)) mdl.push_back(D(l));
        for (auto& cl : f) { bool sat = false; for (int l : cl) if (find(mdl.begin(), mdl.end(), l) != mdl.end()) sat = true; if (!sat) bad = true; }
        if (bad || (int)mdl.size() != want_vars) { bad = true; break; }
        vector<Tlit> b; for (int l : mdl) b.push_back(L(-l));
        n++; synchronize(s); add_clause(s, b.data(), (unsigned)b.size());
      }
      if (bad) { fail("not-a-model", "a model of what was read is not a model of the file"); break; }
      if (n != want) { fail("model-count", to_string(n) + " models instead of " + to_string(want)); break; }
      c.count("models", n); c.count("enumerations");
    } else if (used <= 60 || units) {
      oracle::Dpll d(0, f, 2000000); int w = d.solve();
      status st = solve(s);
      if (w >= 0 && st != (w ? status::SAT : status::UNSAT)) { fail("verdict", "verdict " + status_to_string(st)); break; }
      c.count("verdicts");
    }
  } while (0);
  delete_solver(s);
  c.count("files"); c.count(string("container:") + (EXT[kind][0] ? EXT[kind] + 1 : "plain")); if (streams > 1) c.count("multi_stream_files");
  c.nontrivial(fnv(lay.text) ^ kind);
  c.sample(tag + " " + p.substr(c.scratch.size()) + " (" + to_string(streams) + " streams): " + lay.text.substr(0, 400));
}

// ------------------------------------------------------------------ C12
// parse a file; what was read must be exactly `f` (clauses of size > 1 only) or the file must be refused
static void must_be(Ctx& c, const string& p, const Cnf& f, bool may_accept, bool may_refuse, const string& what, const string& shown) {
  fprintf(stderr, "TAG %s\n", what.c_str());
  Seen m; vector<string> t{"-o"}; options o(t); sentinel::current_monitor() = &m;
  NapSAT* s = create_solver(0, 0, o); sentinel::current_monitor() = nullptr;
  bool ok = parse_dimacs(s, p.c_str());
  c.count(ok ? "accepted" : "refused");
  if (!ok && get_status(s) != status::ERROR) c.violation("refused-without-error/" + what, "parse_dimacs returned false but the status is " + status_to_string(get_status(s)) + ": " + shown);
  if (!ok && !may_refuse) c.violation("refused/" + what, shown);
  if (ok && !may_accept) c.violation("accepted/" + what, "accepted as " + to_string(m.given.size()) + " clauses: " + shown);
  if (ok && may_accept) {
    bool bad = m.given.size() != f.size();
    for (size_t i = 0; !bad && i < f.size(); i++) bad = norm(m.given[i]) != norm(f[i]);
    if (bad) c.violation("shortened/" + what, "accepted with " + to_string(m.given.size()) + " clauses instead of " + to_string(f.size()) + ": " + shown);
  }
  delete_solver(s);
}
static void w_corrupt(Ctx& c, Rng& r) {
  string fam; Cnf f; do f = some_formula(r, false, fam); while (f.empty());
  if (r.chance(30)) for (int k = 0; k < 3; k++) { Cnf g = f; f.insert(f.end(), g.begin(), g.end()); }
  Layout lay = render(r, f, oracle::max_var(f));
  int kind = 1 + (int)r.below(2), streams;
  string z = pack(r, lay.text, kind, streams), p = path_of(c, r, kind);
  string kt = EXT[kind] + 1;
  for (int round = 0; round < 12; round++) {
    string y = z; string what;
    bool may_accept = true;
    switch (r.below(7)) {
      case 0: case 1: y = z.substr(0, r.below(z.size())); what = "truncated"; break;
      case 2: { size_t i = r.below(y.size()); y[i] = (char)(y[i] ^ (1 << r.below(8))); what = "bit-flip"; break; }
      case 3: { for (size_t i = r.below(y.size()), k = r.range(1, 20); k && i < y.size(); k--, i++) y[i] = (char)r.below(256); what = "garbled"; break; }
      case 4: { size_t i = r.below(y.size()); y.erase(i, r.range(1, 30)); what = "hole"; break; }
      case 5: { string g; for (int k = (int)r.range(1, 300); k > 0; k--) g += (char)r.below(256); y += g; what = "trailing-garbage"; break; }
      default: y = r.chance(50) ? lay.text : kind == 1 ? bz2_pack(r, lay.text) : xz_stream(r, lay.text); what = "wrong-container"; may_accept = false; break;
    }
    put(p, y);
    if (what == "truncated" || what == "hole") {
      // cut at a stream boundary is a complete, shorter file: only the container's own rules apply
      if (streams > 1) { c.count("multi_stream_cut"); Seen m; vector<string> t{"-o"}; options o(t); sentinel::current_monitor() = &m; NapSAT* s = create_solver(0, 0, o); sentinel::current_monitor() = nullptr; fprintf(stderr, "TAG %s\n", what.c_str()); parse_dimacs(s, p.c_str()); delete_solver(s); continue; }
    }
    must_be(c, p, f, may_accept, true, kt + "-" + what, to_string(y.size()) + " of " + to_string(z.size()) + " bytes, text " + lay.text.substr(0, 300));
    c.count("corruptions"); c.count("kind:" + kt + "-" + what); c.nontrivial(fnv(y));
  }
  // cutting at each of the last bytes
  if (streams == 1) for (size_t k = 1; k <= min<size_t>(40, z.size()); k++) {
    put(p, z.substr(0, z.size() - k));
    must_be(c, p, f, true, true, kt + "-truncated", "all but the last " + to_string(k) + " bytes of " + to_string(z.size()));
    c.count("corruptions"); c.count("tail_cuts");
  }
  put(p, z); must_be(c, p, f, true, false, kt + "-intact", lay.text);
  c.sample(kt + " of " + to_string(z.size()) + " bytes, text " + lay.text.substr(0, 200));
}
static void w_malformed(Ctx& c, Rng& r) {
  string fam; Cnf f; do f = some_formula(r, false, fam); while (f.empty());
  if (f.size() > 12) f.resize(12);
  int n = oracle::max_var(f);
  string p = path_of(c, r, 0), text, what; bool accept = false; Cnf expect = f;
  auto body = [&](size_t a, size_t b) { string s; for (size_t i = a; i < b; i++) { for (int l : f[i]) s += to_string(l) + " "; s += "0\n"; } return s; };
  string head = "p cnf " + to_string(n) + " " + to_string(f.size()) + "\n";
  size_t k = r.below(f.size() + 1);
  switch (r.below(8)) {
    case 0: { // a token that is no number
      string bad = r.pick(vector<string>{"a", "1a", "--3", "1.5", "-", "+", "1e3", "99999999999", "-99999999999", "2147483648", "-2147483649", "-2147483648", "0x10", "1-", "1,2", "@", "\x01", "1\x80", "+-1", "-+2", "NaN", ";"});
      text = head + body(0, k) + (r.chance(50) ? "1 " : "") + bad + (r.chance(50) ? " 2" : "") + " 0\n" + body(k, f.size()); what = "bad-token"; break; }
    case 1: { // a header that is not one
      string bad = r.pick(vector<string>{"p cnf\n", "p cnf \n", "p cnf x y\n", "p cnf 3\n", "p cnf -3 4\n", "p cnf 3 -4\n", "p cnf a 3\n", "p\n", "p sat 3\n", "p cn 3 4\n", "q cnf 3 4\n", "p dnf 3 4\n"});
      text = bad + body(0, f.size()); what = "bad-header"; break; }
    case 2: { // ill-formed alias and weight comments are comments
      string bad = r.pick(vector<string>{"co\n", "co 1\n", "co x y\n", "co 0 y\n", "co -1 y\n", "co 1 y z\n", "co 99999999999 y\n", "co 1x y\n", "cw\n", "cw 1\n", "cw 0 1\n", "cw -1 2\n", "cw 1 x\n", "cw 1 2 3\n", "cw 1 2x\n", "cw 99999999999 1\n", "cw x 1\n", "cw 1 1e999\n"});
      text = head + body(0, k) + bad + body(k, f.size()); what = "bad-comment"; accept = true; break; }
    case 3: { // the file is not there, or is not a file
      string q = r.pick(vector<string>{c.scratch + "/nope", c.scratch + "/nope.xz", c.scratch + "/nope.bz2", c.scratch, c.scratch + "/", "", ".", "x", ".xz", ".bz2", c.scratch + "/dir.xz", c.scratch + "/dir.bz2", c.scratch + "/dir.cnf", string(5000, 'a')});
      for (const char* d : {"/dir.xz", "/dir.bz2", "/dir.cnf"}) filesystem::create_directories(c.scratch + d);
      must_be(c, q, f, false, true, "no-file", "path '" + q.substr(0, 100) + "'"); c.count("missing_files"); c.count("corruptions"); c.nontrivial(fnv(q)); return; }
    case 4: { // nothing in it
      text = r.pick(vector<string>{"", "\n", "c only\n", "   \n\n\t\n", "%\n", "p cnf 0 0\n", "c", "p cnf 3 2\n"}); what = "no-clauses"; accept = true; expect.clear(); break; }
    case 5: { // random bytes
      int len = (int)r.below(200); for (int i = 0; i < len; i++) text += r.chance(50) ? (char)r.below(256) : r.pick(vector<string>{"1", " ", "\n", "-", "0", "c", "p"})[0]; what = "noise"; break; }
    default: { // a valid text with some bytes changed
      text = render(r, f, n).text;
      for (int q = (int)r.range(1, 4); q > 0 && !text.empty(); q--) { size_t i = r.below(text.size()); switch (r.below(4)) { case 0: text.erase(i, 1); break; case 1: text.insert(i, 1, r.pick(vector<string>{"-", "x", "0", "1", "\n", "c", "%", " ", "p"})[0]); break; case 2: text[i] = (char)r.below(256); break; default: swap(text[i], text[r.below(text.size())]); } }
      what = "edited"; break; }
  }
  put(p, text);
  if (what == "noise" || what == "edited") {
    // reference reading
    Ref ref; bool skip = false; istringstream is(text); string line; Clause cur; bool first = true;
    while (getline(is, line)) {
      size_t i = 0; while (i < line.size() && space(line[i])) i++;
      line = line.substr(i); if (line.empty()) continue;
      if (line[0] == 'c') continue;
      if (line[0] == '%') break;
      if (line.rfind("p cnf", 0) == 0) { if (!first) skip = true; auto w = words(line); long a, b; if (w.size() < 4 || w[1] != "cnf" || !integer(w[2], 0, 100000, a) || !integer(w[3], 0, 1000000, b)) skip = true; continue; }
      first = false; bool stop = false;
      for (auto& t : words(line)) { long v; if (!integer(t, -INT_MAX, INT_MAX, v)) { ref.ok = false; stop = true; break; } if (labs(v) > 100000) skip = true; if (v) cur.push_back((int)v); else { ref.cls.push_back(cur); cur.clear(); } }
      if (stop) break;
    }
    if (ref.ok && !cur.empty()) ref.cls.push_back(cur);
    if (skip) { c.count("outside_the_reference"); return; }
    bool trivial = true; for (auto& q : ref.cls) if (norm(q).size() < 2) trivial = false;
    if (!trivial) { // units may end the reading: only the absence of a wrong answer is judged
      Seen m; vector<string> t{"-o"}; options o(t); sentinel::current_monitor() = &m; NapSAT* s = create_solver(0, 0, o); sentinel::current_monitor() = nullptr;
      fprintf(stderr, "TAG %s\n", what.c_str());
      bool ok = parse_dimacs(s, p.c_str());
      if (!ok && ref.ok) c.violation("refused/" + what, text);
      if (ok && !ref.ok && get_status(s) != status::UNSAT) c.violation("accepted/" + what, text);
      if (ok) { oracle::Dpll d(0, ref.cls, 2000000); int w = d.solve(); status st = solve(s); if (w >= 0 && st != (w ? status::SAT : status::UNSAT)) c.violation("verdict/" + what, text); c.count("verdicts"); }
      delete_solver(s); c.count("corruptions"); return;
    }
    must_be(c, p, ref.cls, ref.ok, !ref.ok, what, text);
  } else must_be(c, p, expect, accept, !accept, what, text);
  c.count("corruptions"); c.count("kind:" + what); c.nontrivial(fnv(text));
  c.sample(what + ": " + text.substr(0, 200));
}

int main(int argc, char** argv) {
  env::set_suppress_info(true); env::set_suppress_warning(true);
  env::set_invariant_configuration_folder(string(getenv("VF_REPO") ? getenv("VF_REPO") : "/repo") + "/invariant-configurations/");
  return run_main(argc, argv, {{"layout", w_layout}, {"corrupt", w_corrupt}, {"malformed", w_malformed}});
}
