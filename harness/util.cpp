// Monitors of the data structures (bitset, heap, AVL tree, Luby counter,
// dependency tracker, basic types) against small executable models.
#include "common.hpp"
#include "SAT-types.hpp"
#include "src/utils/bitset.hpp"
#include "src/utils/heap.hpp"
#include "src/utils/luby-counter.hpp"
#include "src/utils/partition.hpp"
#include "src/utils/printer.hpp"
#include "src/proof/dependency_tracker.hpp"
#include <algorithm>
#include <cmath>
#include <iostream>
#include <set>
#include <unordered_map>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
#define LIVE_BYTES() __sanitizer_get_current_allocated_bytes()
#endif
#endif
#ifndef LIVE_BYTES
#define LIVE_BYTES() ((size_t)0)
#endif
using namespace vf;
using std::string;
using std::to_string;
using Set = std::set<unsigned>;

static const unsigned WORD = 4032;   // elements covered by one metadata word

static string sstr(const Set& s) {
  string o = "{"; unsigned k = 0;
  for (unsigned x : s) { if (k++ > 40) { o += "..."; break; } o += to_string(x) + " "; }
  return o + "}";
}

struct BitBench {
  Ctx& c; Rng& r;
  size_t cap;
  std::vector<bitset> b;
  std::vector<Set> m;
  string hist;
  bool bad = false;
  unsigned band;      // elements are drawn from a few bands to force collisions
  std::vector<unsigned> bands;

  BitBench(Ctx& c_, Rng& r_) : c(c_), r(r_) {
    cap = r.chance(3) ? 0 : r.chance(35) ? r.range(1, 200) : r.chance(60) ? r.range(WORD - 70, 2 * WORD + 70) : r.range(2 * WORD, 5 * WORD);
    for (int i = 0; i < 4; i++) { b.emplace_back(cap); m.emplace_back(); }
    if (b[0].capacity() > cap + WORD || b[0].count()) fail("construct", "capacity " + to_string(b[0].capacity()) + " for " + to_string(cap));
    if (!cap) { cap = 1; for (auto& x : b) x.resize(cap); }
    int nb = (int)r.range(1, 5);
    for (int i = 0; i < nb; i++) bands.push_back((unsigned)r.below(cap));
  }
  unsigned elem() {
    unsigned e;
    switch (r.below(8)) {
      case 0: { static const unsigned edge[] = {0, 1, 62, 63, 64, 65, 127, 128, 3967, 3968, 4030, 4031, 4032, 4033, 4095, 4096, 8063, 8064, 8065, 12095, 12096, 16127, 16128}; e = edge[r.below(sizeof edge / sizeof *edge)]; break; }
      case 1: e = (unsigned)r.below(cap); break;
      case 2: e = (unsigned)(cap - 1 - r.below(std::min<size_t>(cap, 70))); break;
      default: e = r.pick(bands) + (unsigned)r.below(r.chance(50) ? 6 : 150); break;
    }
    return e < cap ? e : (unsigned)(e % cap);
  }
  void fail(const string& key, const string& what) {
    if (bad) return;
    bad = true;
    c.violation(key, what + " | history: " + (hist.size() > 3000 ? "..." + hist.substr(hist.size() - 3000) : hist));
  }
  void note(const string& s) { hist += s + "; "; }
  // membership view only, through get/operator[]
  void check_members(int i, const string& op) {
    const bitset& x = b[i]; const Set& s = m[i];
    c.count("member_checks");
    if (b[i].capacity() < cap) fail("capacity:" + op, "capacity " + to_string(b[i].capacity()) + " after asking for " + to_string(cap));
    for (unsigned e : s) if (!x.get(e)) { fail("lost:" + op, "element " + to_string(e) + " missing after " + op + " expected " + sstr(s)); return; }
    for (int k = 0; k < 24; k++) { unsigned e = elem(); if (x[e] != (s.count(e) > 0)) { fail("member:" + op, "membership of " + to_string(e) + " wrong after " + op + " expected " + sstr(s)); return; } }
    for (unsigned e : s) for (int d : {-64, -1, 1, 64}) { long q = (long)e + d; if (q >= 0 && q < (long)cap && x.get(q) != (s.count(q) > 0)) { fail("neighbour:" + op, "membership of " + to_string(q) + " wrong after " + op + " expected " + sstr(s)); return; } }
  }
  void check_iter(int i, const string& op) {
    Set got; unsigned last = 0; bool first = true;
    size_t lim = m[i].size() + 3;
    bool post = r.chance(30);
    for (auto it = b[i].cbegin(); it != b[i].cend(); ) {
      if (lim-- == 0) { fail("iter-too-long:" + op, "iteration yields more than the elements of " + sstr(m[i])); return; }
      unsigned e = *it;
      if (!first && e <= last) { fail("iter-order:" + op, "iteration yields " + to_string(e) + " after " + to_string(last)); return; }
      got.insert(e); last = e; first = false;
      if (post) { auto o = it++; if (*o != e) { fail("iter-post:" + op, "post-increment returned another element"); return; } } else ++it;
    }
    c.count("iterations");
    if (got != m[i]) fail("iter:" + op, "iteration yields " + sstr(got) + " instead of " + sstr(m[i]));
  }
  void check_counts(int i, const string& op) {
    if (b[i].count() != m[i].size()) fail("count:" + op, "count " + to_string(b[i].count()) + " instead of " + to_string(m[i].size()));
    if (b[i].empty() != m[i].empty()) fail("empty:" + op, string("empty() is ") + (b[i].empty() ? "true" : "false") + " for " + sstr(m[i]));
    c.count("count_checks");
  }
  static Set comb(const Set& a, const Set& b, int op) {
    Set o;
    if (op == 0) std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::inserter(o, o.end()));
    if (op == 1) std::set_union(a.begin(), a.end(), b.begin(), b.end(), std::inserter(o, o.end()));
    if (op == 2) std::set_symmetric_difference(a.begin(), a.end(), b.begin(), b.end(), std::inserter(o, o.end()));
    if (op == 3) std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::inserter(o, o.end()));
    return o;
  }
  void mutate(bool algebra_heavy) {
    int i = (int)r.below(4);
    unsigned p = (unsigned)r.below(100);
    string op;
    if (p < (algebra_heavy ? 40u : 60u)) {
      int n = r.chance(20) ? (int)r.range(10, 200) : (int)r.range(1, 6);
      bool v = r.chance(65);
      op = v ? "set" : "reset";
      note("b" + to_string(i) + "." + op + " x" + to_string(n));
      while (n--) {
        unsigned e = (!v && !m[i].empty() && r.chance(70)) ? *std::next(m[i].begin(), r.below(m[i].size())) : elem();
        if (hist.size() < 2000) note(to_string(e));
        b[i].set(e, v);
        if (v) m[i].insert(e); else m[i].erase(e);
        c.count("ops");
      }
    } else if (p < 85) {
      int j = (int)r.below(4), k = (int)r.below(4), o = (int)r.below(4);
      static const char* names[] = {"and", "or", "xor", "minus"};
      if (r.chance(50)) {
        op = string("inplace-") + names[o];
        note("b" + to_string(i) + " " + op + " b" + to_string(j));
        Set want = comb(m[i], m[j], o);
        if (o == 0) b[i] &= b[j]; else if (o == 1) b[i] |= b[j]; else if (o == 2) b[i] ^= b[j]; else b[i] -= b[j];
        m[i] = want;
      } else {
        op = names[o];
        note("b" + to_string(i) + " = b" + to_string(j) + " " + op + " b" + to_string(k));
        Set want = comb(m[j], m[k], o);
        bitset x = o == 0 ? b[j] & b[k] : o == 1 ? b[j] | b[k] : o == 2 ? (b[j] ^ b[k]) : b[j] - b[k];
        b[i] = x; m[i] = want;
        check_members(j, op + "-operand"); check_members(k, op + "-operand");
      }
      c.count("ops"); c.count("combinations");
    } else if (p < 89) { op = "clear"; note("b" + to_string(i) + ".clear"); b[i].clear(); m[i].clear(); c.count("ops"); }
    else if (p < 94) { int j = (int)r.below(4); op = "copy"; note("b" + to_string(i) + "=b" + to_string(j)); b[i] = b[j]; m[i] = m[j]; c.count("ops"); }
    else if (p < 96) { op = "move"; note("move b" + to_string(i)); bitset t(std::move(b[i])); b[i] = std::move(t); c.count("ops"); }
    else {
      size_t old = cap;
      if (cap < 8 * WORD) cap += r.chance(50) ? (size_t)r.range(1, 300) : (size_t)r.range(WORD - 5, 2 * WORD + 5);
      op = "resize"; note("resize " + to_string(old) + "->" + to_string(cap)); c.count("resizes");
      for (int k = 0; k < 4; k++) { b[k].resize(cap); if (r.chance(30)) b[k].resize(r.below(cap) + 1); }
      for (int k = 0; k < 4; k++) check_members(k, op);
    }
    check_members(i, op);
    if (!bad) { check_iter(i, op); check_counts(i, op); }
    if (!bad && r.chance(30)) { int j = (int)r.below(4); check_members(j, op + "-bystander"); }
  }
  void relations() {
    int i = (int)r.below(4), j = (int)r.below(4);
    const Set &a = m[i], &d = m[j]; const bitset &x = b[i], &y = b[j];
    bool sub = std::includes(d.begin(), d.end(), a.begin(), a.end()), sup = std::includes(a.begin(), a.end(), d.begin(), d.end());
    c.count("relation_checks");
    if (sub && sup) c.count("rel_equal"); else if (sub || sup) c.count("rel_subset"); else c.count("rel_other");
    auto chk = [&](const char* n, bool got, bool want) { if (got != want) fail(string("relation:") + n, sstr(a) + " " + n + " " + sstr(d) + " gives " + to_string(got)); };
    chk("<=", x <= y, sub); chk(">=", x >= y, sup); chk("<", x < y, sub && a != d); chk(">", x > y, sup && a != d);
    chk("==", x == y, a == d); chk("!=", x != y, a != d);
    chk("has_intersection", x.has_intersection(y), !comb(a, d, 0).empty());
    chk("has_difference", x.has_difference(y), !comb(a, d, 3).empty());
  }
  void printing() {
    int i = (int)r.below(4);
    string s = b[i].to_string(), want = "[";
    size_t k = 0;
    for (unsigned e : m[i]) { if (k) want += ", "; want += to_string(e); if (++k == 1000) break; }
    c.count("print_checks");
    if (m[i].size() <= 999) { want += "]"; if (s != want) fail("to_string", "prints " + s.substr(0, 300) + " instead of " + want.substr(0, 300)); }
    else if (s.compare(0, want.size(), want)) fail("to_string", "long set prints the wrong prefix");
    else if (m[i].size() > 1000) {
      c.count("long_prints");
      if (s.find(to_string(m[i].size() - 1000) + " more") == string::npos) fail("to_string-more", "prints ..." + s.substr(s.size() - 40) + " for " + to_string(m[i].size()) + " elements of which 1000 are shown");
    }
    std::ostringstream os; os << b[i];
    if (os.str() != s) fail("stream", "operator<< differs from to_string");
  }
  uint64_t fp() { uint64_t h = 7; for (auto& s : m) { for (unsigned e : s) h = (h ^ e) * 1099511628211ull; h = h * 31 + 17; } return h; }
};

static void bitset_ops(Ctx& c, Rng& r) {
  BitBench t(c, r);
  int n = (int)r.range(20, 90);
  while (n-- && !t.bad) { t.mutate(true); if ((n & 3) == 0) c.nontrivial(t.fp()); }
  if (t.cap > WORD) c.count("multi_word_histories");
  if (c.case_no < 3) c.sample("capacity " + to_string(t.cap) + ": " + t.hist.substr(0, 200));
}
static void bitset_query(Ctx& c, Rng& r) {
  BitBench t(c, r);
  int n = (int)r.range(20, 60);
  if (r.chance(4)) { // a large dense set, for the truncated printing
    unsigned k = (unsigned)std::min<size_t>(t.cap, r.range(990, 1100));
    for (unsigned e = 0; e < k; e++) { t.b[0].set(e, true); t.m[0].insert(e); }
  }
  while (n-- && !t.bad) {
    // make related sets often: copy then change a little
    if (r.chance(45)) {
      int i = (int)r.below(4), j = (int)r.below(4);
      t.b[i] = t.b[j]; t.m[i] = t.m[j];
      int k = (int)r.below(3);
      while (k--) { unsigned e = r.chance(40) && !t.m[i].empty() ? *std::next(t.m[i].begin(), r.below(t.m[i].size())) : t.elem(); bool v = r.chance(50); t.b[i].set(e, v); if (v) t.m[i].insert(e); else t.m[i].erase(e); }
      t.note("b" + to_string(i) + "~b" + to_string(j));
    } else t.mutate(false);
    for (int k = 0; k < 6 && !t.bad; k++) t.relations();
    for (int k = 0; k < 4 && !t.bad; k++) { t.check_iter(k, "query"); t.check_counts(k, "query"); }
    if (!t.bad && r.chance(30)) t.printing();
    c.nontrivial(t.fp());
  }
  if (t.cap > WORD) c.count("multi_word_histories");
  if (c.case_no < 3) c.sample("capacity " + to_string(t.cap) + ": " + t.hist.substr(0, 200));
}

// ------------------------------------------------------------------ heap
static void heap_model(Ctx& c, Rng& r) {
  napsat::utils::heap h;
  std::map<unsigned, double> m;
  string hist; bool bad = false;
  unsigned nk = r.chance(30) ? (unsigned)r.range(1, 6) : r.chance(80) ? (unsigned)r.range(5, 60) : (unsigned)r.range(60, 600);
  int style = (int)r.below(4);  // few distinct activities / spread / growing / huge
  auto act = [&]() -> double {
    switch (style) { case 0: return (double)r.below(4); case 1: return (double)r.below(100000) / 7.0; case 2: return (double)(c.counters["ops"] % 100003) + (double)r.below(50);
                     default: return std::ldexp((double)r.below(1000) + 1, (int)r.range(-200, 200)); }
  };
  auto fail = [&](const string& k, const string& w) { if (!bad) { bad = true; c.violation(k, w + " | " + (hist.size() > 3000 ? hist.substr(hist.size() - 3000) : hist)); } };
  auto key = [&]() { return (unsigned)r.range(1, nk); };
  auto maxact = [&] { double x = -1; for (auto& p : m) x = std::max(x, p.second); return x; };
  auto check = [&](const string& op) {
    c.count("heap_checks");
    if (h.size() != m.size()) return fail("size:" + op, "size " + to_string(h.size()) + " instead of " + to_string(m.size()));
    if (h.empty() != m.empty()) return fail("empty:" + op, "empty() wrong");
    if (!m.empty()) {
      unsigned t = h.top().value;
      if (!m.count(t)) return fail("top-absent:" + op, "top " + to_string(t) + " is not in the heap");
      if (m[t] != maxact()) return fail("top-not-max:" + op, "top " + to_string(t) + " has activity " + to_string(m[t]) + " but the maximum is " + to_string(maxact()));
    }
    for (int k = 0; k < 4; k++) { unsigned q = (unsigned)r.below(nk + 3); if (h.contains(q) != (m.count(q) > 0)) return fail("contains:" + op, "contains(" + to_string(q) + ") wrong"); }
  };
  auto drain_copy = [&](const string& op) {
    napsat::utils::heap g = h; auto mm = m; double last = INFINITY;
    while (!g.empty() && !bad) {
      unsigned k = g.pop().value;
      if (!mm.count(k)) return fail("drain-absent:" + op, "popped " + to_string(k) + " twice or never inserted");
      if (mm[k] > last) return fail("drain-order:" + op, "popped activity " + to_string(mm[k]) + " after " + to_string(last));
      if (g.contains(k)) return fail("drain-contains:" + op, "popped key still contained");
      last = mm[k]; mm.erase(k);
    }
    if (!mm.empty()) fail("drain-lost:" + op, to_string(mm.size()) + " elements lost");
    c.count("drains");
  };
  int n = (int)r.range(30, 300);
  while (n-- && !bad) {
    unsigned k = key(); string op;
    unsigned p = (unsigned)r.below(100);
    c.count("ops");
    if (p < 30 || m.empty()) {
      if (m.count(k)) continue;
      double a = act(); op = "insert"; hist += "insert " + to_string(k) + ":" + to_string(a) + "; "; h.insert(k, a); m[k] = a;
    } else {
      if (!m.count(k)) k = std::next(m.begin(), r.below(m.size()))->first;
      if (p < 50) { op = "remove"; hist += "remove " + to_string(k) + "; "; h.remove(k); m.erase(k); }
      else if (p < 62) { op = "increase"; double a = m[k] + (r.chance(20) ? 0 : act()); hist += "inc " + to_string(k) + ":" + to_string(a) + "; "; h.increase_activity(k, a); m[k] = a; }
      else if (p < 80) { op = "update"; double a = r.chance(15) ? m[k] : act(); hist += "upd " + to_string(k) + ":" + to_string(a) + "; "; h.update(k, a); m[k] = a; }
      else if (p < 84) { op = "normalize"; double f = r.chance(50) ? 0.5 : 1e-10; hist += "norm; "; h.normalize(f); for (auto& q : m) q.second *= f; }
      else { op = "pop"; double mx = maxact(); unsigned t = h.pop().value; hist += "pop->" + to_string(t) + "; ";
        if (!m.count(t)) { fail("pop-absent", "popped " + to_string(t) + " which is not in the heap"); break; }
        if (m[t] != mx) { fail("pop-not-max", "popped " + to_string(t) + " of activity " + to_string(m[t]) + ", maximum " + to_string(mx)); break; }
        m.erase(t); }
    }
    c.count("op_" + op);
    check(op);
    if (!bad && r.chance(25)) drain_copy(op);
    if (!bad) { uint64_t f = 3; for (auto& q : m) { uint64_t u; memcpy(&u, &q.second, 8); f = (f ^ q.first ^ u) * 1099511628211ull; } c.nontrivial(f); }
  }
  if (!bad) drain_copy("end");
  if (c.case_no < 2) c.sample(hist.substr(0, 200));
}

// ------------------------------------------------------------------ AVL tree
static void avl_model(Ctx& c, Rng& r) {
  string hist; bool bad = false;
  auto fail = [&](const string& k, const string& w) { if (!bad) { bad = true; c.violation(k, w + " | " + (hist.size() > 3000 ? hist.substr(hist.size() - 3000) : hist)); } };
  static char arena[4096];
  // the structure printed by print(): in-order, with depth and height
  size_t before = LIVE_BYTES();
  size_t max_nodes = 0;
  {
    utils::AVLTree t;
    std::set<std::pair<unsigned, void*>> m;
    unsigned nk = r.chance(40) ? (unsigned)r.range(1, 5) : (unsigned)r.range(5, 400);
    unsigned nd = r.chance(50) ? 1 : (unsigned)r.range(2, 12);
    int order = (int)r.below(4); unsigned cur = 0;
    auto key = [&]() -> unsigned { if (order == 0) return cur++ % (nk + 1); if (order == 1) return nk - cur++ % (nk + 1); return (unsigned)r.range(0, nk) * (order == 3 ? 10000019u : 1u); };
    auto check = [&](const string& op) {
      c.count("avl_checks");
      if (!t.is_balanced()) return fail("unbalanced:" + op, "is_balanced() false");
      if (!t.is_bst()) return fail("not-bst:" + op, "is_bst() false");
      // read the tree back through print(): in-order keys, depth = count of " -- "
      std::ostringstream os; auto* old = std::cout.rdbuf(os.rdbuf()); t.print(); std::cout.rdbuf(old);
      std::istringstream is(os.str()); string line; std::vector<unsigned> keys; std::vector<unsigned> depth; std::vector<unsigned> height;
      if (m.empty()) return;
      while (std::getline(is, line)) {
        unsigned d = 0; size_t p = 0; while (line.compare(p, 4, " -- ") == 0) { d++; p += 4; }
        unsigned k, hh; if (sscanf(line.c_str() + p, "%u (%u)", &k, &hh) != 2) { c.count("unparsed_print"); return; }
        keys.push_back(k); depth.push_back(d); height.push_back(hh);
      }
      std::vector<unsigned> want; for (auto& e : m) want.push_back(e.first);
      if (keys != want) return fail("content:" + op, "in-order keys differ from the model (" + to_string(keys.size()) + " vs " + to_string(want.size()) + ")");
      // rebuild the shape: the root of a range is its only entry of minimal depth
      bool ok = true;
      std::function<int(size_t, size_t, unsigned)> rec = [&](size_t a, size_t b, unsigned d) -> int {
        if (a >= b) return 0;
        size_t root = b; for (size_t i = a; i < b; i++) if (depth[i] == d) { if (root != b) ok = false; root = i; }
        if (root == b) { ok = false; return 0; }
        int l = rec(a, root, d + 1), rr = rec(root + 1, b, d + 1);
        if (std::abs(l - rr) > 1) ok = false;
        int hh = 1 + std::max(l, rr);
        if ((unsigned)hh != height[root]) ok = false;
        return hh;
      };
      rec(0, keys.size(), 0);
      if (!ok) fail("shape:" + op, "the printed tree is not an AVL tree:\n" + os.str().substr(0, 1500));
      c.count("shapes");
      uint64_t f = 5; for (size_t i = 0; i < keys.size(); i++) f = (f ^ (keys[i] * 64ull + depth[i])) * 1099511628211ull;
      c.nontrivial(f);
    };
    auto fit = [&](unsigned k) {
      void* g = t.find_best_fit(k);
      c.count("fits");
      auto it = m.lower_bound({k, nullptr});
      if (it == m.end()) { if (g) fail("fit-phantom", "find_best_fit(" + to_string(k) + ") found something in a tree without key >= it"); return; }
      unsigned bk = it->first; bool in = false;
      for (auto j = it; j != m.end() && j->first == bk; ++j) if (j->second == g) in = true;
      if (!in) fail("fit-wrong", "find_best_fit(" + to_string(k) + ") is not data of the smallest key " + to_string(bk));
    };
    int n = (int)r.range(20, 260); int bias = (int)r.range(30, 75);
    while (n-- && !bad) {
      c.count("ops");
      unsigned k = key(); void* d = arena + r.below(nd) * 8;
      if (r.chance(bias)) {
        hist += "ins " + to_string(k) + "," + to_string((char*)d - arena) + "; ";
        bool want = m.insert({k, d}).second;
        if (want) c.count("inserted"); else c.count("duplicate_inserts");
        if (t.insert(k, d) != want) fail("insert-result", "insert(" + to_string(k) + ") returned " + to_string(!want));
        check("insert");
      } else {
        if (!m.empty() && r.chance(75)) { auto it = std::next(m.begin(), r.below(m.size())); k = it->first; d = it->second; }
        hist += "del " + to_string(k) + "," + to_string((char*)d - arena) + "; ";
        bool want = m.erase({k, d}) > 0;
        if (want) c.count("removed"); else c.count("absent_removes");
        if (t.remove(k, d) != want) fail("remove-result", "remove(" + to_string(k) + ") returned " + to_string(!want));
        check("remove");
      }
      if (!bad) for (int q = 0; q < 3; q++) fit(r.chance(50) && !m.empty() ? (unsigned)(std::next(m.begin(), r.below(m.size()))->first + r.range(-1, 1)) : (unsigned)r.below(nk + 2));
      max_nodes = std::max(max_nodes, m.size());
    }
    if (max_nodes >= 8) c.count("histories_over_8_nodes");
    if (c.case_no < 2) c.sample(hist.substr(0, 200));
    hist.shrink_to_fit();
  }
  (void)before;
}
// memory of the tree is given back: a loop without any other allocation
static void avl_leak(Ctx& c, Rng& r) {
  std::vector<std::pair<unsigned, bool>> ops;
  for (int i = (int)r.range(10, 300); i > 0; i--) ops.push_back({(unsigned)r.below(60), r.chance(60)});
  size_t before = LIVE_BYTES();
  { utils::AVLTree t; for (auto& [k, ins] : ops) { if (ins) t.insert(k, nullptr); else t.remove(k, nullptr); } }
  size_t after = LIVE_BYTES();
  c.count("leak_checks");
  if (after > before) c.violation("leak", to_string(after - before) + " bytes not freed by the destroyed tree");
}
static void avl_all(Ctx& c, Rng& r) { avl_model(c, r); avl_leak(c, r); }

// ------------------------------------------------------------------ Luby
static void luby(Ctx& c, Rng& r) {
  napsat::luby_counter lc;
  // gaps between restarts: 1 1 2, 1 1 2 4, 1 1 2 4 8, ...
  std::vector<uint64_t> gaps; unsigned blocks = 0;
  auto refill = [&](size_t upto) { while (gaps.size() < upto) { blocks++; gaps.push_back(1); for (unsigned k = 0; k <= blocks; k++) gaps.push_back(1ull << k); } };
  int rounds = (int)r.range(1, 5);
  for (int q = 0; q < rounds; q++) {
    if (q) lc.reset();
    uint64_t steps = r.chance(20) ? (uint64_t)r.range(20000, 300000) : (uint64_t)r.range(1, 4000);
    size_t g = 0; uint64_t cnt = 0;
    refill(1);
    for (uint64_t i = 0; i < steps; i++) {
      bool want = ++cnt == gaps[g];
      if (want) { cnt = 0; g++; refill(g + 1); c.count("restarts"); }
      if (lc.increment() != want) { c.violation("luby-sequence", "round " + to_string(q) + " increment " + to_string(i) + " (gap number " + to_string(g) + ")"); return; }
    }
    c.count("increments", steps); c.count("max_gap", 0);
    c.nontrivial(((uint64_t)q << 32) ^ steps);
    if (r.chance(20)) { napsat::luby_counter copy = lc; for (int k = 0; k < 50; k++) if (copy.increment() != (++cnt == gaps[g] ? (cnt = 0, g++, refill(g + 1), true) : false)) { c.violation("luby-copy", "a copied counter differs"); return; } }
  }
  if (c.case_no < 2) c.sample(to_string(rounds) + " rounds of reset and increments");
}

// ------------------------------------------------------------------ dependency tracker
static void deps(Ctx& c, Rng& r) {
  using napsat::Tclause;
  napsat::proof::dependency_tracker t;
  std::map<unsigned, std::set<unsigned>> d; std::set<unsigned> inputs, learned;
  string hist; bool bad = false;
  auto fail = [&](const string& k, const string& w) { if (!bad) { bad = true; c.violation(k, w + " | " + (hist.size() > 3000 ? hist.substr(hist.size() - 3000) : hist)); } };
  unsigned next = (unsigned)r.below(5);
  std::vector<unsigned> freed;
  auto fresh = [&] { if (!freed.empty() && r.chance(50)) { size_t i = r.below(freed.size()); unsigned x = freed[i]; freed.erase(freed.begin() + i); return x; } unsigned x = next; next += 1 + (r.chance(10) ? (unsigned)r.below(30) : 0); return x; };
  auto any = [&] { return std::next(d.begin(), r.below(d.size()))->first; };
  // everything reachable from s through the recorded dependencies
  auto closure = [&](std::set<unsigned> s) { std::vector<unsigned> todo(s.begin(), s.end()); while (!todo.empty()) { unsigned x = todo.back(); todo.pop_back(); for (unsigned y : d[x]) if (s.insert(y).second) todo.push_back(y); } return s; };
  // an operation must record `must`, and nothing that is not reachable from it
  auto adopt = [&](unsigned id, const std::set<unsigned>& must, const string& op) {
    std::set<unsigned> got; for (Tclause x : t.get_dependencies(id)) got.insert(x.value);
    auto may = closure(must);
    if (!std::includes(got.begin(), got.end(), must.begin(), must.end())) fail("missing:" + op, "dependencies of " + to_string(id) + " are " + sstr(got) + " but must contain " + sstr(must));
    if (!std::includes(may.begin(), may.end(), got.begin(), got.end())) fail("spurious:" + op, "dependencies of " + to_string(id) + " are " + sstr(got) + ", only " + sstr(may) + " can be reached");
    d[id] = got;
  };
  auto check = [&](unsigned id, const string& op) {
    std::set<unsigned> got; for (Tclause x : t.get_dependencies(id)) got.insert(x.value);
    c.count("queries");
    if (got != d[id]) fail("deps:" + op, "dependencies of " + to_string(id) + " are " + sstr(got) + " instead of " + sstr(d[id]));
  };
  int n = (int)r.range(20, 200);
  while (n-- && !bad) {
    c.count("ops");
    unsigned p = (unsigned)r.below(100); string op; unsigned id = 0;
    if (p < 25 || d.empty()) { id = fresh(); op = "input"; hist += "input " + to_string(id) + "; "; t.add_input(id); d[id] = {id}; inputs.insert(id); }
    else if (p < 35) { id = fresh(); op = "learned"; hist += "learned " + to_string(id) + "; "; t.add_learned(id); d[id] = {}; learned.insert(id); }
    else if (p < 55) { id = any(); unsigned q = any(); op = "link"; hist += "link " + to_string(id) + "<-" + to_string(q) + "; "; t.link_dependencies(id, q); auto s = d[q]; s.insert(d[id].begin(), d[id].end()); adopt(id, s, op); }
    else if (p < 85) {
      // conflict analysis: track the clauses used, then commit to a new clause (or give up)
      op = "track"; t.start_tracking(); std::set<unsigned> acc; int k = (int)r.range(0, 6); hist += "track(";
      while (k--) { unsigned q = any(); hist += to_string(q) + " "; t.track_dependency(q); acc.insert(d[q].begin(), d[q].end()); }
      if (r.chance(20)) { hist += ") cancel; "; t.cancel_tracking(); c.count("cancelled"); id = any(); }
      else { id = fresh(); t.add_learned(id); t.finalize_tracking(id); d[id] = {}; adopt(id, acc, op); learned.insert(id); hist += ")->" + to_string(id) + "; "; c.count("finalized"); }
    } else if (!learned.empty()) {
      id = *std::next(learned.begin(), r.below(learned.size())); op = "delete"; hist += "del " + to_string(id) + "; ";
      t.delete_clause(id); d.erase(id); learned.erase(id); freed.push_back(id); c.count("deleted");
      if (d.empty()) continue;
      id = any();
    } else continue;
    check(id, op);
    // nothing else moved
    for (int k = 0; k < 3 && !bad; k++) check(any(), op + "-other");
    uint64_t f = 9; for (auto& e : d) { f = (f ^ e.first) * 1099511628211ull; for (unsigned x : e.second) f = (f ^ x) * 1099511628211ull; } c.nontrivial(f);
  }
  for (auto& e : d) if (!bad) check(e.first, "end");
  if (c.case_no < 2) c.sample(hist.substr(0, 200));
}

// ------------------------------------------------------------------ basic types
static void types(Ctx& c, Rng& r) {
  using namespace napsat; using namespace std;
  auto fail = [&](const string& k, const string& w) { c.violation(k, w); };
  for (int i = 0; i < 200; i++) {
    unsigned v = r.chance(30) ? (unsigned)r.range(1, 10) : r.chance(20) ? 0x7FFFFFFFu - (unsigned)r.below(4) : (unsigned)r.range(1, 0x7FFFFFFF);
    unsigned w = r.chance(40) ? v : r.chance(50) ? (v > 1 ? v - 1 : v + 1) : (unsigned)r.range(1, 0x7FFFFFFF);
    unsigned p = (unsigned)r.below(2), q = (unsigned)r.below(2);
    Tvar x(v); Tlit l(x, p), k(Tvar(w), q);
    c.count("literals"); c.nontrivial(((uint64_t)v << 33) ^ ((uint64_t)w << 2) ^ (p * 2 + q));
    string id = "v" + to_string(v) + (p ? "+" : "-");
    if (l.var().value != v || l.pol() != (p == 1)) fail("lit-roundtrip", id + " reads back as " + to_string(l.var().value));
    Tlit nl = ~l;
    if (nl.var().value != v || nl.pol() == l.pol() || nl == l || !(~nl == l)) fail("lit-negation", id);
    if ((l == k) != (v == w && p == q) || (l != k) != !(v == w && p == q)) fail("lit-equality", id);
    if ((l < k) != (l.value < k.value) || (l < k && k < l) || (l == k && l < k)) fail("lit-order", id);
    if (v != w && (l < k) != (v < w)) fail("lit-order-var", id + " not ordered by variable");
    for (Tval t : {Tval::TRUE, Tval::FALSE}) {
      bool lit_true = (t == Tval::TRUE) == (p == 1);
      if (l.satisfied(t) != lit_true) fail("lit-satisfied", id);
      if (l.falsified(t) != !lit_true) fail("lit-falsified", id);
      if (l.undefined(t)) fail("lit-undefined", id);
      if (!(Tlit(x, t) == Tlit(x, t == Tval::TRUE ? 1u : 0u))) fail("lit-from-value", id);
    }
    if (!l.undefined(Tval::UNDEF) || l.satisfied(Tval::UNDEF) || l.falsified(Tval::UNDEF)) fail("lit-undef-value", id);
    if (l.to_string() != (p ? "" : "~") + to_string(v)) fail("lit-to_string", id + " prints " + l.to_string());
    if (std::to_string(l) != l.to_string()) fail("lit-std-to_string", id);
    { std::ostringstream os; os << l << " " << x; if (os.str() != l.to_string() + " " + x.to_string()) fail("stream", os.str()); }
    if (x.to_string() != "v" + to_string(v)) fail("var-to_string", x.to_string());
    Tvar y(w);
    if ((x == y) != (v == w) || (x != y) != (v != w) || (x < y) != (v < w) || (x > y) != (v > w) || (x <= y) != (v <= w) || (x >= y) != (v >= w)) fail("var-compare", id);
    unsigned s = (unsigned)r.below(1000);
    if ((x + s).value != v + s || (x - 1u).value != v - 1 || (x + Tvar(s)).value != v + s) fail("var-arith", id);
    { Tvar z = x; z++; if (z.value != v + 1) fail("var-inc", id); ++z; --z; z--; if (z.value != v) fail("var-dec", id); z += s; z -= s; if (z.value != v) fail("var-addassign", id); if ((z++).value != v) fail("var-postinc", id); }
    Tlevel a(v), b(w);
    if ((a == b) != (v == w) || (a != b) != (v != w) || (a < b) != (v < w) || (a > b) != (v > w) || (a <= b) != (v <= w) || (a >= b) != (v >= w)) fail("level-compare", id);
    if (!(a < LEVEL_UNDEF) || !(LEVEL_ROOT < a) || Tlevel() != LEVEL_UNDEF) fail("level-special", id);
    if (a.to_string() != to_string(v)) fail("level-to_string", a.to_string());
    { Tlevel z = a; ++z; if (z.value != v + 1) fail("level-inc", id); --z; if ((z++).value != v) fail("level-postinc", id); }
    Tclause cl(v), cm(w);
    if ((cl == cm) != (v == w) || (cl < cm) != (v < w) || (cl != cm) != (v != w) || (cl > cm) != (v > w) || (cl <= cm) != (v <= w) || (cl >= cm) != (v >= w)) fail("clause-compare", id);
    if (cl.to_string() != "C" + to_string(v)) fail("clause-to_string", cl.to_string());
    if (cl == CLAUSE_UNDEF || cl == CLAUSE_LAZY || cl == CLAUSE_ASSUMPTION || cl == CLAUSE_ERROR || !(Tclause() == CLAUSE_UNDEF)) fail("clause-special", id);
    if (std::hash<Tclause>()(cl) != std::hash<Tclause>()(Tclause(v))) fail("clause-hash", id);
  }
  if (CLAUSE_UNDEF.to_string() == CLAUSE_LAZY.to_string() || CLAUSE_UNDEF == CLAUSE_LAZY || CLAUSE_LAZY == CLAUSE_ASSUMPTION || CLAUSE_UNDEF == CLAUSE_ASSUMPTION || CLAUSE_ERROR == CLAUSE_UNDEF) fail("clause-special-distinct", "special clause ids collide");
  // indexed vectors address by value
  indexed_vector<unsigned, Tvar> iv; unsigned n = (unsigned)r.range(1, 300); iv.resize(Tvar(n), 7u);
  if (iv.size().value != n) fail("indexed-size", to_string(iv.size().value));
  for (int i = 0; i < 20; i++) { unsigned k = (unsigned)r.below(n); iv[Tvar(k)] = k * 3; if (iv.at(k) != k * 3) fail("indexed-access", to_string(k)); }
  std::set<string> names; for (auto s : {status::SAT, status::UNSAT, status::UNKNOWN, status::ERROR, status::INTERRUPTED, status::TIMEOUT}) names.insert(status_to_string(s));
  if (names.size() != 6 || status_to_string(status::SAT) != "SAT" || status_to_string(status::UNSAT) != "UNSAT") fail("status-names", "status names collide");
  if (c.case_no < 2) c.sample("200 random literal/variable/level/clause identities");
}

// ------------------------------------------------------------------ C26: numbers, times and texts read back
static void printers(Ctx& c, Rng& r) {
  using namespace napsat; using namespace std;
  auto bad = [&](const string& k, const string& w) { c.violation("printed-" + k, w); };
  auto grouped = [](const string& s, string& digits) { // groups of three digits, the first of one to three
    digits.clear(); size_t i = 0, n = s.size(), first = n % 4; if (!n || first == 0) return false;
    for (; i < n; i++) { if (i >= first && (i - first) % 4 == 0) { if (s[i] != ',') return false; } else { if (!isdigit((unsigned char)s[i])) return false; digits += s[i]; } }
    return digits.size() == 1 || digits[0] != '0';
  };
  auto integer = [&](long long v) {
    string s = pretty_integer(v), d; bool neg = !s.empty() && s[0] == '-';
    if (!grouped(neg ? s.substr(1) : s, d) || neg != (v < 0) || (neg ? "-" : "") + d != to_string(v)) bad("integer", to_string(v) + " is printed as \"" + s + "\"");
    c.count("integers");
  };
  static const long long edge[] = {0, 1, -1, 9, 10, 99, 100, 999, 1000, 1001, 9999, 10000, 999999, 1000000, 1000001, 1010, 100000, -1000, -1001, 9223372036854775807ll, -9223372036854775807ll - 1};
  for (long long e : edge) integer(e);
  for (int i = 0; i < 60; i++) { long long v = (long long)(r.next() >> (1 + r.below(63))); if (r.chance(30)) { long long p = 1; for (unsigned k = (unsigned)r.below(18); k; k--) p *= 10; v = p * (long long)r.range(1, 9) + (long long)r.below(3) - 1; } integer(r.chance(30) ? -v : v); }
  for (int i = 0; i < 30; i++) {
    double v = (double)r.below(1000000000) / (double)(1 + r.below(100000)); if (r.chance(20)) v = -v; if (r.chance(10)) v = (double)(long long)v;
    unsigned n = (unsigned)r.below(5); string s = pretty_float(v, n), d, in = s, fr; bool neg = !s.empty() && s[0] == '-'; if (neg) in.erase(0, 1);
    size_t dot = in.find('.'); if (dot != string::npos) { fr = in.substr(dot + 1); in.resize(dot); }
    bool ok = grouped(in, d) && fr.size() == n && (dot != string::npos) == (n > 0); for (char ch : fr) ok &= isdigit((unsigned char)ch) != 0;
    if (ok) { double back = atof((d + "." + fr).c_str()); if (neg) back = -back; ok = fabs(back - v) <= 1.0001 * pow(10, -(int)n) + 1e-6; }
    if (!ok) bad("float", to_string(v) + " is printed with " + to_string(n) + " digits as \"" + s + "\"");
    c.count("floats");
  }
  for (int i = 0; i < 20; i++) {
    long long us = (long long)(r.next() >> (20 + r.below(40))); string s = pretty_time(chrono::microseconds(us)); istringstream is(s); string t; long long total = 0, last = 1ll << 60; bool ok = true;
    while (is >> t) { size_t k = 0; long long v = 0; while (k < t.size() && isdigit((unsigned char)t[k])) v = v * 10 + (t[k++] - '0'); string u = t.substr(k); long long f = u == "h" ? 3600000 : u == "m" ? 60000 : u == "s" ? 1000 : u == "ms" ? 1 : 0; if (!f || !k || f >= last) ok = false; if (f < 3600000 && v * f >= (f == 1 ? 1000 : f * 60)) ok = false; last = f; total += v * f; }
    if (!ok || total != us / 1000) bad("time", to_string(us) + " microseconds are printed as \"" + s + "\"");
    c.count("times");
  }
  for (int i = 0; i < 20; i++) { // every number of a range takes the same width
    unsigned m = (unsigned)(r.next() >> (34 + r.below(30))); m = max(m, 1u); size_t w = (pad(m, m) + to_string(m)).size();
    for (int k = 0; k < 10; k++) { unsigned n = k ? (unsigned)r.below((uint64_t)m + 1) : 0; string s = pad(n, m) + to_string(n); if (s.size() != w) bad("padding", to_string(n) + " of " + to_string(m) + " is printed as \"" + s + "\""); c.count("paddings"); }
  }
  for (int i = 0; i < 8; i++) {
    string plain, styled; for (int k = 0, n = (int)r.below(20); k < n; k++) { char ch = (char)r.range(32, 126); plain += ch; if (r.chance(25)) styled += r.chance(50) ? "\033[0m" : "\033[1;31m"; styled += ch; }
    if (string_length_escaped(plain) != plain.size() || string_length_escaped(styled) != plain.size()) bad("length", "\"" + plain + "\" of " + to_string(plain.size()) + " characters is measured " + to_string(string_length_escaped(styled)));
    c.count("lengths");
  }
  for (int i = 0; i < 6; i++) {
    unsigned width = (unsigned)r.range(20, 90); string prefix(r.below(3) * 4, ' '), text; vector<string> w;
    for (int k = 0, n = (int)r.below(60); k < n; k++) { string q; for (int j = 0, m = (int)r.range(1, r.chance(3) ? (int)width + 5 : 11); j < m; j++) q += (char)r.range('a', 'z'); if (r.chance(10)) q += ",.;:)"[r.below(5)]; w.push_back(q); if (k) text += r.chance(7) ? "\n" : r.chance(5) ? "  " : " "; text += q; }
    string out = justify_string(text, width, ' ', prefix); istringstream is(out); string line; vector<string> got; bool ok = true; string why;
    while (getline(is, line)) { if (line.substr(0, prefix.size()) != prefix) ok = false, why = "prefix"; istringstream ls(line); string q; size_t cnt = 0; while (ls >> q) got.push_back(q), cnt++; while (!line.empty() && line.back() == ' ') line.pop_back(); if (cnt > 1 && line.size() > width) ok = false, why = "a line of " + to_string(line.size()); }
    if (!ok || got != w) bad("justified", "a text justified to " + to_string(width) + (why.empty() ? " loses or changes words: " : " has " + why + ": ") + text + " -> " + out);
    c.count("texts"); c.count("lines", got.size());
  }
  c.nontrivial(r.next()); c.sample(napsat::pretty_integer(1234567) + " " + pretty_float(1234.5) + " " + pretty_time(chrono::microseconds(3723004000ll)));
}

int main(int argc, char** argv) {
  return run_main(argc, argv, {{"bitset_ops", bitset_ops}, {"bitset_query", bitset_query}, {"heap", heap_model}, {"avl", avl_all}, {"luby", luby}, {"deps", deps}, {"types", types}, {"printers", printers}});
}
