// Reads a printed derivation back and replays every resolution of it.
#pragma once
#include "session.hpp"
#include <set>
namespace vf
{
using namespace std; using oracle::Cnf; using oracle::Clause;
struct Printed { bool input; Clause lits; string a, b; };
inline bool parse_proof(const string& text, vector<pair<string, Printed>>& out, string& err) {
  istringstream is(text); string line;
  while (getline(is, line)) {
    if (line.empty()) continue;
    size_t colon = line.find(": ("), close = line.find(") [");
    if (colon == string::npos || close == string::npos) { err = "unreadable line: " + line; return false; }
    Printed p; string id = line.substr(0, colon);
    istringstream ls(line.substr(colon + 3, close - colon - 3)); string t;
    while (ls >> t) { bool neg = t[0] == '~'; int v = atoi(t.c_str() + neg); if (v <= 0) { err = "unreadable literal " + t + " in: " + line; return false; } p.lits.push_back(neg ? -v : v); }
    string tail = line.substr(close + 2);
    if (tail == "[input]") p.input = true;
    else if (tail.rfind("[resolution ", 0) == 0 && tail.back() == ']') {
      p.input = false; string ab = tail.substr(12, tail.size() - 13); size_t k = ab.find(", ");
      if (k == string::npos) { err = "unreadable rule: " + line; return false; }
      p.a = ab.substr(0, k); p.b = ab.substr(k + 2);
    } else { err = "unreadable rule: " + line; return false; }
    out.push_back({id, p});
  }
  return true;
}
inline const char* const NO_EMPTY = "the proof does not end in the empty clause";
inline Clause norm(Clause c) { sort(c.begin(), c.end()); c.erase(unique(c.begin(), c.end()), c.end()); return c; }
inline string audit_proof(Ctx& c, const string& text, const Cnf& input) {
  vector<pair<string, Printed>> steps; string err;
  if (!parse_proof(text, steps, err)) return err;
  set<Clause> in; for (auto& cl : input) in.insert(norm(cl));
  map<string, Clause> have; bool empty = false;
  for (auto& [id, p] : steps) {
    Clause l = norm(p.lits);
    if (p.input) { c.count("proof_inputs"); if (!in.count(l)) return "step " + id + " claims the input clause " + oracle::str(l) + "which the user never gave"; }
    else {
      c.count("proof_resolutions");
      auto a = have.find(p.a), b = have.find(p.b);
      if (a == have.end() || b == have.end()) return "step " + id + " uses an earlier step that was not printed (" + p.a + ", " + p.b + ")";
      bool ok = false;
      for (int x : a->second) {
        if (!binary_search(b->second.begin(), b->second.end(), -x)) continue;
        Clause q; for (int y : a->second) if (y != x) q.push_back(y);
        for (int y : b->second) if (y != -x) q.push_back(y);
        if (norm(q) == l) { ok = true; break; }
      }
      if (!ok) return "step " + id + ": " + oracle::str(l) + "is not a resolvent of " + oracle::str(a->second) + "and " + oracle::str(b->second);
    }
    if (have.count(id)) return "step " + id + " printed twice";
    have[id] = l;
    if (l.empty()) empty = true;
  }
  if (!empty) return NO_EMPTY;
  return "";
}
}
