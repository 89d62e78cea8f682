// C13: histories of every public call under the sanitizers, and the memory given back.
#include "session.hpp"
#include <filesystem>
#include <fstream>
#include <sanitizer/allocator_interface.h>
using namespace napsat; using namespace std; using namespace vf;
using oracle::Cnf; using oracle::Clause;

struct Sink { ostringstream os; streambuf *o, *e; Sink() { o = cout.rdbuf(os.rdbuf()); e = cerr.rdbuf(os.rdbuf()); } ~Sink() { cout.rdbuf(o); cerr.rdbuf(e); } };

static void history(Ctx& c, Rng& r, const Config& g0) {
  Config g = g0; string fam; Cnf f = r.chance(80) ? gen::formula(r, (int)r.below(2), &fam) : gen::formula(r, 2, &fam);
  for (auto& cl : f) { if (r.chance(4) && !cl.empty()) cl.push_back(r.pick(cl)); if (r.chance(2) && !cl.empty()) cl.push_back(-r.pick(cl)); }
  if (r.chance(2)) f.insert(f.begin() + r.below(f.size() + 1), Clause{});
  Session S(c, g); S.mode = (int)r.below(3); S.m.step_limit = 20000000; S.open();
  size_t i = 0; unsigned steps = (unsigned)r.range(5, 80);
  auto name = [&](const char* n) { c.count(string("call:") + n); S.calls++; S.note(n); };
  uint64_t salt = r.next();
  while (steps-- && !S.failed()) {
    status st = get_status(S.s);
    switch (r.below(22)) {
      case 0: case 1: case 2: case 3: { name("add_clause"); for (int k = (int)r.range(1, 10); k > 0 && i < f.size(); k--) S.add(f[i++], &r); break; }
      case 4: { name("add_random"); int n = max(1, oracle::max_var(f)); S.add(gen::rand_clause(r, n + 1, (int)r.range(1, min(n, 4))), &r); break; }
      case 5: case 6: { name("solve"); S.do_solve(); break; }
      case 7: { name("solve_limited"); solve_limited(S.s, (unsigned)r.below(r.chance(50) ? 5 : 200)); break; }
      case 8: { name("propagate"); propagate(S.s); break; }
      case 9: { // propagate then decide, as the documentation asks
        name("decide"); if (st == status::UNKNOWN && propagate(S.s)) { if (r.chance(50)) decide(S.s); else { vector<int> u; for (unsigned v = 1; v <= S.nvars(); v++) if (!S.value((int)v)) u.push_back((int)v); if (!u.empty()) decide(S.s, L(r.pick(u) * (r.chance(50) ? 1 : -1))); } } break; }
      case 10: { name("new_variable"); if (S.nvars() < 60) new_variable(S.s); break; }
      case 11: { name("synchronize"); synchronize(S.s); break; }
      case 12: { name("suggest_polarity"); if (S.nvars()) suggest_polarity(S.s, L((int)r.range(1, S.nvars())), r.chance(50)); break; }
      case 13: { name("set_weight_function"); set_weight_function(S.s, [salt](Tlit l) { Rng q(salt ^ l.value); return (double)(1 + q.below(50)); }); break; }
      case 14: { name("queries"); for (unsigned v = 1; v <= S.nvars(); v++) { S.value((int)v); is_root_level(S.s, Tvar(v)); } for (Tlit l : get_partial_assignment(S.s)) is_decided(S.s, l); break; }
      case 15: { name("print_statistics"); Sink k; print_statistics(S.s); break; }
      case 16: { if (g.proof && get_status(S.s) == status::UNSAT && !g.lcm()) { name("proof"); Sink k; if (r.chance(50)) print_proof(S.s); if (!check_proof(S.s)) S.fail("proof-rejected", "check_proof"); } break; }
      case 17: { // a file on top of what there is
        name("parse_dimacs"); string p = c.scratch + "/t.cnf"; { ofstream o(p); o << "p cnf 5 3\n"; for (int k = (int)r.below(6); k > 0; k--) { for (int l : gen::rand_clause(r, 8, (int)r.range(1, 3))) o << l << " "; o << (r.chance(3) ? "x\n" : "0\n"); } }
        { ifstream i(p); stringstream t; t << i.rdbuf(); S.note(t.str()); }
        Sink k; parse_dimacs(S.s, p.c_str()); break; }
      case 18: { if (st != status::SAT) break; name("block_model"); Clause b; for (Tlit l : get_partial_assignment(S.s)) b.push_back(-D(l)); S.add(b, &r); break; }
      case 19: { name("open_clause"); start_new_clause(S.s); int n = (int)r.below(4); for (int l : gen::rand_clause(r, 6, max(1, n))) { push_literal(S.s, L(l)); S.note(to_string(l)); } finalize_clause(S.s); break; }
      default: break;
    }
    if (get_status(S.s) == status::ERROR) { c.count("errors"); break; }
  }
  if (r.chance(70) && get_status(S.s) != status::ERROR) S.do_solve();
  c.count("calls", S.calls); c.count("strat:" + g.tag);
  c.nontrivial(fnv(S.trace) ^ fnv(g.text()));
  c.sample(g.text() + " family " + fam + ": " + S.trace.substr(0, 400));
}
static void w_api(Ctx& c, Rng& r) {
  Config g = make_config(r, r.chance(40), r.chance(40));
  auto opt = [&](const char* n, unsigned pct) { if (r.chance(pct)) g.extra.push_back(n); };
  if (r.chance(35)) { if (r.chance(60)) g.observe = true; if (g.observe) opt("-stat", 70); }
  opt("--record-dependencies", 15); opt("-iuv", 15);
  g.n_var = r.chance(50) ? 0 : (unsigned)r.below(20); g.n_cl = r.chance(50) ? 0 : (unsigned)r.below(50);
  uint64_t seed = r.next();
  { Rng q(seed); history(c, q, g); }
  // the same again: whatever is left over now has been leaked
  size_t before = __sanitizer_get_current_allocated_bytes();
  { uint64_t k = c.counters["cases"]; (void)k; }
  Ctx quiet; quiet.out = fopen("/dev/null", "w"); quiet.scratch = c.scratch;
  { Ctx warm; warm.out = quiet.out; warm.scratch = c.scratch; Rng q(seed); history(warm, q, g); }
  size_t mid = __sanitizer_get_current_allocated_bytes();
  { Ctx warm; warm.out = quiet.out; warm.scratch = c.scratch; Rng q(seed); history(warm, q, g); }
  size_t after = __sanitizer_get_current_allocated_bytes();
  fclose(quiet.out);
  if (after > mid) c.violation("leak/" + g.tag, to_string(after - mid) + " bytes are still allocated after the solver was deleted [" + g.text() + "]");
  c.count("leak_checks"); (void)before;
}
int main(int argc, char** argv) {
  env::set_suppress_info(true); env::set_suppress_warning(true);
  env::set_invariant_configuration_folder(string(getenv("VF_REPO") ? getenv("VF_REPO") : "/repo") + "/invariant-configurations/");
  return run_main(argc, argv, {{"api", w_api}});
}
