// Stand-in for the (absent) SATSentinel submodule: notification API.
// Every notification the solver emits is forwarded to an abstract Monitor, which
// is where the run-time verification monitors of /verif plug in.
#pragma once
#include "Sentinel-options.hpp"
#include <functional>
#include <limits>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace sentinel
{
  struct Tvar {
    unsigned value;
    explicit Tvar(unsigned v = 0) : value(v) {}
  };
  struct Tlit {
    unsigned value;
    explicit Tlit(unsigned v = 0) : value(v) {}
    Tlit(Tvar var, unsigned pol) : value(var.value << 1 | (pol ? 1u : 0u)) {}
    Tvar var() const { return Tvar(value >> 1); }
    bool pol() const { return value & 1; }
    bool operator==(const Tlit& o) const { return value == o.value; }
  };
  struct Tclause {
    unsigned value;
    explicit Tclause(unsigned v = 0xFFFFFFFFu) : value(v) {}
  };
  struct Tlevel {
    unsigned value;
    explicit Tlevel(unsigned v = 0xFFFFFFFFu) : value(v) {}
  };

  class SATSentinel;
  using Tparser = std::function<bool(const std::string&)>;

  struct WatchInvariant {
    using Tcheck = std::function<bool(Tlit, Tlit, Tlit, std::string&)>;
    std::string name;
    Tcheck check;
    std::string description;
    WatchInvariant(std::string n, Tcheck c, std::string d = "")
      : name(std::move(n)), check(std::move(c)), description(std::move(d)) {}
  };

  // The monitor interface. All notifications arrive here, in order.
  class Monitor {
  public:
    virtual ~Monitor() = default;
    virtual void add_variable(unsigned) {}
    virtual void set_variable_alias(unsigned, const std::string&) {}
    virtual void add_clause(unsigned, const unsigned*, unsigned, bool) {}
    virtual void delete_clause(unsigned) {}
    virtual void shrink_clause(unsigned, unsigned) {}
    virtual void assign(unsigned, unsigned) {}
    virtual void unassign(unsigned) {}
    virtual void propagate(unsigned) {}
    virtual void unpropagate(unsigned) {}
    virtual void update_level(unsigned, unsigned) {}
    virtual void update_reason(unsigned, unsigned) {}
    virtual void watch(unsigned, unsigned) {}
    virtual void unwatch(unsigned, unsigned) {}
    virtual void block(unsigned, unsigned, unsigned) {}
    virtual void lock_assumption(unsigned) {}
    virtual void unlock_assumption(unsigned) {}
    virtual void check_invariants() {}
    virtual void checkpoint() {}
    virtual void message(const std::string&, unsigned) {}
    virtual void add_watch_invariant(WatchInvariant*) {}
    virtual void set_parser(Tparser*) {}
  };

  // The monitor attached to the next observers that get created (may be null).
  inline Monitor*& current_monitor() { static thread_local Monitor* m = nullptr; return m; }

  class SATSentinel {
  public:
    Options options;
    Monitor* mon = nullptr;
    std::function<std::string(Tvar)> var_detail;
    std::function<std::string(Tclause)> clause_detail;
    std::vector<WatchInvariant*> invariants;
    Tparser* parser = nullptr;
    ~SATSentinel() { for (WatchInvariant* w : invariants) delete w; delete parser; }
  };

  // The observer created last, through which its callbacks can be called.
  inline SATSentinel*& last_sentinel() { static thread_local SATSentinel* s = nullptr; return s; }

  inline SATSentinel* create_sentinel(const Options& o) {
    SATSentinel* s = new SATSentinel();
    s->options = o;
    s->mon = current_monitor();
    last_sentinel() = s;
    return s;
  }
  inline void delete_sentinel(SATSentinel* s) { delete s; }

#define SENTINEL_FWD(call) do { if (s->mon) s->mon->call; return true; } while (0)
  inline bool add_variable(SATSentinel* s, Tvar v) { SENTINEL_FWD(add_variable(v.value)); }
  inline bool set_variable_alias(SATSentinel* s, Tvar v, const std::string& a) { SENTINEL_FWD(set_variable_alias(v.value, a)); }
  inline bool add_clause(SATSentinel* s, Tclause c, const Tlit* l, unsigned n, bool external) {
    std::vector<unsigned> t(n + 1);
    for (unsigned i = 0; i < n; i++) t[i] = l[i].value;
    SENTINEL_FWD(add_clause(c.value, t.data(), n, external));
  }
  inline bool delete_clause(SATSentinel* s, Tclause c) { SENTINEL_FWD(delete_clause(c.value)); }
  inline bool shrink_clause(SATSentinel* s, Tclause c, Tlit l) { SENTINEL_FWD(shrink_clause(c.value, l.value)); }
  inline bool assign(SATSentinel* s, Tlit l, Tclause r) { SENTINEL_FWD(assign(l.value, r.value)); }
  inline bool unassign(SATSentinel* s, Tlit l) { SENTINEL_FWD(unassign(l.value)); }
  inline bool propagate(SATSentinel* s, Tlit l) { SENTINEL_FWD(propagate(l.value)); }
  inline bool unpropagate(SATSentinel* s, Tlit l) { SENTINEL_FWD(unpropagate(l.value)); }
  inline bool update_level(SATSentinel* s, Tlit l, Tlevel v) { SENTINEL_FWD(update_level(l.value, v.value)); }
  inline bool update_reason(SATSentinel* s, Tlit l, Tclause c) { SENTINEL_FWD(update_reason(l.value, c.value)); }
  inline bool watch(SATSentinel* s, Tclause c, Tlit l) { SENTINEL_FWD(watch(c.value, l.value)); }
  inline bool unwatch(SATSentinel* s, Tclause c, Tlit l) { SENTINEL_FWD(unwatch(c.value, l.value)); }
  inline bool block(SATSentinel* s, Tclause c, Tlit b, Tlit w) { SENTINEL_FWD(block(c.value, b.value, w.value)); }
  inline bool lock_assumption(SATSentinel* s, Tlit l) { SENTINEL_FWD(lock_assumption(l.value)); }
  inline bool unlock_assumption(SATSentinel* s, Tlit l) { SENTINEL_FWD(unlock_assumption(l.value)); }
  inline bool check_invariants(SATSentinel* s) { SENTINEL_FWD(check_invariants()); }
  inline bool checkpoint(SATSentinel* s) { SENTINEL_FWD(checkpoint()); }
  inline bool message(SATSentinel* s, const std::string& m, unsigned level = 0) { SENTINEL_FWD(message(m, level)); }
#undef SENTINEL_FWD
  inline bool save_execution(SATSentinel*, const std::string&) { return true; }
  inline bool load_execution(SATSentinel*, const std::string&) { return true; }
  inline void set_command_parser(SATSentinel* s, Tparser* p) { s->parser = p; if (s->mon) s->mon->set_parser(p); }
  inline void set_variable_detail_callback(SATSentinel* s, std::function<std::string(Tvar)> f) { s->var_detail = std::move(f); }
  inline void set_clause_detail_callback(SATSentinel* s, std::function<std::string(Tclause)> f) { s->clause_detail = std::move(f); }
  inline void add_watch_invariant(SATSentinel* s, WatchInvariant* w) { s->invariants.push_back(w); if (s->mon) s->mon->add_watch_invariant(w); }
}
