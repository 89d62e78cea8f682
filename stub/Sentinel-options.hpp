// Stand-in for the (absent) SATSentinel submodule: option block.
// Interface reverse-engineered from how /repo uses it; see DESIGN.md.
#pragma once
#include <string>
#include <vector>

namespace sentinel
{
  class Options
  {
  public:
    Options() = default;
    explicit Options(std::vector<std::string>& tokens) : seen_tokens(tokens) {}

    std::string commands_file;
    bool check_no_conflicts = false;
    bool check_trail_monotonicity = false;
    bool check_implied_levels = false;
    bool check_no_missed_implications = false;
    bool check_topological_order = false;
    bool check_assignment_coherence = false;
    bool check_weak_watched_literals = false;
    bool check_strong_watched_literals = false;

    // what the front end handed to the observer (C-options check reads it)
    std::vector<std::string> seen_tokens;

    static std::string get_help_text() { return "OBSERVER (stand-in)\n"; }
  };
}
