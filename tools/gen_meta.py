#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below and from checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
from checks import CHECKS

P = []


def prop(id, title, statement, over, quant, why, files, mechanism, observe, state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "observe_at": observe, "hook_needed": hook}})


S = "src/solver/"
ALLSTRAT = "for every CNF formula, every backtracking strategy and option combination, every order and way of adding clauses"

prop("C01", "Every SAT answer is a total model of the clauses given",
     "Whenever the solver reports SAT, the reported assignment gives a value to every variable, is free of contradictory or repeated literals, and satisfies every clause the user has added so far. This holds in every backtracking strategy, with any options, polarity suggestions and weight functions, and after any mix of incremental additions, manual steps and solve calls.",
     ["inputs", "histories", "configurations"], ALLSTRAT + ", at each SAT answer of the history",
     "The unit tests solve a handful of fixed files with default options; whether clauses added later, removed, reduced or purged are still satisfied depends on unbounded histories.",
     [S + "NapSAT.cpp", S + "NapSAT-propagation.cpp", S + "NapSAT-clauses.cpp", S + "NapSAT-backtrack.cpp", S + "NapSAT-purge.cpp"],
     [("watched-literal propagation", S + "NapSAT-propagation.cpp"), ("clause insertion repairing the trail", S + "NapSAT-clauses.cpp internal_add_clause"), ("SAT only when all variables are assigned without conflict", S + "NapSAT.cpp solve/decide")],
     ["solve", "get_status", "get_partial_assignment", "get_variable_value"], [("trail", "current assignment", S + "NapSAT.hpp _trail")])
prop("C02", "The verdict is right and reached in every backtracking strategy",
     "Given a finite formula, solve terminates (within a generous bound on its own steps) and answers SAT exactly when the formula is satisfiable and UNSAT exactly when it is not, whatever the backtracking strategy, cost estimation, restart, deletion and activity options. The answer is stable when asked again.",
     ["inputs", "configurations"], ALLSTRAT,
     "Tests compare few formulas in few strategies; wrong answers need specific interleavings of learning, purging, reduction and backtracking.",
     [S + "NapSAT.cpp", S + "NapSAT-conflict.cpp", S + "NapSAT-backtrack.cpp", S + "NapSAT-imply.cpp", S + "NapSAT-purge.cpp", S + "SAT-options.cpp"],
     [("conflict repair by level or by chunks", S + "NapSAT-conflict.cpp level_repair/graph_repair"), ("restarts and clause reduction", S + "NapSAT.cpp, NapSAT-purge.cpp")],
     ["solve", "get_status"])
prop("C03", "Learned and simplified clauses follow; only redundant ones go",
     "Every clause the solver learns and every clause obtained by removing literals from a stored clause is a logical consequence of the clauses given by the user at that moment. A clause given by the user disappears from the solver only when it is implied by what remains.",
     ["inputs", "histories", "configurations"], "for every clause learned, shrunk or deleted in every execution",
     "No unit test looks at the learned clauses; an unsound clause rarely changes the verdict of a small test.",
     [S + "NapSAT-conflict.cpp", S + "NapSAT-purge.cpp", S + "NapSAT-clauses.cpp"],
     [("first-UIP analysis and minimisation", S + "NapSAT-conflict.cpp analyze_conflict_impl"), ("purge of satisfied clauses and root-false literals", S + "NapSAT-purge.cpp")],
     ["clause notifications to the observer"])
prop("C04", "The assignment is always explained by decisions and clauses",
     "At every point where the user can look, each assigned literal is either a decision or is forced by a clause of the solver whose other literals are all false, and all implied literals follow from the user's clauses and the decisions; literals reported at root level follow from the clauses alone. The observer, the trail and the value queries describe the same assignment, and nothing is assigned twice or retracted while unassigned.",
     ["histories", "inputs", "configurations"], "at every quiescent point of every history of additions, decisions, propagations, synchronisations and solves",
     "Tests check final verdicts; stale or wrong reasons survive until a particular conflict uses them.",
     [S + "NapSAT-imply.cpp", S + "NapSAT-backtrack.cpp", S + "NapSAT-propagation.cpp", S + "NapSAT-utils.cpp"],
     [("implication and re-implication", S + "NapSAT-imply.cpp"), ("partial backtracking keeps supported literals", S + "NapSAT-backtrack.cpp")],
     ["get_partial_assignment", "is_decided", "is_root_level", "get_variable_value", "assignment notifications"])
prop("C05", "Propagation is complete before a decision is asked for",
     "Whenever propagate returns asking for a decision (or SAT is reported), no clause of the user or of the solver is falsified and no clause has all its literals false but one left unassigned. This holds in all strategies, including those that leave missed lower implications.",
     ["histories", "inputs", "configurations"], "at every return of propagate in every history of additions, decisions and propagations",
     "A missed watch only matters for a later conflict; tests see final answers, which a missed propagation usually does not change.",
     [S + "NapSAT-propagation.cpp", S + "NapSAT-clauses.cpp", S + "NapSAT-backtrack.cpp", S + "NapSAT-purge.cpp"],
     [("watched literals and blockers", S + "NapSAT-propagation.cpp"), ("re-propagation after backtracking", S + "NapSAT-backtrack.cpp")],
     ["propagate", "get_variable_value"], [("watch lists", "clauses to visit when a literal is falsified", S + "NapSAT.hpp _watches")])
prop("C06", "Incremental solving agrees with solving from scratch",
     "After any sequence of added clauses, new variables, manual steps and solve calls, the answer equals that of a fresh solve of all the clauses added so far, and every SAT answer is a model. Once UNSAT is reported without assumptions, every later answer is UNSAT whatever is added.",
     ["histories", "inputs", "configurations"], "for every history of API calls in every strategy",
     "The state left by earlier calls (trail, learned clauses, purged clauses, pending conflicts) is what matters; tests exercise few short histories.",
     [S + "NapSAT.cpp", S + "NapSAT-clauses.cpp", S + "NapSAT-conflict.cpp"],
     [("clause insertion at any decision level", S + "NapSAT-clauses.cpp internal_add_clause"), ("conflicts pending between calls", S + "NapSAT-conflict.cpp repair_conflicts")],
     ["add_clause", "push_literal", "finalize_clause", "new_variable", "solve", "propagate", "decide"])
prop("C07", "Enumerating with blocking clauses visits each model exactly once",
     "Repeatedly solving and adding the negation of the model found enumerates exactly the models of the formula over the solver's variables, each once, and ends with UNSAT.",
     ["inputs", "configurations", "histories"], "for every formula of few variables and every strategy, with and without synchronisation",
     "An early UNSAT or a repeated model needs long sequences of conflicting additions on top of a full assignment.",
     [S + "NapSAT-clauses.cpp", S + "NapSAT-conflict.cpp", "main.cpp"],
     [("repair of a user clause falsified by a complete assignment", S + "NapSAT-clauses.cpp")],
     ["solve", "get_partial_assignment", "add_clause"])
prop("C08", "UNSAT answers come with a valid resolution refutation",
     "When proofs are enabled and the solver answers UNSAT, the printed derivation starts from clauses the user gave, every step is a resolvent of two earlier printed clauses, and it ends in the empty clause; the built-in checker accepts it, also when asked twice. This holds in every strategy, incrementally, and with clauses containing duplicated or root-false literals.",
     ["inputs", "histories", "configurations"], "for every unsatisfiable formula and history, every strategy (see known findings for lazy chunk merging)",
     "The tests check a handful of proofs with the solver's own checker, which shares the code that records the proof.",
     ["src/proof/proof.cpp", S + "NapSAT-conflict.cpp", S + "NapSAT-clauses.cpp", S + "NapSAT-purge.cpp"],
     [("resolution chain recording", "src/proof/proof.cpp"), ("chains linked during conflict analysis and root simplification", S + "NapSAT-conflict.cpp")],
     ["print_proof", "check_proof"])
prop("C09", "The proof checker accepts exactly the valid derivations",
     "The proof checker returns true for derivations in which every clause is the result of resolving its premises in order and some derived clause is empty, and false, without crashing, for derivations that are corrupted in any way: a wrong resolvent, an unknown or later premise, a missing or non-opposite pivot, no empty clause.",
     ["inputs", "fault_sequences"], "for every derivation and every single corruption of one",
     "Tests only feed it proofs the solver just built, which are valid.",
     ["src/proof/proof.cpp", "src/proof/proof.hpp"], [("resolution replay", "src/proof/proof.cpp check_proof")], ["resolution_proof API", "check_proof"])
prop("C10", "Limits interrupt a run without affecting what it would find",
     "With a conflict limit, solve stops with UNKNOWN once that many conflicts have been met and never after many more, the state it leaves can be inspected and extended, and resuming by calling again (with or without a limit, or with a stepwise propagate/decide loop) ends in the same verdict and valid models as an unlimited run.",
     ["histories", "inputs", "configurations"], "for every formula, limit, sequence of limits and way of resuming",
     "No unit test uses limits; the interesting states are those in the middle of a conflict.",
     [S + "NapSAT.cpp", "src/SAT-API.cpp"], [("conflict limit in the solve loop", S + "NapSAT.cpp solve/propagate")], ["solve_limited", "solve with --conflict-limit", "get_status"])
prop("C11", "A DIMACS file is read as exactly the clauses it contains",
     "Whatever the layout (line breaks inside clauses, several clauses per line, tabs, blank lines, comments anywhere, missing final newline, header counts off, CRLF) and whatever the compression (none, xz, bz2, several streams), the clauses given to the solver are exactly those of the file, in order, with variables numbered as in the file.",
     ["inputs"], "for every CNF, every layout of it and every container",
     "Tests parse two or three well-formed files.",
     [S + "NapSAT-utils.cpp", "src/utils/decoder.cpp"], [("tokenizer", S + "NapSAT-utils.cpp parse_dimacs"), ("xz and bz2 decoders", "src/utils/decoder.cpp")], ["parse_dimacs", "clause notifications"])
prop("C12", "Malformed, truncated or missing input is rejected, not guessed",
     "A file that is missing, a directory, corrupted or truncated in compressed form, or contains text that is not DIMACS makes parsing report failure without crashing, reading out of bounds or hanging, and never results in a verdict on a silently shortened formula.",
     ["inputs", "fault_sequences"], "for every truncation and corruption point of a compressed file and every malformed text",
     "Tests contain no malformed file.",
     [S + "NapSAT-utils.cpp", "src/utils/decoder.cpp", "main.cpp"], [("decoder error returns", "src/utils/decoder.cpp"), ("tokenizer errors", S + "NapSAT-utils.cpp parse_dimacs")], ["parse_dimacs", "exit code of the executable"])
prop("C13", "No API history causes memory errors, undefined behaviour or leaks",
     "Any sequence of API calls respecting the documented preconditions runs without out-of-bounds or use-after-free access, undefined behaviour, use of uninitialised memory or failed internal assertion, and deleting the solver returns all the memory it took.",
     ["histories", "inputs", "configurations"], "for every history of API calls mixing solving, proofs, assumptions, parsing, synchronising and printing in every strategy",
     "Tests run without sanitizers, and on few histories.",
     ["src/SAT-API.cpp", S + "NapSAT.cpp", S + "NapSAT-utils.cpp"], [("growth of per-variable and per-chunk tables", S + "NapSAT-utils.cpp"), ("destructor", S + "NapSAT.cpp")], ["all of include/SAT-API.hpp"])
prop("C14", "Assumptions hold in models, and failing ones are reported soundly",
     "In graph backtracking, a model found under assumptions satisfies the clauses and every assumption not forgotten; UNSAT is reported under assumptions only when the clauses with these assumptions are unsatisfiable; after forgetting assumptions the solver answers as if they had never been made.",
     ["histories", "inputs", "configurations"], "for every formula and every history of adding and forgetting assumptions between solves",
     "The assumption tests cover a few fixed scripts.",
     [S + "NapSAT-assumptions.cpp"], [("locked chunks", S + "NapSAT-assumptions.cpp")], ["add_assumption", "forget_assumption", "solve", "get_partial_assignment"])
prop("C15", "Reported unsat cores are unsatisfiable subsets",
     "The literals returned as an unsat core are a subset of the current assumptions whose conjunction with the clauses is unsatisfiable, and the clauses returned as a clause core are clauses given by the user that are unsatisfiable together with the assumptions.",
     ["histories", "inputs"], "for every UNSAT answer under assumptions",
     "The tests do not check cores against the formula.",
     [S + "NapSAT-assumptions.cpp", "src/proof/dependency_tracker.cpp"], [("core extraction", S + "NapSAT-assumptions.cpp unsat_core, clause_unsat_core")], ["unsat_core", "clause_unsat_core"])
prop("C16", "The command line sets exactly the options it names",
     "Parsing a list of options sets each named option (under its name or alias) to the value given, leaves all others at their default or at what the documented implications (subsumption, requirements) say, independently of order where no dependency exists; malformed or unknown arguments are reported and do not change other options.",
     ["inputs", "configurations"], "for every list of option tokens",
     "Tests never construct option lists beyond one strategy flag.",
     ["src/utils/options.cpp", S + "SAT-options.cpp", "include/SAT-options.hpp"], [("option table with requirements, subsumption and aliases", "src/utils/options.cpp")], ["the fields of napsat::options", "create_solver"])
prop("C17", "Bitset algebra agrees with sets of integers",
     "Every sequence of bitset operations (set, reset, union, intersection, difference, their compound forms, copy, move, resize, clear) yields exactly the set of integers the same operations yield on mathematical sets, whatever the sizes and word boundaries.",
     ["histories", "inputs"], "for every history of operations on related bitsets of different sizes",
     "The unit tests use few sizes; word boundaries, size mismatches and the two-level metadata interact.",
     ["src/utils/bitset.cpp", "src/utils/bitset.hpp"], [("two-level words and metadata", "src/utils/bitset.cpp")], ["bitset operators"])
prop("C18", "Bitset queries, order and iteration agree with the set they denote",
     "Membership, emptiness, count, intersection, (strict) inclusion in both directions, equality, forward and backward traversal and printing agree with the mathematical set for bitsets of any content and capacity.",
     ["inputs", "histories"], "for every pair of bitsets reachable by operations",
     "Unit tests pin few contents; the fast paths depend on metadata left by earlier operations.",
     ["src/utils/bitset.cpp", "src/utils/bitset.hpp"], [("subset and intersection fast paths", "src/utils/bitset.cpp"), ("iterators", "src/utils/bitset.hpp")], ["bitset queries and iterators"])
prop("C19", "The variable heap always yields the greatest activity",
     "After any sequence of insertions, removals, activity changes with the corresponding updates, and pops, the heap contains exactly the elements inserted and not removed, its top has maximal activity, and popping all elements yields them in non-increasing activity.",
     ["histories"], "for every history of heap operations",
     "No stable test covers the heap.", ["src/utils/heap.cpp", "src/utils/heap.hpp"], [("sift up and down with an index table", "src/utils/heap.cpp")], ["heap API"])
prop("C20", "The partition tree stays ordered, balanced and finds the right interval",
     "After any sequence of insertions and removals the tree holds exactly the keys inserted, in order, remains height-balanced, and answers membership and best-fit queries like a sorted list.",
     ["histories"], "for every history of insertions, removals and queries",
     "The unit tests use a few fixed insertion orders.", ["src/utils/partition.cpp", "src/utils/partition.hpp"], [("AVL rotations", "src/utils/partition.cpp")], ["partition/AVL API"])
prop("C21", "Restarts follow the documented Luby sequence at any length",
     "The restart counter fires after exactly the numbers of increments given by its sequence times its unit, at any point of an arbitrarily long run and after being reset.",
     ["histories"], "for every unit and number of increments",
     "The test checks a short prefix for one unit.", ["src/utils/luby-counter.hpp"], [("generator of the sequence", "src/utils/luby-counter.hpp")], ["luby counter API"])
prop("C22", "The dependency tracker returns exactly the inputs a clause rests on",
     "For any history of input clauses, tracked derivations, cancellations and deletions, the tracker reports for each derived clause input clauses that include all those its derivation used and none outside what was reachable.",
     ["histories"], "for every derivation graph and order of events",
     "Its test covers a single small graph.", ["src/proof/dependency_tracker.cpp"], [("reference-counted dependency sets", "src/proof/dependency_tracker.cpp")], ["dependency_tracker API"])
prop("C23", "Graph backtracking undoes a cheapest sufficient set of decisions",
     "When graph backtracking repairs a conflict and learns from it, without an approximation, lazy merging or the option to backtrack what was analysed, the literals it retracts have minimal total cost (user weight function included) among the sets of decisions whose removal repairs the falsified clauses, up to the level penalty and the limit on possibilities. In all cases what it retracts is exactly what depends, through reasons, on the removed decisions.",
     ["inputs", "histories", "configurations"], "for every conflict, weight function and trail",
     "No test looks at the set of literals undone.", [S + "NapSAT-conflict.cpp", S + "NapSAT-backtrack.cpp"], [("possibility enumeration and weighting", S + "NapSAT-conflict.cpp graph_repair")], ["assignment notifications", "synchronize", "set_weight_function"])
prop("C24", "A run depends only on its own inputs",
     "Two solvers given the same calls behave identically (same assignments, clauses and answers in the same order), whether they run alone, one after the other, interleaved in one process with other solvers, while another solver is called from the weight function, in separate threads, or with the observer attached to one of them.",
     ["histories", "schedules", "configurations"], "for every pair of histories and interleaving of their calls",
     "Each test uses one solver; static state and uninitialised reads only show with several.", [S + "NapSAT-conflict.cpp", S + "NapSAT.cpp", S + "NapSAT-utils.cpp"], [("per-instance state", S + "NapSAT.hpp")], ["the whole API", "notification stream"])
prop("C25", "The executable reports what the solver found",
     "For any readable formula and options the executable prints exactly one status line that matches the formula's satisfiability, exits with 0 whenever the solver ran and 1 when arguments or the file could not be parsed; all-models mode lists each model once and proof checking reports success.",
     ["inputs", "configurations"], "for every file, option list and mode",
     "No test runs the executable.", ["main.cpp"], [("argument handling and printing", "main.cpp")], ["standard output and exit code"])
prop("C26", "Printers describe the objects they print",
     "The text printed for the trail (in trail order or by level), the clause set, the watch lists, a variable or a clause lists exactly the literals it has, with their sign, value, level and reason, so that it can be read back into the same object; numbers, durations and padded columns are printed so that the value and the width can be read back.",
     ["inputs", "histories"], "for every literal, clause and state", "No test reads printed text back.",
     ["src/utils/printer.cpp", S + "NapSAT-utils.cpp", "include/SAT-types.hpp"], [("to_string functions", "src/utils/printer.cpp")], ["printed text"])
prop("C27", "The exported implication graph is the solver's implication graph",
     "An exported implication graph is a folder with exactly one file per assigned literal, and the vault configuration; each file lists exactly the literals that have this one in their reason, and describes its kind, reason and clauses as they are at the time of export, with links that lead to files of the export. Files of earlier exports are gone, a declined or failed export changes nothing, and exporting never changes the solver.",
     ["histories", "configurations"], "for every state exported", "No test exports.",
     ["src/exporter/implication_graph_exporter.cpp"], [("graph writer", "src/exporter/implication_graph_exporter.cpp")], ["files written by the exporter"])
prop("C28", "Literals encode variable and polarity losslessly",
     "Building a literal from a variable and a polarity and reading them back gives the same variable and polarity; negation flips only the polarity and is an involution; distinct pairs give distinct literals and ordering is consistent with equality, up to the largest variable.",
     ["inputs"], "for every variable in range and polarity", "Tests use small variables only.",
     ["include/SAT-types.hpp"], [("bit packing", "include/SAT-types.hpp")], ["Tlit and Tvar operators"])
prop("C29", "Variables exist exactly when created or used, and unused ones are free",
     "The number of variables is the largest of those requested, created and used; variables are numbered consecutively from 1; with the option to ignore unused variables, only variables occurring in clauses are decided and a SAT answer still satisfies every clause.",
     ["histories", "configurations"], "for every interleaving of variable creation, clause addition and solving", "No test mixes creation and use.",
     [S + "NapSAT.cpp", S + "NapSAT-utils.cpp"], [("variable allocation", S + "NapSAT-utils.cpp var_allocate")], ["new_variable", "variables_count", "get_partial_assignment"])
prop("C30", "Observation is complete and does not change the search",
     "Attaching the observer does not change any answer, assignment or learned clause; the events it receives are enough to reconstruct the trail (order, reasons, levels, and which literals are propagated or locked) and the clause set exactly between any two calls, and the counters in the statistics equal the numbers of the events.",
     ["histories", "configurations"], "for every history and strategy", "No test compares observed and unobserved runs.",
     [S + "Sentinel-wrapper.hpp", S + "NapSAT.cpp", "src/observer/SAT-stat.cpp"], [("notification macros", S + "Sentinel-wrapper.hpp")], ["notification stream", "print_statistics"])
prop("C31", "The invariants of the strategy hold at every check point",
     "At every point where the solver announces a consistent state: each stored clause is watched by exactly two of its literals; a propagated false watch has a true partner or blocker that is retracted no earlier than the watch itself (by level without backtracking out of order, by lazy level in lazy strong chronological, by chunks in graph backtracking); no clause is falsified or an unnoticed implication; reasons precede what they imply, whose level and chunks are those of the reason; without chronological backtracking levels grow along the trail. The observer is given the invariants listed in the strategy's configuration, and they accept and reject what their formulas say.",
     ["histories", "inputs", "configurations"], "at every announced check point of every execution", "The debug assertions are compiled out in normal builds and the observer's checker is separate.",
     [S + "NapSAT-checker.cpp", S + "NapSAT-propagation.cpp", S + "NapSAT-imply.cpp", S + "NapSAT-purge.cpp", "invariant-configurations"], [("watch replacement and blockers", S + "NapSAT-propagation.cpp")], ["watch notifications", "check_invariants notifications", "watch invariants and variable details given to the observer"])
prop("C32", "Decisions pick an unassigned variable and honour suggested polarity",
     "Every automatic decision assigns an unassigned variable, one with maximal activity among the unassigned ones, with the polarity the user suggested if any; a decision requested by the user assigns exactly that literal.",
     ["histories", "configurations"], "for every decision of every history", "Tests only see verdicts, which do not depend on the choice.",
     [S + "NapSAT.cpp", "src/utils/heap.cpp"], [("activity heap and phase", S + "NapSAT.cpp decide")], ["decide", "suggest_polarity", "assignment notifications"])
prop("C33", "Interactive commands do what they say and bad ones are refused",
     "In interactive mode a decision, hint, learned or deleted clause command has the same effect as the corresponding API call, and malformed, out-of-range or inapplicable commands are refused with a message and leave the state unchanged.",
     ["inputs", "histories"], "for every command text in every state", "No test feeds commands.",
     [S + "NapSAT-utils.cpp"], [("command parser", S + "NapSAT-utils.cpp parse_command")], ["command strings given by the observer"])

prop("C34", "Synchronizing covers exactly the literals that changed",
     "Between two synchronizations a variable counts as synchronized exactly while its value is the one it had at the last of them; a synchronization counts, and costs according to the weight function, exactly the assigned literals that are not; all literals below the validity limit are unchanged since, and after it every assigned literal is synchronized.",
     ["histories", "configurations"], "for every history of decisions, conflicts, clauses and synchronizations in every strategy",
     "No test synchronizes.",
     [S + "NapSAT.cpp", S + "NapSAT-backtrack.cpp"], [("validity limit", S + "NapSAT-backtrack.cpp"), ("synchronization", S + "NapSAT.cpp synchronize")], ["synchronize", "set_weight_function", "get_partial_assignment"])
NA = {
}
DEFAULT_NA = "no monitor is registered for it yet (work in progress)"

TECH = "runtime monitoring: the real code built with AddressSanitizer and UBSan (assertions on and off), driven by generated workloads; the verdict is given by "


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in CHECKS:
            c = CHECKS[i]
            checks.append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                           "evidence_file": "evidence/%s.json" % i, "technique": TECH + c["oracle"], "level": c["level"],
                           "level_note": c.get("note") or "held on the executions observed, counted in the evidence file; nothing is claimed of paths the workloads do not drive"})
        else:
            na.append({"property": i, "reason": NA.get(i, DEFAULT_NA)})
    m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the observer interface the code already has (Sentinel) is implemented by a stand-in in /verif/stub, since the SATSentinel submodule is empty here. See DESIGN.md."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "claimed", len(na), "not")


main()
