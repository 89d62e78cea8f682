"""What each check runs. See DESIGN.md for what each workload monitors."""

BOTH = ("dbg", "rel")


def util(workload, quick, thorough, variants=BOTH, **kw):
    return [dict(harness="util", workload=workload, variant=v, sources="util", cases=(quick, thorough), **kw) for v in variants]


def full(harness, workload, quick, thorough, variants=BOTH, **kw):
    q = quick if isinstance(quick, dict) else {v: quick for v in variants}
    t = thorough if isinstance(thorough, dict) else {v: thorough for v in variants}
    return [dict(harness=harness, workload=workload, variant=v, sources="all", cases=(q[v], t[v]), **kw) for v in variants]


def solver(workload, quick, thorough, variants=BOTH, **kw):
    return full("solver", workload, quick, thorough, variants, **kw)


CHECKS = {}
SMALL = "formulas of at most some hundreds of variables; the seeds fix the cases, so the coverage is the same on every run"


def check(prop, jobs, oracle, rule, evaluations, require=None, assumptions=(SMALL,), level="exploration"):
    CHECKS[prop] = {"level": level, "oracle": oracle, "rule": rule, "evaluations": list(evaluations), "require": require or {},
                    "assumptions": list(assumptions), "jobs": jobs}


# ------------------------------------------------------------------ utilities
BS = ("bitsets of up to some thousands of elements",)
check("C17", util("bitset_ops", 10000, 100000), "a std::set model run in lockstep with every bitset operation",
      "distinct contents of the four related bitsets of a history",
      ["ops"], {"ops": 20000, "combinations": 3000, "multi_word_histories": 300, "resizes": 300}, BS)
check("C18", util("bitset_query", 5000, 60000), "the same queries on a std::set model, and the printed text read back",
      "distinct contents of the four related bitsets of a history",
      ["relation_checks", "iterations"], {"relation_checks": 20000, "rel_equal": 500, "rel_subset": 500, "rel_other": 500, "long_prints": 3}, BS)
check("C19", util("heap", 15000, 200000), "a linear-scan model of the heap run in lockstep", "distinct (key, activity) contents of the heap reached",
      ["ops"], {"ops": 50000, "op_remove": 3000, "op_update": 3000, "op_pop": 3000, "drains": 3000}, ("heaps of at most some hundreds of elements",))
check("C20", util("avl", 6000, 40000), "a sorted-list model, and order/balance monitors walking the tree after each operation", "distinct tree shapes with their keys",
      ["ops"], {"ops": 20000, "removed": 3000, "fits": 10000, "shapes": 10000, "histories_over_8_nodes": 100}, ("trees of at most some hundreds of nodes",))
check("C21", util("luby", 1500, 4000), "the sequence recomputed from its definition", "distinct (round, number of increments) runs",
      ["increments"], {"increments": 100000, "restarts": 3000}, ("the sequence pinned by the repository's own test",))
check("C22", util("deps", 10000, 100000), "a model computing lower and upper bounds of each dependency set", "distinct dependency maps reached",
      ["ops"], {"ops": 20000, "finalized": 2000, "deleted": 500, "cancelled": 300}, ("derivations of at most some dozens of clauses",))
check("C28", util("types", 400, 10000), "arithmetic on (variable, polarity) pairs", "distinct pairs of literals",
      ["literals"], {"literals": 20000}, ("variables up to the documented range",))

# ------------------------------------------------------------------ the solver
check("C01", solver("models", 6000, 120000), "evaluating every clause the user gave under the reported assignment at each SAT answer",
      "distinct (formula, strategy) histories with at least one SAT answer checked",
      ["models_checked"], {"models_checked": 10000, "model_clauses_checked": 100000, "stepwise_ends": 300})
check("C02", solver("verdict", 12000, 120000) + solver("wide", 150, 8000) + solver("deep", {"dbg": 20, "rel": 120}, 4000), "an independent DPLL solver or the construction of the formula, and a step budget for progress",
      "distinct (formula, strategy) pairs solved",
      ["agreed_sat", "agreed_unsat"], {"agreed_sat": 2000, "agreed_unsat": 2000, "wide_formulas": 250, "deep_growth_gb": 20})
check("C03", solver("learned", 15000, 120000), "reverse unit propagation, backed by a semantic check, of each clause learned, stored, shrunk or deleted, from the clause events",
      "distinct decision/implication histories with at least one learned clause",
      ["learned", "shrunk", "deleted"], {"learned": 50000, "shrunk": 3000, "deleted": 10000})
check("C04", solver("trail", 24000, 200000), "an online model of the assignment kept from the events, reasons re-evaluated at quiescence, consequences by unit propagation",
      "distinct decision/implication histories",
      ["reason_checks", "consequences_checked"], {"reason_checks": 200000, "reason_edges": 50000, "root_literals_checked": 10000, "consequences_checked": 50000})
check("C05", solver("propagation", 40000, 300000), "scanning every clause of the user and of the solver at each quiescent point",
      "distinct histories of calls",
      ["quiescent_points"], {"quiescent_points": 100000, "clauses_scanned": 1000000})
check("C06", solver("incremental", 48000, 400000), "an independent DPLL solver on the clauses given so far, at each answer",
      "distinct histories with at least two answers",
      ["agreed_sat", "agreed_unsat"], {"agreed_sat": 10000, "agreed_unsat": 8000, "after_unsat": 2000})
check("C07", solver("allmodels", 24000, 200000), "the set of models counted by exhaustive search",
      "distinct (formula, strategy) pairs with at least two models",
      ["models"], {"models": 50000, "enumerations": 5000})
check("C08", solver("proof", 15000, 120000) + solver("proof_lcm", 300, 4000, ("rel",)), "an independent reader of the printed derivation that replays each resolution against the clauses the user gave",
      "distinct printed derivations audited",
      ["proof_resolutions", "proof_inputs"], {"proofs": 3000, "proof_resolutions": 50000})
check("C10", solver("limits", 5000, 60000), "an independent DPLL verdict for the resumed run, the number of interruptions and the fingerprint of the search against those of an unlimited run, and the monitors of C01 at the interruptions",
      "distinct histories interrupted at least once",
      ["interruptions", "exact_interruptions"], {"interruptions": 5000, "exact_limit_runs": 1000, "exact_interruptions": 5000})


def parse(workload, quick, thorough, variants=BOTH, **kw):
    return full("parse", workload, quick, thorough, variants, **kw)


check("C11", parse("layout", 4000, 150000), "comparing the clauses, aliases and variables that reached the solver with those the file was generated from, and counting its models",
      "distinct (text, container) pairs", ["files"], {"files": 5000, "clauses_compared": 10000, "models": 10000, "multi_stream_files": 300, "container:xz": 500, "container:bz2": 500},
      ("DIMACS files of at most some kilobytes; variables below 100000",))
check("C12", parse("corrupt", 400, 12000) + parse("malformed", 4000, 120000), "an independent reader of the text saying what must be refused, and the rule that a damaged container is refused or read in full",
      "distinct damaged files", ["corruptions"], {"corruptions": 10000, "refused": 5000, "accepted": 500, "tail_cuts": 2000}, ("files of at most some kilobytes; variables below 100000",), level="fault_enumeration")
check("C09", full("proofcheck", "checker", 4000, 150000, ("rel",)), "replaying each derivation from the definition of resolution, on the script it was recorded from",
      "distinct scripts of proof events", ["checked"], {"checked": 20000, "valid": 5000, "invalid": 10000, "printed": 2000},
      ("derivations over at most 6 variables and some hundreds of steps", "built without the internal assertions, which refuse to record an invalid derivation"), level="fault_enumeration")
check("C13", full("api", "api", 2500, 60000) + solver("wide", {"dbg": 80, "rel": 200}, 8000) + solver("deep", {"dbg": 20, "rel": 120}, 4000), "AddressSanitizer, UBSan and the container and internal assertions on every call, and the allocator's count of the bytes in use before and after",
      "distinct (history of calls, options) pairs", ["calls"], {"calls": 50000, "leak_checks": 4000, "call:parse_dimacs": 3000, "call:proof": 200, "call:block_model": 200, "deep_growth": 30})
check("C16", full("options", "options", 20000, 600000), "a model of the documented options, aliases, implications and defaults run on the same lists of arguments",
      "distinct lists of arguments", ["lists", "env_lists"],
      {"lists": 20000, "env_lists": 6000, "permuted": 5000, "conflicts": 5000, "duplicates": 3000, "malformed_values": 5000, "missing_values": 2000, "unknown": 2000, "observer_groups": 2000, "fatal_ranges": 500, "help_entries": 3000},
      ("lists of at most some dozens of arguments",))


def script(name, workload, quick, thorough, variant, **kw):
    return [dict(script=name, workload=workload, variant=variant, main=True, cases=(quick, thorough), **kw)]


check("C25", script("cli", "cli", 1500, 40000, "rel") + script("cli", "cli", 500, 10000, "dbg"), "a truth table of the formula, and the documented exit statuses and status lines",
      "distinct (formula, arguments) pairs run to the end", ["runs"],
      {"runs": 2000, "verdicts": 1000, "refused": 80, "all_models_runs": 200, "models_listed": 2000, "proofs": 100, "timeouts": 15, "reruns": 100},
      ("formulas of at most 12 variables, except for pigeonhole formulas with a timeout", "without the SATSentinel submodule, which is absent: the observer is a stand-in"))
check("C24", full("twins", "twins", {"rel": 900, "dbg": 200, "plain": 900}, {"rel": 30000, "dbg": 6000, "plain": 30000}, ("rel", "dbg", "plain")) + full("twins", "threads", 400, 8000, ("tsan",)),
      "the same history run alone, repeated, interleaved with other solvers, with another solver called from the weight function, and with others in other threads (under ThreadSanitizer): what is seen after each call is compared",
      "distinct (history, schedule) pairs", ["steps_compared"],
      {"steps_compared": 10000, "interleaved": 900, "nested": 200, "nested_calls": 3000, "threads": 600})
check("C30", full("twins", "observed", {"rel": 3000, "dbg": 900}, {"rel": 30000, "dbg": 6000}, ("rel", "dbg")),
      "the same history run without and with the observer and compared after each call; the trail, decisions, variables and clause set rebuilt from the events are compared with those the solver reports and prints, and the statistics with the numbers of the events",
      "distinct (history, strategy) pairs", ["observed_steps", "clauses_compared", "counters_compared"],
      {"observed_steps": 40000, "clause_sets_compared": 5000, "clauses_compared": 250000, "counters_compared": 15000})
check("C33", full("twins", "commands", {"rel": 2000, "dbg": 400}, {"rel": 60000, "dbg": 12000}),
      "a model of the documented commands: what each accepted command does to the solver, and that a refused one changes nothing",
      "distinct sequences of commands", ["states_compared"], {"states_compared": 50000, "commands": 60000, "refused": 20000, "deleted": 8000, "deletion_refused": 5000})
check("C26", full("twins", "printed", {"rel": 3000, "dbg": 600}, {"rel": 60000, "dbg": 12000}) + util("printers", 3000, 100000),
      "an independent reader of the printed text, compared with the state rebuilt from the events and read through the interface",
      "distinct histories printed", ["literals_read", "integers"], {"literals_read": 800000, "trails_read": 15000, "trails_by_level_read": 15000, "clause_sets_read": 15000, "watch_lists_read": 15000, "variables_read": 40000, "clauses_read": 40000, "reasons_read": 35000, "integers": 200000, "paddings": 500000})
check("C29", full("vars", "variables", {"rel": 30000, "dbg": 9000}, {"rel": 300000, "dbg": 60000}) + full("vars", "parsed", {"rel": 2000, "dbg": 500}, {"rel": 60000, "dbg": 12000}),
      "a count of the variables requested and used so far, compared after each call with the solver's count, the observer's and the models'",
      "distinct histories of calls", ["counts_checked"], {"counts_checked": 150000, "mixed_histories": 5000, "models_with_free_variables": 6000, "total_models": 10000, "parsed": 1200})
check("C32", full("vars", "decisions", {"rel": 10000, "dbg": 2500}, {"rel": 100000, "dbg": 20000}),
      "the assignment rebuilt from the events, and the activities the solver prints for each variable, read at each decision",
      "distinct decision/implication histories", ["automatic_decisions"], {"automatic_decisions": 80000, "strictly_ranked": 30000, "suggestions_followed": 3000, "user_decisions": 4000})
check("C27", full("export", "state", {"rel": 6000, "dbg": 1600}, {"rel": 60000, "dbg": 12000}) + full("export", "graph", {"rel": 4000, "dbg": 1000}, {"rel": 60000, "dbg": 12000}),
      "an independent reader of the files written, compared with the trail, the reasons notified and the graph given, and with the folder before the export",
      "distinct sequences of graphs exported", ["files_read", "graph_files"], {"files_read": 50000, "edges": 25000, "exports": 15000, "graph_edges": 80000, "graph_files": 50000, "links_followed": 600000, "templates_copied": 10000, "configurations_kept": 3000, "declined": 2000})
check("C31", full("watches", "invariants", {"dbg": 3000, "rel": 1500}, {"dbg": 60000, "rel": 15000}),
      "the watches, blockers, trail and clauses rebuilt from the events, with the levels and chunks the solver gives for each variable, judged by the documented formulas; and the solver's own invariants compared with these formulas on arbitrary literals",
      "distinct decision/implication histories", ["points", "watch_pairs"],
      {"points": 60000, "watch_pairs": 4000000, "compatible": 500000, "registered_evaluations": 8000000, "lazy_levels": 400, "formulas_false": 100000, "reason_literals": 700000, "chunks": 500000})
check("C23", full("repair", "cheapest", {"rel": 12000, "dbg": 4000}, {"rel": 300000, "dbg": 60000}),
      "the cost of every set of decisions that breaks all falsified clauses, by enumeration over the reasons notified, and the closure of the decisions retracted",
      "distinct decision/implication histories", ["judged", "exact"],
      {"judged": 5000, "choice_matters": 4000, "last_decision_kept": 1500, "several_conflicts": 3000, "several_decisions": 600, "exact": 30000, "rewrites": 1500})
check("C14", solver("deep", {"dbg": 20, "rel": 80}, 3000) + full("assume", "assume", {"rel": 10000, "dbg": 4000}, {"rel": 200000, "dbg": 60000}),
      "a reference decision procedure on the clauses with the assumptions held, asked at each answer, refusal, model and after each forgetting",
      "distinct decision/implication histories", ["held_checks", "solves"],
      {"held_checks": 250000, "accepted": 17000, "refused": 2000, "sat_under_assumptions": 13000, "unsat_under_assumptions": 6000, "forgotten": 8500, "forgotten_all": 5500, "assume-true-accepted": 1800, "assume-false-refused": 2000})
check("C15", full("assume", "cores", {"rel": 10000, "dbg": 4000}, {"rel": 200000, "dbg": 60000}),
      "a reference decision procedure on the literals and clauses of each core, with the clauses and assumptions that are not in it left out",
      "distinct decision/implication histories", ["cores", "clause_cores"],
      {"cores": 10000, "cores_needing_assumptions": 2700, "cores_smaller": 3800, "core_literals": 8000, "clause_cores": 9000, "clause_cores_smaller": 7500})
check("C34", full("sync", "sync", {"rel": 8000, "dbg": 2000}, {"rel": 200000, "dbg": 40000}),
      "the polarity each variable had at the last synchronization, kept from the trail at each call, compared with the flags, the limit and the statistics of the solver",
      "distinct decision/implication histories", ["synchronizations", "flags_exact"], {"synchronizations": 20000, "flags_exact": 350000, "with_changes": 7000, "below_limit": 350000})
