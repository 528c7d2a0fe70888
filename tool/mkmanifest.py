#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the rule modules present in gega/props"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C22": "typestate of every C stream and std stream over the paths of the functions that open, use or redirect them (opened, checked, flushed, closed), with the exits of each class joined into the entry state of its other methods",
    "C32": "Path-sensitive abstract interpretation of the analyses: per path and per loop iteration, what is added to which counter under which key; first-use conditions evaluated over the possible numbers of uses; loop ranges; containers touched against containers reset; divisors and totals of the averages.",
    "C28": "Path-sensitive abstract interpretation of every instruction (template instances included): operands read only after a passed check; announced types against read types, index by index; result dependence on each operand; comparison completeness of the type checks; set access and maximum.",
    "C01": "effect and taint analysis over the call graph of the evolution (clock, process-wide randomness, addresses, static generators), iteration-order analysis of address-ordered containers, seed provenance by symbolic term dataflow, and must-reset typestate of init",
    "C02": "path-sensitive symbolic term dataflow over the sequential and the parallel training procedures: typestate of the generator and archive in use per evaluated job, ownership of the keys under which results are stored, and order of the loops reading them back",
    "C30": "interprocedural dataflow on the AST: bounds of each random draw as linear terms, matched with the size of the collection its result indexes; path-sensitive non-emptiness facts; term normal form of the distribution",
    "C31": "path-sensitive interpretation of the making of the jobs, of the compilation of their results and of the turns of play: relational facts on positions, limits and iterators per loop iteration, plus typestate of the champions against the removal of vertices",
    "C14": "value-flow of ranks and limits with normal forms of the removal count; loop-counter deltas per iteration; path facts on the kind of each root removed",
    "C13": "per-iteration typestate of every individual removed from the graph; must-write rules on re-initialisation; path facts on the remembered best individual",
    "C03": "context-sensitive shared-memory effect analysis over the call graph of every thread body; lock-set and lock-order dataflow on accesses to what threads share; join typestate",
    "C08": "path-sensitive value-flow and typestate over the loops of graph execution; bid-order and visited-set rules",
    "C24": "path-sensitive event-sequence rules on the instrumented overriders; who-may-write effect analysis",
    "C25": "who-may-construct effect analysis over the call graph; path-sensitive value-flow of factory products, constructor arguments and moves",
    "C26": "path-sensitive value-flow with loop summaries: filter, running-maximum and append-sequence rules over the environment and the engines",
    "C27": "path-sensitive event-sequence rules with per-iteration loop summaries on the agents; context-sensitive write-effect analysis of every logger",
    "C05": "mode-sensitive write-effect analysis of every evaluation function; provenance of archives and results per evaluation mode",
    "C15": "typestate of the environment over the evaluation loops; value-flow of reset, action and score arguments; loop-count summaries",
    "C16": "symbolic dataflow with rational-function normal form of the combined scores and counts",
    "C06": "abstract heap typestate over the inlined CFG of every graph operation; who-may-write effect analysis",
}
NA = {
    "C20": "the exchanged format only exists as printf formats on one side and regular expressions and substring arithmetic on the other; deciding that one language is read back from the other needs a string semantics this analysis does not have (effects on the graph are covered by C06, files by C22)",
    "C23": "equality of the computation of the generated C text with that of the engine is a property of strings built at run time and of the user's print templates; no sound static rule in reach relates them to the engine (order and choice of operands on the engine's side are C09, C10, C28)",
    "C33": "learning quality quantifies over stochastic outcomes on arbitrary environments; no source-level argument bounds it",
    "C34": "termination of rejection loops and uniformity of draws are probabilistic statements over runtime values; the structural part (range and collection of each draw) is C30, acyclicity C07",
    "C35": "numerical results for all operand values are runtime quantities; the structural part (each operand used once, in order) is C28",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
DEF = "path-sensitive dataflow/typestate rules over clang CFGs of the whole program"
for i in ids:
    if os.path.exists(os.path.join(V, "gega/props/%s.py" % i.lower())):
        checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "./check " + i,
                       "technique": TECH.get(i, DEF), "level": "other",
                       "level_note": "Static verdict on every instance of the rules listed in the evidence file, on the current sources; "
                                     "necessary conditions of the property, not the whole behaviour. Idioms the analysis does not interpret are "
                                     "reported as undecided, never as violations. Trusts clang's front end and the library model in gega/flow.py."})
    else:
        na.append({"property": i, "reason": NA.get(i, "no sound static rule built for it (yet)")})
m = {"version": 1, "setup_cmd": "tool/build.sh && python3 -m gega.ir", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. known_findings.json lists recorded and repaired defects. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
