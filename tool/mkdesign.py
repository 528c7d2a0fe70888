#!/usr/bin/env python3
"""Rewrites the part of DESIGN.md below the marker from properties.jsonl, the evidence of the last run, MANIFEST.json,
known_findings.json and the notes below."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- generated by tool/mkdesign.py -->"
NOTES = {
 "C01": "The roots are the evolution entry points (training, mutation, evaluation, archive); effects are closed over the call graph. Bound: what a user's LearningEnvironment or instructions do is outside.",
 "C02": "Terms recorded in the sequential procedure are compared with those of the workers; addresses used as order are covered by C01.",
 "C03": "Thread bodies are found at every std::thread construction; accesses are resolved per context (what the object reaches). Lock identity is the mutex object's access path.",
 "C04": "One symbolic archive of arbitrary content; the invariants are assumed at entry and checked at exit of each operation (induction), so they hold for every history of operations.",
 "C05": "Write effects are computed once per LearningMode; the guards `mode == TRAINING` are path facts.",
 "C06": "Each edge is in a state (in graph / listed by source / listed by destination); the state is checked at each normal and exceptional exit, with any library call that may throw considered to throw.",
 "C07": "Acyclicity is proved structurally: only teams created by the mutation get outgoing edges, and only towards vertices recorded before. Termination of the loops is C34.",
 "C08": "The loop over outgoing edges carries a relational invariant (best bid so far).",
 "C09": "Covers the interpreter only; the arithmetic of the instructions is C35.",
 "C10": "Numeric bounds as linear terms over the environment's announced sizes.",
 "C11": "Backward liveness is checked as a transfer function: what is added to / removed from the set of needed registers per line.",
 "C12": "Freshness typestate of the program of the mutated edge.",
 "C13": "Typestate of each individual removed, per iteration of the removal loops.",
 "C14": "Floor of ratio*roots is compared as a normal form; ranks by value flow from the sorted results.",
 "C15": "Reset before each episode, in-loop guards before doAction; loop-count summaries for the number of evaluations.",
 "C16": "Rational-function normal form over scores and counts: algebraically equal formulas are equal, no solver.",
 "C17": "Every writer of the content fields must set the invalid flag before leaving.",
 "C18": "Access functions of all template instances made by tool/harness.cpp.",
 "C19": "Field-by-field completeness of copy operations; typestate of raw allocations on every path, exceptions included.",
 "C21": "String literals are matched with fields; the tables are derived from the structs themselves.",
 "C22": "Every creation of a C stream, every std stream of the library and every member that keeps one open.",
 "C24": "The instrumented overriders are compared with the plain ones as event sequences.",
 "C25": "new-expressions and make_* calls of element classes anywhere in the program.",
 "C26": "Loop summaries (filter/append/maximum) of the constructors and of the engine's.",
 "C27": "Per-generation event order on all paths of trainOneGeneration; write effects of all loggers.",
 "C28": "All instances of the instruction templates of tool/harness.cpp.",
 "C30": "Uniformity is C34. Each draw with a bound is matched to the collection it indexes.",
 "C31": "Relational facts on positions and limits per loop iteration.",
 "C32": "Each analysis function is summarised per path and per iteration (which counter, which key, how much).",
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
man = json.load(open(V + "/MANIFEST.json"))
kf = json.load(open(V + "/known_findings.json"))
tech = {c["property"] if "property" in c else c["id"]: c for c in man["checks"]}
na = {n.get("property", n.get("id")): n["reason"] for n in man.get("not_applicable", [])}
out = [MARK, "", "## Properties", ""]
for p in props:
    i = p["id"]
    out += ["### %s %s" % (i, p["title"]), ""]
    if i in na:
        out += ["Not applicable: " + na[i] + ".", ""]
        continue
    e = json.load(open(V + "/evidence/%s.json" % i))["coverage"]
    out += ["Method: " + tech[i]["technique"] + "."]
    if i in NOTES:
        out += [NOTES[i]]
    out += [""]
    for r in e["rules"] if isinstance(e["rules"], list) else e["rules_detail"]:
        out.append("* `%s` %s" % (r["rule"], r["text"]))
    out += ["", "%d obligations on the current tree, over %d functions analysed." % (e["obligations"], len(e["functions_analysed"])), ""]
out += ["## Seeded changes and the checks that catch them", ""]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    out.append("* `%s` (%s, caught by ./check %s unless said otherwise): %s Needs: %s" % (
        os.path.basename(os.path.dirname(d)), m["property"], m["property"], m["what_it_breaks"], m["needs"]))
out += ["", "## Defects of gegelati found by the checks", "", "Recorded, not repaired:", ""]
out += ["* %s %s: %s" % (f["property"], f["rule"], f["what"]) for f in kf["findings"]]
out += ["", "Repaired (one commit each):", ""]
out += ["* " + f for f in kf["fixed"]]
s = open(V + "/DESIGN.md").read().split(MARK)[0]
open(V + "/DESIGN.md", "w").write(s.rstrip() + "\n\n" + "\n".join(out) + "\n")
