#!/usr/bin/env python3
"""Write MANIFEST.json from the table below and the properties file."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
def c(p, technique, note):
    T[p] = (technique, note)

ref = "property-based testing against an independent reference parser/evaluator"
c("C01", "property-based testing and bounded-exhaustive input generation for totality (two builds, small stacks, memory limit)",
  "random, exhaustive-short, very deep and very wide texts; every panic, abort, stack overflow, runaway or hang is a failure; bounded by 300 000 levels/operands and 1 MB texts")
c("C02", ref + ", plus exhaustive short token sequences and key/value tables",
  "acceptance compared with a separately written recursive-descent parser on formulas, near misses, arbitrary text, every token sequence up to length 6 (7) and every reserved key with a table of values")
c("C03", ref + " and folded results of constructed formulas",
  "bool evaluation compared under all assignments (up to 2^10) or sampled ones; chains and lists up to 300 000 and all two-level shapes")
c("C04", ref + " (strong Kleene) and monotonicity relations",
  "Option<bool> evaluation compared with the min/max model and refined assignments; generated formulas and assignments only")
c("C05", "property-based testing of evaluation in generated logics (free terms, bit vectors, counting and recording logics) against a fold of the written formula",
  "several Logic implementations per formula, operations recorded; generated formulas only")
c("C06", ref + ": multiset of predicates and callback order",
  "listing compared with the reference classification; keys and values verbatim over arbitrary characters")
c("C07", "metamorphic property-based testing: two layouts of one token sequence",
  "same verdict, predicates and results for pairs of layouts; generated pairs only")
c("C08", "property-based testing with single-fault injection at a known place, the fault being the oracle",
  "one fault of a known kind and place put into a well-formed text; reason and span compared")
c("C09", "property-based testing of error invariants over rejected texts, including exhaustive short strings",
  "span, carried text and rendering of every error checked against the stated form; the wording of reasons is not fixed")
c("C10", "property-based testing against an independent reference tokeniser, plus exhaustive short strings",
  "token sequence, spans and first fault compared; generated texts and all strings up to 5 (6) symbols")
c("C21", "round-trip and differential property-based testing on texts and expression pairs",
  "original text, reparse, clone and equality compared with text identity")
c("C22", "stateful, concurrent and cross-process property-based testing against a history-free model",
  "operation sequences over confusable texts, also on several threads and in fresh processes; schedules are the operating system's, not enumerated")
c("C11", "property-based testing of predicate matching against a model of the statement, plus enumeration of every builtin target with every known value",
  "random descriptions and values; the builtin table with the whole vocabulary is covered completely")
c("C12", "property-based testing of lookup against a linear scan, plus enumeration of every near neighbour of every triple",
  "random and edited strings; ordering checked for every neighbouring pair of the table")
c("C13", "differential testing: every entry and every known predicate value against the recorded and the installed compiler's reports, and generated formulas",
  "1.86.0 itself is not installed: its reports are a recording made from the installed compiler, corrected where the two releases differ")
c("C14", "differential property-based testing: triple matcher against table, every builtin triple with every known value, and generated formulas",
  "complete over triples and vocabulary for single predicates, sampled for formulas; one listed finding")
c("C15", "property-based testing of the triple matcher over generated triples against a model of the statement",
  "random combinations of known and unknown components, not all of them")
c("C16", "model-based property-based testing of the set types over insertion orders, iterators and ownership",
  "generated element lists up to a few dozen")
c("C17", "exhaustive enumeration of short numeric texts and property-based testing of edited ones against the canonical forms",
  "all digit strings up to a length, all representable numbers, random others")
c("C18", "property-based testing of the name types (equality, order, hash, text) and enumeration of rebuilt builtin targets",
  "generated pairs of texts; two hashers")
c("C19", "differential property-based testing against the installed rustc expanding generated cfg attributes",
  "batches of generated expressions, targets and option sets; restricted to targets for which that release reports what 1.86.0 did")
c("C20", "differential property-based testing against Cargo's own reader and evaluator (cargo-platform), plus exhaustive short token sequences",
  "generated formulas, near misses and texts in the dialect Cargo reads")
c("C23", "property-based testing of the update tool with a generated stand-in compiler: report, regenerate, compile, read back, compare; idempotence",
  "generated target lists of some hundred entries; values are identifier-like")
c("C24", "fault injection into generated update runs, with before/after comparison of both files, and generated READMEs",
  "one fault per run at any of the compiler queries or of the formatter; faults of the file system are not injected")
c("C25", "property-based testing of resource use: a generated text and one 64 times as large, processor time of the thread and allocated bytes compared",
  "growth by more than 16 times the growth of the text (and 100 ms) is a failure; smaller factors, and texts beyond a megabyte, are not judged")
c("C26", "property-based testing of equality, order and hash over pairs and collections which differ in single parts, against a comparison of the parts",
  "generated descriptions, predicates, tokens and errors; pairs and collections of up to eight")

props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py build", "checks": [], "not_applicable": []}
for p in props:
    if p in T:
        m["checks"].append({"property": p, "quick_cmd": f"python3 check.py {p}",
                            "thorough_cmd": f"python3 check.py {p} thorough", "technique": T[p][0] + ("" if p in ("C19", "C23", "C24", "C25") else "; then coverage-guided search over the same generators and oracles"),
                            "level": "exploration", "level_note": T[p][1]})
    else:
        m["not_applicable"].append({"property": p, "reason": "its check is being built"})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
