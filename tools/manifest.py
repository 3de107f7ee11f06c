#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the table below (run by hand after changing it)."""
import json
EX = "exhaustive stateless exploration of the real code (bounded DFS over all choices) against a reference model"
T = {
 # id: (level, technique, note)
 "C02": ("model_checking", EX, "Every value of every single field, all pairs of operations and all orders up to the stated depth are enumerated on the real builder, Build, Export and Parse; oracle: an independent header/metrics model and an independent serializer. Trusts the model in mc/spec."),
 "C03": ("model_checking", EX, "All sequences of dye/palette additions up to the depth and sizes stated in the evidence, compared with a reference list after every step. Sizes between the listed ones are not enumerated for sequences, but all budgets 1..255 are."),
 "C01": ("model_checking", EX, "Built, validated, exported, parsed, re-exported and re-parsed fonts compared query by query with the reference model, over every combination of small feature counts plus all section boundary counts; the parsed bytes are also walked by an independent layout walker."),
 "C04": ("model_checking", EX, "Every bitmap of all small sizes and origins, all row run patterns at the encoder's distance boundaries, and sub-images; every pixel of the round trip is compared. Masks larger than the listed sizes are covered only by structured families."),
 "C05": ("model_checking", EX, "Every byte program up to the stated length over the full byte alphabet at the first positions and an operand alphabet afterwards, compared with an independent interpreter of the format specification. Programs whose coordinates leave the int range are excluded."),
 "C06": ("fault_enumeration", EX + " with enumerated faults", "Every cut point, every single byte overwrite with an alphabet of values, every two byte size field over its boundary values, trailing data and wrong signatures, for a family of base fonts; an independent layout walker decides when the sizes do not fit."),
 "C07": ("fault_enumeration", EX + " with enumerated faults", "All ways to deliver the stream in chunks around every boundary, all read failure points, all file system failure points and all failing write positions."),
 "C08": ("model_checking", EX, "All switch shapes, group shapes and setting assignments in the bounds, uncached and cached lookups, in built, parsed and hand laid out fonts; oracle: positional case numbering of the format specification."),
 "C09": ("model_checking", EX, "All histories of lookups, setting changes, drops and capacities up to the depth; every cached result is compared with the reference model and the uncached lookup."),
 "C10": ("model_checking", EX, "All histories of Set/Get/Cache/Get operations up to the depth over all condition and switch kinds; oracle: direct evaluation."),
 "C11": ("model_checking", EX, "All sets and assignment orders of names over a small alphabet chosen for shared prefixes, plus size classes at the binary search boundaries; every name over the alphabet is probed."),
 "C12": ("model_checking", EX, "All pair sets over a small glyph set with all boundary values, in both directions (vertical pairs in hand laid out fonts; edition data is C26); every pair is probed."),
 "C13": ("model_checking", EX, "All lists of settings and options over an alphabet with predefined, custom and shared words plus boundary counts; every key, option and word index is probed."),
 "C15": ("model_checking", EX, "Every expression tree within the stated grammar bounds is evaluated under every relevant assignment, directly and through a settings cache; oracle: an independent evaluator over the tree, not the bytes."),
 "C28": ("model_checking", EX, "Quick: all (month, day) pairs of 2^16 for every year class; thorough: every one of the 2^32 dates. Oracle: Go-independent calendar arithmetic."),
 "C29": ("model_checking", EX, "All strings up to the stated length over an alphabet that contains a member of every character class, plus all lengths 0..300 and every byte at every position, for every operation that takes a name."),
 "C23": ("model_checking", EX, "All rules up to the listed part lengths and all sets up to the listed numbers of ranges and list elements, through the builder and hand laid out, with every accessor and the equality of every pair of rules compared with an independent decoder."),
 "C24": ("model_checking", EX, "All edit histories up to the depth over a few glyphs, ranges and sets, compared with a reference set after every step and after building."),
 "C16": ("model_checking", EX, "Every family of rules in the bounds (shapes, elements, sets, numbers of rules) run over every input over its alphabet; oracle: independent longest match rewriting over decoded rules. Rule combinations whose result the documentation leaves open (a blocked first rule with another rule of the same length) are not compared."),
 "C17": ("model_checking", EX, "The same families as C16, on the rune tester (symbols on both sides of U+FFFF)."),
 "C18": ("model_checking", EX, "All histories of adding, removing, clearing and running rules up to the depth; every run is compared with the reference rewriter for the rules that remain. Full testers are edited at the listed positions only."),
 "C19": ("model_checking", EX, "All histories of begin, feed, break, finish and failing begin up to the depth, on the real tester; every part between flushes is compared with the reference rewriter, and every pending count with one of its steps."),
 "C20": ("fault_enumeration", EX + " with enumerated faults", "Every cut, every single byte substitution by every value and every appended byte over a family of base rules, in several tester histories; an independent decoder decides which rules are well formed. Whether invalid code points may be part of a rule is left open."),
 "C21": ("model_checking", EX, "All mixes of 2 or 3 rules and conditions from menus, all setting changes and all documented ways in which a change becomes visible; oracle: independent evaluation of the conditions and the reference rewriter over the satisfied rules."),
 "C25": ("model_checking", EX, "All histories of a menu of valid and invalid builder operations up to the depth; after every operation the built bytes and the accessors are compared with the model, after a rejected one with those before it; arguments are scribbled on after every call."),
 "C26": ("fault_enumeration", EX + " with enumerated faults", "Every cut, every byte substitution of the payload, every bit flip of the compressed stream, every read failure position and all small pair tables in several histories; an independent decoder decides what must be accepted. Left open: see the evidence file."),
 "C27": ("model_checking", "explicit-state enumeration of the reachable states of the real buffer (breadth first to a fixpoint) and exhaustive bounded DFS over operation histories, against a reference queue", "The reachable states of buffers of capacity up to 5 are enumerated to a fixpoint with every operation tried in each; longer capacities only from prepared states at the limits of the index type, and without merging states up to the depth in the evidence."),
 "C14": ("model_checking", "exhaustive stateless exploration of the real code, instrumented so that the iteration order of every map and the identifiers drawn are choices", "All iteration orders of collections of up to 4 elements (up to the number of maps at a time in the evidence), structured orders of larger ones, all orders of identifiers and additions; oracle: the bytes of a reference build in natural order. Nondeterminism from other sources (time, goroutines, addresses) is not controlled."),
 "C22": ("model_checking", "stateless exploration of thread interleavings of the real code under a controlled scheduler (all schedules up to a preemption bound), with happens-before race detection in every schedule", "The scheduler's handovers are invisible to the race detector, so every schedule is also checked for unordered accesses. Preemptions only at synchronization operations and function entries; 2 and 3 goroutines; scripts as listed in the harness. Blocking primitives other than mutexes and sync.Once are not controlled."),
 "C30": ("model_checking", "stateless exploration of thread interleavings of the real code under a controlled scheduler (all schedules up to a preemption bound), with happens-before race detection in every schedule", "All pairs of 15 groups of accessors with preemptions at function entries; the results are compared with those of each reader alone in a process of its own, and the font's bytes with those before. One font that fills all sections."),
}
NA = {}
ALL = ["C%02d" % i for i in range(1, 31)]
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "checks": [],
 "hooks": {"guard": "none", "enable": "No hooks are compiled into /repo: instrumented copies (C14, C22, C30: cmd/instrument) are generated at check time from /repo's working tree and put in with 'go build -overlay'.", "source_commits": []},
 "not_applicable": [],
 "notes": "run.sh <id> rebuilds the explorer against /repo's working tree. VERIF_REPO overrides /repo for experiments."
}
for i in ALL:
    if i in T:
        lv, te, no = T[i]
        m["checks"].append({"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough", "technique": te, "level": lv, "level_note": no, "evidence_file": f"evidence/{i}.json"})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction in this session; model checking applies and the check will be registered when it is finished")})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
