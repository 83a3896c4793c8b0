#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
KIND = {
 "C01": ("bounded exhaustive exploration of operation sequences on the real number types (both build modes) against an exact wide-integer model", "every pair and chain inside the bounds gives the exact result in both arithmetic modes; larger operands than the boundary set are not enumerated"),
 "C02": ("bounded exhaustive exploration of boundary operand pairs on the real number types (both build modes) against an exact wide-integer model", "every out-of-range pair inside the bounds falls back to the approximation in both arithmetic modes"),
 "C03": ("explicit-state exploration of number histories on the real code with an exact reference state", "every history up to the depth over the alphabet reports flags and sign truthfully"),
 "C04": ("exhaustive enumeration of conversion inputs on the real code (all 8/16-bit values, boundary neighbourhoods above)", "every value in the enumerated domains converts faithfully"),
 "C05": ("explicit-state exploration of number histories with inexact and undefined operands against a reference state", "every pair and chain in the bounds follows the reference; floats are a representative finite set"),
 "C06": ("exhaustive enumeration of expression trees built through the real constructors, read back structurally", "every tree in the bounds keeps structure; deeper trees only as regular nestings"),
 "C07": ("exhaustive enumeration of expression trees, real simplifier against an independent exact/interval evaluator at every grid point", "value preservation on every tree in the bounds at every grid point; values off the grid are not compared"),
 "C08": ("exhaustive enumeration of expression trees, normal-form invariant and fixpoint monitored on the real simplifier", "the form invariants hold on every tree in the bounds"),
 "C09": ("exhaustive enumeration of expression trees, real derivative against dual-number evaluation at every grid point", "derivative values agree on every tree in the bounds at every grid point"),
 "C10": ("exhaustive enumeration of trees times differentiation sequences, real derivatives against truncated-series evaluation", "repeated derivatives agree on every tree and sequence in the bounds"),
 "C11": ("exhaustive enumeration of trees times substitutions, compared structurally with reference substitution", "exact structure on every tree in the bounds"),
 "C12": ("exhaustive enumeration of trees times points times orders, real expansion against truncated Taylor-series arithmetic", "coefficients agree on every case in the bounds"),
 "C13": ("exhaustive enumeration of expansions, text read back by an independent parser and compared term by term", "the text denotes the expansion on every case in the bounds"),
 "C14": ("exhaustive enumeration of expression trees, text read back by an independent parser and compared by value", "the text denotes the expression on every tree in the bounds"),
 "C15": ("exhaustive enumeration of trees times points times step counts, real limits against Laurent-series asymptotics", "every reported limit in the bounds is true, where the reference decides it"),
 "C16": ("exhaustive enumeration of limit-class combinations against all pairs of representative functions", "every table entry agrees with every pair of representatives; chains of three likewise"),
 "C17": ("exhaustive enumeration of trees times points times step counts with crash and hang detection on the real limit code", "every request in the bounds returns, and the easy ones succeed"),
 "C18": ("exhaustive enumeration of misused argument positions on the real code with crash detection", "every misuse in the bounds is refused without a crash"),
 "C19": ("exhaustive enumeration of operation histories, thread assignments and preemptive two-thread schedules (one or two preemptions, at every allocation and, for selected requests, before every machine instruction) of the real code under a controlled scheduler, each answer compared with a fresh process", "every history and schedule in the bounds gives history-independent results; weak-memory effects and more than two threads are not explored"),
 "C20": ("exhaustive enumeration of trees and numbers, all spellings of each request compared on the real code", "all spellings agree on every case in the bounds"),
 "C21": ("exhaustive enumeration of pairs of variable names times operations on the real code, each answer compared with the answer under other names", "every pair of names in the families and every tree in the bounds gives the same answers up to the names"),
 "C22": ("exhaustive enumeration of expression trees over extreme numbers times operations on the real code with crash and hang detection, and of shapes in growing sizes with allocation counting", "every computation in the bounds returns; work is judged by allocations and time on nestings and full trees of the stated sizes"),
 "C23": ("exhaustive enumeration of expression trees times points times operations on the real code, structural invariants (well-formedness, variables, exactness) monitored on every answer", "the invariants hold for every answer in the bounds"),
 "C24": ("exhaustive enumeration of trees times points times growing step allowances on the real limit code, each answer compared with the first one found", "a found limit stays the same under every larger allowance tried, for every tree in the bounds"),
 "C25": ("exhaustive enumeration of expression trees times points times operations on the real code, each repeated 70 times with the bytes in use counted by the allocator", "memory in use does not grow over the repetitions, for every request in the bounds"),
 "C26": ("exhaustive enumeration of trees times points times step counts on the real limit code, each request in up to eleven spellings with a known relation between the answers", "all spellings of every request in the bounds are found or refused together, with answers so related"),
}
BASE = " Bounds, counts and samples are in the evidence file. Trusts the reference model in harness/src/oracle, rustc and the enumeration engine."
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "hooks": {"guard": "--cfg symbolic_rust_verif",
           "enable": "RUSTFLAGS='--cfg symbolic_rust_verif'; the harness compiles /repo/src/main.rs and its modules into the explorer (env.sh)",
           "source_commits": ["d1f1855", "653b292"]},
 "checks": [{"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
             "evidence_file": f"evidence/{i}.json", "technique": KIND[i][0], "level": "model_checking",
             "level_note": KIND[i][1][0].upper() + KIND[i][1][1:] + "." + BASE} for i in ids],
 "not_applicable": [],
 "notes": "Each check rebuilds the explorer from /repo's working tree; known_findings.txt lists repaired and open findings.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
