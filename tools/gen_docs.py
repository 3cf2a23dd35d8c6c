#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing; both are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe, level=level))
NA = {}  # property -> reason

TR = "Trusted: the reference evaluator in /verif/harness/src (std floating point with a running error bound), rustc and std. "

prop("P01", "Compiled and tree-walk evaluation give the mathematical value",
 "Compiling an expression and evaluating it, and evaluating the tree with every variable bound, both return the value the expression denotes at every point where it is defined and well conditioned, up to a small multiple of the rounding error a straightforward evaluation commits. Parameters are matched by name whatever their order, unused parameters are allowed, and repeated subexpressions, constants, polynomials and nested functions do not change the result.",
 ["inputs"], "all expressions over the built-in operators and functions, all finite points at which every subexpression is defined",
 "Tests compare a few dozen fixed expressions; the compiler rewrites instruction sequences (fusion, caching, constant pooling), so correctness depends on unbounded combinations of subexpressions.",
 ["src/evaluator/compiler.rs", "src/evaluator/mod.rs", "src/evaluator/execution.rs", "src/core/expr/evaluate.rs", "src/functions/definitions.rs"],
 [("bytecode compiler with common-subexpression cache and peephole fusion", "src/evaluator/compiler.rs"), ("scalar stack VM", "src/evaluator/execution.rs"), ("recursive tree evaluation", "src/core/expr/evaluate.rs")],
 "differential runtime monitor (error-bounded reference evaluator) on random and directed workloads",
 TR + "Elementary functions are judged against std, special functions against the tool's own single call (P19 judges those).")
prop("P02", "Batch, parallel and multi-expression evaluation equal pointwise evaluation",
 "Evaluating columns of points in one batch, in parallel chunks or for several expressions at once yields, for every point and in order, the value of the expression at that point, for every batch length and whether or not a scratch buffer is supplied. Requests whose columns do not match the parameters, differ in length, or whose output is too short are refused without writing any output.",
 ["inputs", "configurations"], "all expressions, batch lengths (0 to several thousand, around SIMD and chunk boundaries), buffer shapes, thread counts",
 "SIMD lanes, remainder handling and chunking are separate code from the scalar VM; tests sample few lengths and mostly single functions.",
 ["src/evaluator/simd.rs", "src/evaluator/mod.rs", "src/bindings/eval_f64.rs"],
 [("4-lane SIMD interpreter with scalar remainder loop", "src/evaluator/simd.rs"), ("256-point parallel chunks", "src/evaluator/mod.rs")],
 "differential runtime monitor (reference evaluator per position, sentinel-guarded outputs)",
 TR + "Positions near boundaries are always judged, the others are compared with the scalar VM and judged when they differ.")
prop("P03", "Evaluators never access memory outside their buffers",
 "No sequence of compile, scalar, batch or parallel evaluation calls through the safe interface reads or writes outside the evaluator's own stack, cache, constants, columns or output, whatever the shape of the expression, the number of points, the number of parameters passed or the size of a caller-provided buffer.",
 ["inputs", "configurations"], "expression shapes that maximise stack depth, cache slots and fusion; all buffer/batch shapes",
 "The VM uses unchecked indexing justified only by compile-time bookkeeping; an out-of-bounds access usually goes unnoticed without a sanitizer.",
 ["src/evaluator/execution.rs", "src/evaluator/simd.rs", "src/evaluator/stack.rs", "src/evaluator/compiler.rs"],
 [("stack machine with unchecked indexing and precomputed stack and cache sizes", "src/evaluator/stack.rs")],
 "AddressSanitizer build driven by hostile expression shapes, with exact-size heap buffers and debug assertions on",
 "Detects any access outside an allocation on the executed paths; accesses that stay inside a larger on-stack array are visible only through their effect on values. Trusted: LLVM ASan.")
exec(open(os.path.join(V, "tools", "props_more.py")).read())

CLAIMED = [l.split()[0] for l in open(os.path.join(V, "tools", "claimed.txt")) if l.strip() and not l.startswith("#")]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
        if p["observe"]: a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
        assert len(p["title"]) <= 80, p["id"]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none (the monitors use the public interface only)", "enable": "no hooks: checks build /repo unmodified as a path dependency", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in P:
    if p["id"] in CLAIMED:
        m["checks"].append({"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick", "thorough_cmd": f"bash check.sh {p['id']} thorough",
            "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": NA.get(p["id"], "monitor not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(m["checks"]), "claimed")
