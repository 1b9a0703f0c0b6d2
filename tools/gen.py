#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and lib/props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from lib.props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
checks, na = [], []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
            technique="SMT-based symbolic execution of the rustc LLVM bitcode of the real code (own executor, z3/cvc5), counterexamples replayed natively",
            level="model_checking",
            level_note="Bounded: " + p["bounds"] + ". Trusts rustc, the executor and its simplifier (differentially self-tested, sampled paths replayed natively), z3/cvc5, and the models of SPL-token transfer, clock, rent and program-derived addresses."))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE[i]))
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
    hooks=dict(guard="cfg serum_verify", enable="RUSTFLAGS contains --cfg serum_verify when lib/core.py builds the crank harness", source_commits=["8ce2f9aaa8b288105068e0dca7afe5a12cd8a07c"]),
    notes="The checks compile /repo's crates through path dependencies, together with the harness crates. The only hook is dex/crank's verify_hooks module, which re-exports private functions; dex, pool, dex/permissioned and common need none."),
    open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
