#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property by symbolic execution of /repo's code."""
import argparse, concurrent.futures as cf, glob, json, os, shutil, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import core
from lib.core import CheckError, log
from lib.props import PROPS, ASSUME_COMMON

KNOWN = os.path.join(core.VERIF, "known_findings.json")


def known(prop):
    """listed findings of this property: (harness, message)"""
    if not os.path.exists(KNOWN):
        return []
    return [k for k in json.load(open(KNOWN)).get("findings", []) if k["property"] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    a = ap.parse_args()
    if a.setup:
        crates = sorted({h.get("crate", "dex") for p in PROPS.values() for h in p["harnesses"]})
        with cf.ThreadPoolExecutor(8) as ex:
            fs = [ex.submit(core.build_engine)]
            for c in crates:
                fs += [ex.submit(core.build_bitcode, c), ex.submit(core.build_native, c, "release")]
            for f in fs:
                f.result()
        return 0
    prop, tier = a.property, a.tier
    t0 = time.time()
    P = PROPS[prop]
    hs = [h for h in P["harnesses"] if tier == "thorough" or h.get("tier", "quick") == "quick"]
    if a.only:
        hs = [h for h in hs if h["name"] in a.only.split(",")]
    crates = sorted({h.get("crate", "dex") for h in hs})
    out = os.path.join(core.VERIF, "out", "%s-%s" % (prop, tier))
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out, exist_ok=True)
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)

    nat = {}
    with cf.ThreadPoolExecutor(8) as ex:
        fe = ex.submit(core.build_engine)
        fb = {c: ex.submit(core.build_bitcode, c) for c in crates}
        fn = {c: ex.submit(core.build_native, c, "release") for c in crates}
        sx = fe.result()
        bc = {c: f.result() for c, f in fb.items()}
        nat = {c: f.result() for c, f in fn.items()}
    t_build = time.time() - t0
    budget = float(os.environ.get("SX_BUDGET", 700 if tier == "quick" else 7200))

    def one(h, jobs):
        n = h["name"]
        left = max(30, int(budget - (time.time() - t0)))
        return h, core.run_sx(sx, bc[h.get("crate", "dex")], n, h.get("opts", []) + (h.get("topts", []) if tier == "thorough" else []),
                              os.path.join(out, n + ".json"), jobs, min(left, h.get("time", 10 ** 6)))

    # heavy harnesses get all cores one after another, the light ones run side by side
    heavy = [h for h in hs if h.get("weight", 1) >= 5]
    light = [h for h in hs if h.get("weight", 1) < 5]

    def runs():
        if light:
            with cf.ThreadPoolExecutor(4) as ex:
                for f in cf.as_completed([ex.submit(one, h, max(2, core.NCPU // 4)) for h in light]):
                    yield f
        for h in sorted(heavy, key=lambda h: h["weight"]):
            f = cf.Future()
            try:
                f.set_result(one(h, core.NCPU))
            except CheckError as e:
                f.set_exception(e)
            yield f

    results, errors, viols = [], [], []
    kf = known(prop)

    def confirmed(h, r):
        """the counterexample replayed through the native build of the real code"""
        msg = r["violation"]["msg"]
        kind, d = core.replay(nat[h.get("crate", "dex")], h["name"], r["violation"]["draws"])
        return (kind == "violation" or (kind in ("panic", "crash") and (msg.startswith("unexpected panic") or msg.startswith("memory safety"))) or (kind == "timeout" and msg.startswith("does not end"))), kind, d

    def listed(h, r):
        return [x for x in kf if x["harness"] == h["name"] and x["message"] == r["violation"]["msg"]]

    for f in runs():
        try:
            h, r = f.result()
        except CheckError as e:
            errors.append(str(e))
            continue
        results.append((h, r))
        log("%-34s %-8s paths=%-7d aborted=%-6d queries=%-6d wall=%.1fs" % (h["name"], r["verdict"], r["paths"], r["aborted"], r["queries"], r["wall_s"]))
        if r["verdict"] == "VIOLATED":
            viols.append((h, r))
            if tier == "quick" and confirmed(h, r)[0] and not listed(h, r):
                break  # one confirmed counterexample decides; the rest is skipped
        elif r["verdict"] == "ERROR":
            errors.append("%s: %s" % (h["name"], "; ".join(r["errors"])))
        else:
            for w, ok in r["witnesses"].items():
                if not ok:
                    errors.append("%s: reachability witness not satisfiable: %s" % (h["name"], w))
            if not r["witnesses"]:
                errors.append("%s: no reachability witness" % h["name"])

    # sampled paths through the real code: same outcome and same observed values as the encoding
    validated = 0
    for h, r in results:
        if r["verdict"] != "HOLDS":
            continue
        b = nat[h.get("crate", "dex")]
        for s in r["samples"]:
            kind, d = core.replay(b, h["name"], s["draws"])
            want = ("panic", None) if s["observed"] == "PANIC" else ("ok", s["observed"])
            if kind == want[0] and (want[1] is None or d == want[1]):
                validated += 1
            else:
                errors.append("%s: sampled path disagrees with the native run (%s %s, expected %s)" % (h["name"], kind, d[-300:], want))

    nviol, lines = 0, []
    for h, r in viols:
        msg, draws = r["violation"]["msg"], r["violation"]["draws"]
        c = h.get("crate", "dex")
        repro, kind, d = confirmed(h, r)
        rp = os.path.join(out, h["name"] + ".replay")
        with open(rp, "w") as f:
            f.write("# property %s, harness %s\n# %s\n# native release run: %s %s\n" % (prop, h["name"], msg, kind, d.replace("\n", " ")))
            try:
                dev = core.replay(core.build_native(c, "dev"), h["name"], draws)
                f.write("# native dev run: %s %s\n" % (dev[0], dev[1].replace("\n", " ")))
            except CheckError as e:
                f.write("# native dev build failed\n")
            f.write("# rerun: %s %s <this file>\n" % (nat[c], h["name"]))
            f.write("\n".join(draws.split()) + "\n")
        if not repro:
            errors.append("%s: counterexample does not reproduce natively: %s (%s %s), see %s" % (h["name"], msg, kind, d[-300:], rp))
            continue
        k = listed(h, r)
        if k:
            lines.append("KNOWN-FINDING: property=%s %s" % (prop, k[0]["what"]))
        else:
            nviol += 1
            log("violated: %s: %s (%s)" % (h["name"], msg, d.strip()[-300:]))
            lines.append("VIOLATION property=%s replay=%s" % (prop, rp))

    fs = sorted({f for _, r in results for f in r["functions"]})
    mine = [f for f in fs if any(x in f for x in ("serum", "pool", "assert_owner"))]
    tot = lambda k: sum(r.get(k, 0) for _, r in results)
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking",
              coverage=dict(
                  states=tot("paths") + tot("aborted") + tot("pruned"), transitions=tot("branches"),
                  traces_validated_against_impl=validated,
                  samples=[dict(harness=h["name"], **s) for h, r in results for s in r["samples"][:2]],
                  explanation="Symbolic execution of the LLVM bitcode rustc emits for the harness linked with /repo's current "
                              "sources; every branch and every assertion is decided by SMT over all values of the symbolic inputs.",
                  state_rule="states = symbolic execution paths (each an input class described by a path condition); transitions = "
                             "symbolic branch decisions; samples = solver models of paths replayed through the native build",
                  harnesses=[dict(name=h["name"], verdict=r["verdict"], bounds=h.get("bounds", ""), paths=r["paths"],
                                  paths_ending_in_abort=r["aborted"], pruned_by_assumptions=r["pruned"], ir_steps=r["steps"],
                                  assertions=r["props_checked"], assertions_trivial=r["props_trivial"], queries=r["queries"],
                                  sat=r["sat"], unsat=r["unsat"], unknown=r["unknown"], query_cache_hits=r["cache_hits"],
                                  model_hits=r["model_hits"], fallback_queries=r["fallback"], crosschecked=r["crosschecked"],
                                  solver_s=round(r["solver_us"] / 1e6, 3), max_query_s=round(r["max_query_us"] / 1e6, 3),
                                  wall_s=r["wall_s"], properties=r["properties"], witnesses=r["witnesses"], panics=r["panics"])
                             for h, r in sorted(results, key=lambda x: x[0]["name"])],
                  queries_discharged=tot("queries"), solver_s=round(tot("solver_us") / 1e6, 3),
                  ir_instructions_executed=tot("steps"), assertions_checked=tot("props_checked"),
                  functions_encoded=mine, functions_encoded_total=len(fs), bounds=P["bounds"], outside=P.get("outside", ""),
                  build_s=round(t_build, 1), errors=errors),
              assumptions=ASSUME_COMMON + P.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=nviol)
    json.dump(ev, open(os.path.join(core.VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for l in lines:
        print(l)
    if nviol:
        return 1
    if errors:
        for e in errors:
            log("ERROR", e)
        return 2
    print("HELD property=%s harnesses=%d paths=%d queries=%d validated=%d wall=%.1fs" % (prop, len(results), tot("paths"), tot("queries"), validated, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        log("ERROR", e)
        sys.exit(2)
