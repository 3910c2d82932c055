#!/usr/bin/env python3
"""Static check of one property: python3 check.py C10 [--all] [-v]

Reads the source of /repo/optimistix, builds its value-flow graphs and discharges the obligations of the
property.  Exit 0: held; exit 1: VIOLATION printed; anything else: the check itself failed.
"""
import json
import os
import re
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
ROOT = os.environ.get("VERIF_REPO", "/repo")


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        with open(p, encoding="utf-8") as fh:
            for line in fh:
                line = line.strip()
                m = re.match(r'known: property=(\S+) key="([^"]+)" (.*)', line)
                if m and m.group(1) == prop:
                    out.append({"key": m.group(2), "text": m.group(3)})
    return out


def main(argv):
    import importlib
    import pkgutil

    from flow import kit
    import flow.checks

    verbose = "-v" in argv
    prop = [a for a in argv if not a.startswith("-")][0]
    t0 = time.time()
    for m in sorted(x.name for x in pkgutil.iter_modules(flow.checks.__path__)):
        importlib.import_module("flow.checks." + m)
    ctx = kit.Ctx(ROOT)
    ctx.run_clauses(None if prop == "ALL" else prop)
    obs = [o for o in ctx.obs if prop == "ALL" or prop in o.props]
    bad = [o for o in obs if o.status == "bad"]
    ok = [o for o in obs if o.status == "ok"]
    und = [o for o in obs if o.status == "undecided"]
    miss = [o for o in obs if o.status == "missing"]
    if verbose or prop == "ALL":
        for o in obs:
            if verbose or o.status != "ok":
                print(f"{o.status:9s} {','.join(sorted(o.props))} {o.key} [{o.where}] {o.detail}")
        print(f"{len(ok)} ok, {len(bad)} bad, {len(und)} undecided, {len(miss)} missing; {time.time() - t0:.1f}s")
    if prop == "ALL":
        return 1 if bad else 0
    known = known_findings(prop)
    new = []
    for o in bad:
        k = next((k for k in known if k["key"] == o.key), None)
        if k is not None:
            print(f"KNOWN-FINDING: property={prop} {k['text']}")
        else:
            new.append(o)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    funcs = sorted({f"{a}:{c} {b}" for a, b, c in ctx.funcs if not a.startswith("verif:")})
    ev = {
        "property": prop,
        "tier": os.environ.get("VERIF_TIER", "quick"),
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "other",
        "coverage": {
            "explanation": "Static value-flow comparison. Each obligation builds the value-flow graph of the named "
                           "function from source (all branches, helpers followed), normalises it and compares it with "
                           "the required value or condition for that construct.",
            "functions_analysed": len(funcs),
            "call_sites": len(ctx.sites),
            "modules_parsed": len(ctx.I.modules),
            "obligations": len(obs),
            "discharged": len(ok),
            "undecided": len(und),
            "violated": len(bad),
            "functions": funcs,
            "obligation_list": [{"rule": o.key, "construct": o.where, "status": o.status, "detail": o.detail} for o in obs],
        },
        "violations": [{"rule": o.key, "construct": o.where, "detail": o.detail} for o in new],
        "wall_s": round(time.time() - t0, 3),
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w", encoding="utf-8") as fh:
        json.dump(ev, fh, indent=1)
    print(f"{prop}: analysed {len(funcs)} functions, {len(ctx.sites)} call sites; {len(ok)}/{len(obs)} obligations hold, "
          f"{len(und)} undecided, {len(bad)} violated")
    if new:
        path = os.path.join(HERE, "evidence", prop + ".violation.txt")
        with open(path, "w", encoding="utf-8") as fh:
            for o in new:
                fh.write(f"rule: {o.key}\nconstruct: {o.where}\n{o.detail}\n\n")
        for o in new:
            print(f"  {o.key} at {o.where}: {o.detail[:400]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if miss:
        print("error: public construct missing: " + "; ".join(o.detail for o in miss))
        return 2
    if not ok and not bad:
        print("error: nothing could be decided")
        return 2
    return 0


if __name__ == "__main__":
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    th = threading.Thread(target=lambda: rc.append(main(sys.argv[1:])))
    th.start()
    th.join()
    sys.exit(rc[0] if rc else 3)
