#!/usr/bin/env python3
"""Decide one property of FESTIM from the source in /repo.

usage: check.py <property> [quick|thorough]

The source is parsed and analysed, never imported or run.  Exit 0: every obligation
holds (or could not be decided, which the evidence file says).  Exit 1: at least one
obligation is violated.  Exit 2: nothing at all could be decided.
"""
import itertools
import json
import os
import resource
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
EVID = os.environ.get("FSA_EVID") or os.path.join(HERE, "evidence")


def known(pid):
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    for line in open(p) if os.path.exists(p) else ():
        if line.startswith("known: property=%s " % pid):
            ob, _, what = line.split(" ", 2)[2].partition(" :: ")
            out[ob.strip()] = what.strip()
    return out


def instance(pid, parts, sizes):
    """statuses of the obligations of the given parts when every list has a fixed number of elements"""
    from fsa import oblig, props, subst
    from fsa.reg import REG
    subst.SIZES = sizes
    C = oblig.Check(pid)
    for k in parts:
        C.part = k
        fn = REG[pid][k]
        C.guarded(fn.__name__, lambda: fn(C))
    out = {}
    for r in C.results:
        out["%d:%s" % (r["part"], r["name"])] = r["status"]
    return dict(status=out, lists=sorted(subst.MET))


def confirm(pid, viol):
    """a difference between general forms counts when it remains in an instance of the same
    comparison with lists of 0, 1 or 2 elements, where no loop is left to summarise"""
    import subprocess
    from concurrent.futures import ThreadPoolExecutor
    if not viol or os.environ.get("FSA_GENERAL"):
        return
    parts = sorted({r["part"] for r in viol})
    t0 = time.time()

    def one(sizes):
        try:
            p = subprocess.run([sys.executable, os.path.abspath(__file__), "--instance", pid, json.dumps(parts), json.dumps(sizes)],
                               capture_output=True, text=True, timeout=max(20, 300 - (time.time() - t0)))
            return json.loads(p.stdout.strip().splitlines()[-1])
        except Exception:
            return None
    key = lambda r: "%d:%s" % (r["part"], r["name"])
    fails = lambda x, r: x is None or x["status"].get(key(r)) != "holds"
    res = [one({"*": 2})]
    if any(fails(res[0], r) for r in viol):
        return                          # the verdict stands
    lists = res[0]["lists"]
    sizes = [{"*": 1}, {"*": 0}]
    if 0 < len(lists) <= 3:
        for c in itertools.product((0, 1, 2), repeat=len(lists)):
            if len(set(c)) > 1:
                sizes.append(dict(zip(lists, c)))
    else:
        for x in lists[:12]:
            sizes += [{"*": 2, x: 1}, {"*": 2, x: 0}, {"*": 1, x: 2}]
    with ThreadPoolExecutor(8) as ex:
        res += list(ex.map(one, sizes))
    if any(fails(x, r) for x in res for r in viol):
        return
    for r in viol:
        r["status"] = "undecided"
        r["detail"] = ["the general forms differ, but not for lists of 0, 1 and 2 elements (%d instances)" % len(res)] + r["detail"]


def main(argv):
    if argv[1] == "--instance":
        print(json.dumps(instance(argv[2], json.loads(argv[3]), json.loads(argv[4]))))
        return 0
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    from fsa import oblig, harness, props
    from fsa.reg import REG
    if pid not in REG:
        print("unknown property", pid)
        return 2
    C = oblig.Check(pid, tier)
    for k, fn in enumerate(REG[pid]):
        C.part = k
        C.guarded(fn.__name__, lambda: fn(C))
    prog = harness.program()
    kn = known(pid)
    confirm(pid, [r for r in C.results if r["status"] == "violated" and r["name"] not in kn])
    viol, und, kf, ok = [], [], [], []
    for r in C.results:
        if r["status"] == "violated" and r["name"] in kn:
            kf.append(r)
        else:
            {"violated": viol, "undecided": und, "holds": ok}[r["status"]].append(r)
    if not ok and not viol and not kf:
        print("no obligation of %s could be decided" % pid)
        for r in und:
            print("  undecided:", r["name"], r["where"], *r["detail"][:2])
        return 2
    os.makedirs(EVID, exist_ok=True)
    rep = os.path.join(EVID, pid + ".violation.txt")
    if os.path.exists(rep):
        os.remove(rep)
    ev = dict(
        property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="other",
        coverage=dict(
            explanation="Gated value-flow analysis of the source: each obligation compares the value (form, law, list, condition) "
                        "the analysed functions compute, for all inputs, with a reference law in /verif/specs; nothing is executed.",
            obligations=len(C.results), discharged=len(ok), undecided=len(und), known_findings=len(kf),
            functions_analysed=sorted(C.analysed), files_parsed=len(prog.modules),
            decided=[dict(obligation=r["name"], status=r["status"], where=r["where"]) for r in C.results],
            undecided_detail=[dict(obligation=r["name"], why=r["detail"][:2]) for r in und],
            unmodelled_constructs=sorted(map(str, C.notes))[:40]),
        assumptions=ASSUME, wall_s=round(time.time() - t0, 2), violations=len(viol))
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d hold, %d undecided, %d known, %d violated; %d functions analysed in %.1f s" % (
        pid, len(C.results), len(ok), len(und), len(kf), len(viol), len(C.analysed), time.time() - t0))
    for r in kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[r["name"]]))
    if os.environ.get("FSA_VERBOSE"):
        for r in und:
            print("  undecided:", r["name"], r["where"], *r["detail"][:2])
    if viol:
        with open(rep, "w") as f:
            for r in viol:
                f.write("%s\n  rule: %s\n  construct: %s\n" % (r["where"], r["name"], r["construct"]))
                for d in r["detail"]:
                    f.write("  " + d + "\n")
        for r in viol:
            print("  %s: %s" % (r["where"], r["name"]))
            for d in r["detail"][:2]:
                print("     ", d[:600])
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    return 0


ASSUME = [
    "fenics, ufl, sympy and numpy operations behave as modelled (exact real arithmetic, linear forms, no overflow or rounding)",
    "arguments have the documented types; user callables are pure",
    "reference laws in /verif/specs are the intended ones",
]


def run():
    rc = [2]

    def body():
        try:
            rc[0] = main(sys.argv)
        except BaseException as e:
            traceback.print_exc()
            print("ERROR", type(e).__name__, e)
            rc[0] = 2
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    threading.stack_size(512 << 20)
    t = threading.Thread(target=body)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])


if __name__ == "__main__":
    run()
