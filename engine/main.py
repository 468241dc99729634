"""Runs the obligations of a property and writes its evidence.

    main.py C03 [--tier quick|thorough] [--only NAME] [--replay FILE] [--jobs N] [--list]
"""
import argparse
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time
import warnings
from concurrent.futures import ThreadPoolExecutor

warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)


VERBOSE = False


def known_findings():
    out = {}
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            if line.startswith("finding:"):
                d = dict(w.split("=", 1) for w in line.split()[1:3])
                out[(d["property"], d["id"])] = line.split(None, 3)[3].strip()
    return out


def do_replay(prop, path):
    from engine import harness

    with open(path) as f:
        r = json.load(f)
    mod = importlib.import_module("checks." + prop.lower())
    for ob in mod.obligations("thorough"):
        if ob.name == r["obligation"]:
            v = harness.replay(ob, r["inputs"])
            print("inputs:", json.dumps(r["inputs"]))
            print("VIOLATES" if v.bad else "holds", v.detail)
            return 1 if v.bad else 0
    print("no such obligation")
    return 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--only", action="append")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--limit", type=float, default=None)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    global VERBOSE
    VERBOSE = a.verbose
    prop, tier = a.prop, a.tier
    if a.replay:
        return do_replay(prop, a.replay)
    t0 = time.time()
    limit = a.limit or (780 if tier == "quick" else 6 * 3600)
    try:
        mod = importlib.import_module("checks." + prop.lower())
    except Exception as ex:
        # the package itself does not import
        print("INCONCLUSIVE: %s %s" % (type(ex).__name__, ex))
        raise
    obs = [o for o in mod.obligations(tier) if not a.only or any(x in o.name for x in a.only)]
    names = [o.name for o in obs]
    assert len(set(names)) == len(names), "duplicate names"
    if a.list:
        print("\n".join("%-40s %s" % (o.name, o.claim) for o in obs))
        return 0
    tmp = tempfile.mkdtemp(prefix="verif_")
    env = dict(os.environ)
    env["PYTHONPATH"] = HERE
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = "0"

    found = []

    def one(o):
        left = limit - (time.time() - t0)
        if tier == "quick" and found and time.time() - found[0] > 60:
            return dict(name=o.name, claim=o.claim, kind=o.kind, status="inconclusive", detail="not started: a violation has been found", wall=0)
        if left < 5:
            return dict(name=o.name, claim=o.claim, kind=o.kind, status="inconclusive", detail="the time of the check has run out", wall=0)
        hard = min(left, o.budget * (3 if tier == "thorough" else 1) * 2 + 120)
        out = os.path.join(tmp, "%d.json" % names.index(o.name))
        p = subprocess.Popen(
            [sys.executable, "-m", "engine.worker", prop, o.name, tier, str(a.seed), out],
            cwd=HERE,
            env=env,
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
        )
        try:
            txt, _ = p.communicate(timeout=hard)
            txt = txt.decode(errors="replace")
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return dict(name=o.name, claim=o.claim, kind=o.kind, status="inconclusive", detail="timeout", wall=hard)
        if not os.path.exists(out):
            return dict(name=o.name, claim=o.claim, kind=o.kind, status="error", detail=txt[-2000:], wall=0)
        with open(out) as f:
            r = json.load(f)
        os.unlink(out)
        r["log"] = txt[-1500:]
        if r["status"] == "violation":
            found.append(time.time())
        return r

    # the longest first: walls of earlier runs, a hint on the order only
    try:
        with open(os.path.join(HERE, "checks", "cost.json")) as f:
            cost = json.load(f).get(prop, {})
    except (OSError, ValueError):
        cost = {}
    order = sorted(obs, key=lambda o: -cost.get(o.name, o.budget / 10.0))
    with ThreadPoolExecutor(a.jobs) as ex:
        rs = list(ex.map(one, order))
    os.rmdir(tmp)
    byname = {r["name"]: r for r in rs}
    rs = [byname[n] for n in names]
    code = report(prop, tier, a.seed, mod, rs, time.time() - t0)
    return code


def report(prop, tier, seed, mod, rs, wall):
    kf = known_findings()
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    viol = 0
    tot = {}
    funcs = set()
    prims = {}
    how = {}
    shown = set()
    for r in rs:
        st = r["status"]
        for k, v in r.get("stats", {}).items():
            tot[k] = max(tot.get(k, 0), v) if k == "max_query" else tot.get(k, 0) + v
        funcs |= set(r.get("functions", []))
        for k, v in r.get("prims", {}).items():
            prims[k] = prims.get(k, 0) + v
        for k, v in r.get("how", {}).items():
            how[k] = how.get(k, 0) + v
        print(
            "%-12s %s.%s (%.1f s) %s"
            % (st.upper(), prop, r["name"], r.get("wall", 0), r.get("detail", "")[:300] if st != "proved" else "")
        )
        if r.get("log") and VERBOSE and st in ("error", "inconclusive", "reduced"):
            print(r["log"])
        if st == "known" and (prop, r["known"]) in kf:
            line = "KNOWN-FINDING: property=%s %s" % (prop, kf[(prop, r["known"])])
            if line not in shown:
                print(line)
            shown.add(line)
        elif st in ("violation", "known"):
            viol += 1
            path = os.path.join(ev, "replay_%s_%s.json" % (prop, "".join(c if c.isalnum() else "_" for c in r["name"])))
            with open(path, "w") as f:
                json.dump(
                    dict(
                        property=prop,
                        obligation=r["name"],
                        claim=r.get("claim"),
                        inputs=r.get("inputs"),
                        detail=r.get("detail"),
                        how_to_replay="./check %s --replay %s" % (prop, path),
                    ),
                    f,
                    indent=1,
                )
            print("VIOLATION property=%s replay=%s" % (prop, path))
    n = len(rs)
    disc = sum(r["status"] == "proved" for r in rs)
    count = lambda s: sum(r["status"] == s for r in rs)
    expl = (
        "%d obligations, %d discharged for every value of their inputs within the stated bounds (%d with some inputs "
        "pinned only, %d inconclusive, %d known findings, %d violations). The functions of /repo were executed "
        "symbolically from the jaxprs which JAX traces from the current source (%d equations interpreted); %d SMT "
        "queries (%d unsat, %d sat, %d unknown), %.1f s of solver time, %d output equalities already identical after "
        "the encoder's normal form, %d confirmed by polynomial expansion, %d case splits, %d merged subterms."
        % (
            n,
            disc,
            count("reduced"),
            count("inconclusive") + count("error"),
            count("known"),
            viol,
            sum(r.get("neqns", 0) for r in rs),
            tot.get("queries", 0),
            tot.get("unsat", 0),
            tot.get("sat", 0),
            tot.get("unknown", 0),
            tot.get("time", 0),
            tot.get("identical", 0),
            tot.get("expansions", 0),
            tot.get("splits", 0),
            tot.get("merged", 0),
        )
    )
    doc = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="other",
        coverage=dict(
            explanation=expl,
            obligations=n,
            discharged=disc,
            reduced=count("reduced"),
            inconclusive=count("inconclusive") + count("error"),
            outputs_compared=sum(r.get("outputs", 0) for r in rs),
            functions_encoded=sorted(funcs),
            primitives=dict(sorted(prims.items())),
            solver=tot,
            decided_by=how,
            vacuity_witnesses=sum(r.get("witnesses", 0) for r in rs),
            points_simulated=sum(r.get("simulated", 0) for r in rs),
            executions_of_the_real_code=sum(r.get("eager", 0) + r.get("replays", 0) for r in rs),
            samples=[
                {k: r.get(k) for k in ("name", "claim", "kind", "domain", "status", "detail", "wall", "terms", "outputs", "how", "functions")}
                for r in rs
            ],
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + BASE_ASSUMPTIONS,
        wall_s=round(wall, 2),
        violations=viol,
    )
    with open(os.path.join(ev, prop + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
    print(
        "%s %s: %d/%d discharged, %d reduced, %d inconclusive, %d violations, %d queries, solver %.1f s, wall %.1f s"
        % (prop, tier, disc, n, count("reduced"), count("inconclusive") + count("error"), viol, tot.get("queries", 0), tot.get("time", 0), wall)
    )
    return 1 if viol else 0


BASE_ASSUMPTIONS = [
    "Floating point numbers are read as real numbers: identities hold up to rounding, constants which differ by less than 1e-9 relative are one constant",
    "JAX traces the same operations that it executes eagerly (checked by executing the real code on a few points of each domain)",
    "Array sizes are those stated in each obligation",
    "Contracts instead of LAPACK (inverse, determinant, Cholesky, linear solve) and, where stated, instead of jax_cosmo.scipy.interpolate.interp, itself decided by C08",
]

if __name__ == "__main__":
    sys.exit(main())
