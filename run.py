"""Entry point: python run.py <property id> [--tier quick|thorough] [--replay FILE]"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
import warnings

warnings.filterwarnings("ignore")

import torch

torch.set_num_threads(1)
import torch_struct  # the code under test, imported from the working tree

import harness

EVID = os.path.join(HERE, "evidence")


def load(pid):
    return importlib.import_module("props." + pid.lower()).PROP


def known_findings(pid):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]


def worker(pid, case, tier, conn, limit, fallback):
    prop = load(pid)
    try:
        if fallback:
            rec = harness.concrete_only(prop, case, fallback)
        else:
            rec = harness.run_case(prop, case, tier, limit * 0.75)
    except BaseException as ex:  # noqa
        import traceback

        rec = {"case": case, "status": "error", "notes": [repr(ex), traceback.format_exc()[-1500:]]}
    conn.send(json.dumps(rec, default=str))
    conn.close()
    os._exit(0)


def warm():
    "Load lazily imported parts of torch once, before the workers are forked."
    import numpy as np

    class M(torch.nn.Module):
        def forward(self, x):
            return torch.logsumexp(x, -1).exp().log_softmax(-1)[[0]]

    from symtorch.engine import Engine

    e = Engine()
    with e:
        x = e.symbolic(np.ones((2, 2)), "x").requires_grad_(True)
        torch.autograd.grad(M()(x).sum(), x)
        torch.distributions.Categorical(logits=torch.zeros(2)).sample((1,))


def run_all(pid, cases, tier, deadline, case_limit, jobs, stop_on_violation=True):
    ctx = mp.get_context("fork")
    pending = [(i, c, None) for i, c in enumerate(cases)]
    live = {}
    recs = [None] * len(cases)
    stop = False
    while pending or live:
        now = time.time()
        if now > deadline or stop:
            for i, _, _ in pending:
                recs[i] = {"case": cases[i], "status": "skipped", "notes": ["budget" if not stop else "stopped"]}
            pending = []
            if stop or now > deadline + 60:
                for i, (p, c, t, fb) in list(live.items()):
                    p.kill()
                    p.join()
                    recs[i] = {"case": cases[i], "status": "skipped", "notes": ["stopped"]}
                    del live[i]
                if not live:
                    break
        while pending and len(live) < jobs:
            i, case, fb = pending.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=worker, args=(pid, case, tier, b, case_limit, fb))
            p.start()
            b.close()
            live[i] = (p, a, time.time(), fb)
        progressed = False
        for i, (p, c, t, fb) in list(live.items()):
            dead = None
            if c.poll():
                try:
                    recs[i] = json.loads(c.recv())
                except EOFError:
                    dead = "worker died"
                p.join()
            elif not p.is_alive():
                dead = "worker died (code %s)" % p.exitcode
            elif time.time() - t > case_limit:
                p.kill()
                p.join()
                dead = "time limit %ds" % case_limit
            else:
                continue
            del live[i]
            progressed = True
            if dead is not None:
                if fb is None:
                    pending.insert(0, (i, cases[i], dead))
                else:
                    recs[i] = {"case": cases[i], "status": "inconclusive", "notes": [fb, dead]}
            if recs[i] is not None and recs[i]["status"] == "violation" and stop_on_violation:
                if not is_known(pid, recs[i]):
                    stop = True
        if not progressed:
            time.sleep(0.01)
    return recs


def is_known(pid, rec):
    for k in known_findings(pid):
        if all(rec["case"].get(a) == b for a, b in k["case"].items()) and k["match"] in rec.get("replay", ""):
            return k
    return None


def extent(cases):
    "Range of every numeric configuration parameter, values of the others."
    out = {}
    for c in cases:
        for k, v in c.items():
            out.setdefault(k, set()).add(json.dumps(v, sort_keys=True))
    return {k: sorted(v)[:24] for k, v in out.items()}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--case", type=int)
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--all", action="store_true", help="do not stop at the first violation")
    a = ap.parse_args()
    pid = a.property
    prop = load(pid)
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        why = harness.replay_concrete(prop, r["case"], harness.unjson(r["values"]))
        if why is None:
            print("replay: the real code behaves on this input")
            return 0
        print("replay: %s" % why)
        print("VIOLATION property=%s replay=%s" % (pid, a.replay))
        return 1
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = a.tier
    cases = prop.cases(tier)
    warm()
    if a.case is not None:
        cases = [cases[a.case]]
    budget = getattr(prop, "budget", 600) if tier == "quick" else getattr(prop, "thorough_budget", 5400)
    limit = getattr(prop, "case_limit", 180) if tier == "quick" else getattr(prop, "thorough_case_limit", 1500)
    recs = run_all(pid, cases, tier, t0 + budget, limit, a.jobs, not a.all)
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    viol, known = [], []
    for i, r in enumerate(recs):
        if r["status"] == "violation":
            k = is_known(pid, r)
            if k:
                known.append(k)
                continue
            path = os.path.join(EVID, "replays", "%s_%d.json" % (pid, i))
            with open(path, "w") as f:
                json.dump(
                    {"property": pid, "case": r["case"], "values": r["values"], "what": r["what"], "observed": r["replay"]},
                    f,
                )
            viol.append((path, r))
        if a.v and r["status"] != "held":
            print(i, r["status"], r["case"], r.get("what", ""), r.get("replay", ""), r["notes"], r.get("trace", "")[-900:])
        elif a.v:
            print(i, "held", "%.1fs" % r["wall"], r["case"])
    n = lambda s: sum(r["status"] == s for r in recs)
    tot = {k: sum(r.get(k, 0) for r in recs) for k in ("paths", "ops", "cells", "obligations", "validated")}
    # by_identity: obligations whose two sides were the same normalised term, so no query was needed
    q = {"unsat": 0, "sat": 0, "unknown": 0, "by_identity": 0}
    st = 0.0
    ops = {}
    for r in recs:
        if "solver" in r:
            for k in q:
                q[k] += r["solver"]["q"][k]
            st += r["solver"]["time"]
        for k, v in r.get("opnames", {}).items():
            ops[k] = ops.get(k, 0) + v
    cov = {
        "states": tot["paths"],
        "transitions": tot["ops"],
        "traces_validated_against_impl": tot["validated"],
        "samples": [{"case": r["case"], "status": r["status"]} for r in recs[:3]],
        "configurations": len(recs),
        "held": n("held"),
        "inconclusive": [
            {"case": r["case"], "notes": r["notes"][:2]} for r in recs if r["status"] in ("inconclusive", "error")
        ][:40],
        "inconclusive_count": n("inconclusive") + n("error"),
        "skipped_for_budget": n("skipped"),
        "path_limit_hit": sum(1 for r in recs if r.get("truncated")),
        "obligations": tot["obligations"],
        "queries": q,
        "solver_time_s": round(st, 2),
        "encoded_cells_validated": tot["cells"],
        "aten_ops_encoded": dict(sorted(ops.items())),
        "functions_encoded": sorted({f for r in recs for f in r.get("functions", [])}),
        "bounds": prop.bounds,
        "case_extent": extent(cases),
        "counterexamples": [
            {"replay": p, "what": r["what"], "observed": r["replay"], "case": r["case"]} for p, r in viol
        ],
    }
    ev = {
        "property": pid,
        "tier": "thorough" if tier == "thorough" else "quick",
        "seed": seed,
        "level": "model_checking",
        "coverage": cov,
        "wall_s": round(time.time() - t0, 2),
        "assumptions": prop.assumptions,
        "violations": len(viol),
    }
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in {json.dumps(k, sort_keys=True): k for k in known}.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for r in recs:
        if r["status"] in ("inconclusive", "error"):
            print("INCONCLUSIVE property=%s case=%s %s" % (pid, json.dumps(r["case"]), "; ".join(r["notes"])[:300]))
    print(
        "%s %s: %d configurations, %d held, %d inconclusive, %d skipped; %d paths, %d obligations, "
        "queries %s, solver %.1fs, wall %.1fs"
        % (pid, tier, len(recs), n("held"), cov["inconclusive_count"], n("skipped"), tot["paths"], tot["obligations"], q, st, time.time() - t0)
    )
    if viol:
        for p, r in viol:
            print("  %s | %s | %s" % (json.dumps(r["case"]), r["what"], r["replay"]))
            print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    if n("held") + len(known) == 0:
        print("no configuration could be decided")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
