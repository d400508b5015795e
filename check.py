#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--jobs N] [-v]

Decides one property of /repo by static analysis (trace-partitioned abstract interpretation of the source, see DESIGN.md).
exit 0: every obligation discharged; exit 1: VIOLATION; exit 2: the analysis could not be carried out (vanished anchor, nothing decided)."""
import argparse
import json
import multiprocessing as mp
import os
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from absint import harness, rules1, rules2  # noqa: E402
from absint.rules_text import TEXT  # noqa: E402

RULES = dict(rules1.RULES1, **rules2.RULES2)
LIMIT = {"quick": 600, "thorough": 6000}         # seconds after which no scenario is explored further


def one(job):
    pid, idx, tier, end = job
    s = RULES[pid](tier)[idx]
    st = harness.Stats()
    r = {"name": s.name, "findings": [], "missing": None, "noanswer": False, "error": None}
    t0 = time.time()

    def go():
        try:
            left = max(2.0, end - time.time())
            r["findings"] = harness.explore(s.name, s.fn, st, s.env, s.K, s.max_traces, min(s.budget * (4 if tier == "thorough" else 1), left), s.history)
        except harness.NoAnswer:
            r["noanswer"] = True
        except harness.Missing as e:
            r["missing"] = str(e)
    try:
        harness.big_stack(go)
    except Exception as e:          # a defect of the analysis itself
        r["error"] = "%s: %s" % (type(e).__name__, e)
    r["stats"] = st
    r["wall"] = time.time() - t0
    return idx, r


def known_findings(pid):
    try:
        with open(os.path.join(HERE, "known_findings.json")) as f:
            return [x for x in json.load(f).get("findings", []) if x.get("property") == pid]
    except FileNotFoundError:
        return []


KEEP = []          # the pool is never finalised: its workers are ended outright


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid, tier = a.property, "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    scen = RULES[pid](tier)
    known = known_findings(pid)

    def listed_as(f):
        return next((x for x in known if x["rule"] == f.rule and x["where"] in f.loc), None)
    end = t0 + (LIMIT["thorough" if tier == "thorough" else "quick"])
    order = {"retry": 0, "query": 1, "hostile": 1, "reuse": 2, "refused": 2}          # the long ones first
    jobs = [(pid, i, tier, end) for i in sorted(range(len(scen)), key=lambda i: order.get(scen[i].history, 3))]
    res = {}
    stop = None
    if a.jobs > 1 and len(jobs) > 1:
        pool = mp.get_context("fork").Pool(min(a.jobs, len(jobs)), maxtasksperchild=8)
        KEEP.append(pool)
        it = pool.imap_unordered(one, jobs, 1)
        while len(res) < len(jobs):
            try:
                i, r = it.next(timeout=max(0.01, (end + 60 if stop is None else stop) - time.time()))
            except mp.TimeoutError:
                break
            res[i] = r
            if stop is None and any(listed_as(f) is None for f in r["findings"]):
                stop = time.time() + 15         # a violation is reported; the rest need not be waited for
        pool._worker_handler._state = "TERMINATE"   # workers may be stuck: end them without asking
        time.sleep(0.3)
        for p in list(pool._pool):
            p.kill()
    else:
        for j in jobs:
            res[j[1]] = one(j)[1]
    tot = harness.Stats()
    findings, missing, noanswer, errors = [], [], [], []
    per = []
    for i in range(len(scen)):
        if i not in res:
            tot.truncated.append(scen[i].name)
            continue
        r = res[i]
        st = r["stats"]
        for f in ("traces", "decided", "undecided", "cuts", "infeasible", "blocked", "obligations", "steps", "suppressed"):
            setattr(tot, f, getattr(tot, f) + getattr(st, f))
        tot.funcs |= st.funcs
        for k, v in st.why.items():
            tot.why[k] = tot.why.get(k, 0) + v
        tot.truncated += st.truncated
        tot.samples += st.samples[:2]
        per.append({"scenario": r["name"], "traces": st.traces, "decided": st.decided, "infeasible": st.infeasible, "undecided": st.undecided, "cut_at_unrolling_bound": st.cuts,
                    "obligations": st.obligations, "findings": len(r["findings"])})
        findings += r["findings"]
        if r["missing"]:
            missing.append("%s: %s" % (r["name"], r["missing"]))
        if r["noanswer"]:
            noanswer.append(r["name"])
        if r["error"]:
            errors.append("%s: %s" % (r["name"], r["error"]))
        if a.v:
            print("%-70s traces %d decided %d undecided %d cuts %d obligations %d findings %d %.1fs" % (
                r["name"], st.traces, st.decided, st.undecided, st.cuts, st.obligations, len(r["findings"]), r["wall"]))
    new, listed = [], {}
    for f in findings:
        k = listed_as(f)
        if k is None:
            new.append(f)
        else:
            listed[k["what"]] = k
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    funcs = sorted("%s:%s" % (os.path.relpath(str(m), harness.ROOT), n) for m, n in tot.funcs)
    tx = TEXT.get(pid, {})
    cov = {
        "explanation": tx.get("rule", "") + " Every function reachable from the entry points named in the scenarios is abstractly interpreted from /repo's current source "
                       "(syntax tree; nothing is imported or executed); each trace partition ends in the obligations counted here.",
        "rule": tx.get("rule", ""),
        "scenarios": len(scen),
        "trace_partitions": tot.traces,
        "partitions_decided": tot.decided,
        "partitions_infeasible": tot.infeasible,
        "partitions_undecided": tot.undecided,
        "partitions_cut_at_loop_bound": tot.cuts,
        "scenarios_stopped_by_limit": sorted(set(tot.truncated)),
        "scenarios_without_answer": noanswer,
        "obligations": tot.obligations,
        "discharged": tot.obligations - len(findings) - tot.suppressed,
        "obligations_suppressed_after_imprecision": tot.suppressed,
        "abstract_steps": tot.steps,
        "functions_analysed": len(funcs),
        "functions": funcs,
        "imprecision_notes": tot.why,
        "per_scenario": per,
        "samples": tot.samples[:8],
    }
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov,
                   "assumptions": tx.get("assume", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}, f, indent=1, sort_keys=True, default=str)
    print("%s [%s]: %d scenarios, %d trace partitions (%d decided, %d infeasible, %d undecided, %d cut), %d obligations, %d functions analysed, %.1f s" % (
        pid, tier, len(scen), tot.traces, tot.decided, tot.infeasible, tot.undecided, tot.cuts, tot.obligations, len(funcs), time.time() - t0))
    for k in listed.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if new:
        rp = os.path.join(ev, pid + ".replay.json")
        with open(rp, "w") as f:
            json.dump([{"property": pid, "scenario": x.scenario, "rule": x.rule, "message": x.msg, "location": x.loc, "decisions": [str(d) for d in x.decisions],
                        "effects": x.trace} for x in new], f, indent=1, default=str)
        for x in new[:10]:
            print("  %s at %s: %s [scenario: %s]" % (x.rule, x.loc, x.msg, x.scenario))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    for n in noanswer:
        print("UNDECIDED scenario: " + n)
    for k, v in sorted(tot.why.items(), key=lambda x: -x[1])[:6]:
        print("  note: %s (%d)" % (k, v))
    for m in errors:
        print("UNDECIDED (defect of the analysis) " + m)
    for m in missing:
        print("UNDECIDED anchor missing: " + m)
    if len(missing) + len(errors) + len(noanswer) >= len(scen):
        print("ANALYSIS-BROKEN no scenario could be analysed")
        return 2
    if not tot.decided or not tot.obligations:
        print("ANALYSIS-BROKEN nothing could be decided")
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
