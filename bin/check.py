#!/usr/bin/env python3
"""check.py <property> <quick|thorough>        decide one property
   check.py --replay <file>                    re-run a recorded violation"""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
import props
from engine import Ctx, LEVEL, run_api, run_families
from vlib import MachineryError, log

# ------------------------------------------------------------ known findings

def known_findings(pid):
    out = []
    try:
        for l in open(os.path.join(vlib.VERIF, "known-findings.jsonl")):
            l = l.strip()
            if l.startswith("{"):
                k = json.loads(l)
                if k.get("property") == pid:
                    out.append(k)
    except OSError:
        pass
    return out


def write_evidence(ctx, nviol):
    os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": vlib.SEED, "level": LEVEL,
          "coverage": {"states": ctx.states, "transitions": ctx.transitions,
                       "traces_validated_against_impl": ctx.traces,
                       "samples": ctx.samples[:8] or ["none"], "parts": ctx.detail},
          "assumptions": ctx.assumptions or props.ASSUME,
          "wall_s": round(time.time() - ctx.t0, 1), "violations": nviol}
    with open(os.path.join(vlib.VERIF, "evidence", ctx.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    pid, tier = sys.argv[1], sys.argv[2]
    ctx = Ctx(pid, tier)
    try:
        props.CHECKS[pid](ctx)
        run_families(ctx)
        run_api(ctx)
        # what the known findings explain is not reported again
        kf, rest = known_findings(pid), []
        for what, p in ctx.viol:
            hit = [k for k in kf if k.get("match") and k["match"] in what]
            if hit:
                ctx.known.append(hit[0])
            else:
                rest.append((what, p))
        for k in kf:
            if k in ctx.known or k.get("always"):
                print(f"KNOWN-FINDING: property={pid} {k['what']}")
        write_evidence(ctx, len(rest))
        for what, p in rest:
            print(f"{pid}: {what}"[:600])
            print(f"VIOLATION property={pid} replay={p}")
        if not rest:
            print(f"{pid}: held on {ctx.traces} executions of the implementation, {ctx.states} states "
                  f"({time.time()-ctx.t0:.0f}s)")
        return 1 if rest else 0
    finally:
        ctx.work.close()


def replay(path):
    d = json.load(open(path))
    ctx = Ctx(d["property"], "quick")
    if d.get("scenario", {}).get("kind") == "exe":
        ctx.driver_name = "driver_exe"
    try:
        if d.get("kind") == "build":
            tr = vlib.replay_build(ctx.work, ctx.driver, [d["scenario"]])
            v, _ = vlib.validate(ctx.work, tr)
            for e in tr[0]["events"]:
                print(json.dumps({k: x for k, x in e.items() if k not in ("desc", "files")})[:300])
            print("BAD", v[tr[0]["id"]]["bad"])
            return 1 if v[tr[0]["id"]]["bad"] else 0
        got = vlib.replay_api(ctx.work, ctx.driver, [d["scenario"]])[0]
        bad = vlib.api_bad(d["scenario"], got)
        for st in d["scenario"]["steps"]:
            print(json.dumps(st)[:300])
        print("GOT", json.dumps(got)[:2000])
        print("BAD", bad)
        return 1 if bad else 0
    finally:
        ctx.work.close()


if __name__ == "__main__":
    try:
        sys.exit(main())
    except MachineryError as e:
        log("ERROR", e)
        sys.exit(3)
    except Exception:
        traceback.print_exc()
        sys.exit(3)
