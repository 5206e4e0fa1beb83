"""Runs families of histories through the library and judges the traces."""
import json, os, random, threading, time, zlib
from concurrent.futures import ThreadPoolExecutor
import vlib
from vlib import MachineryError, log

LEVEL = "model_checking"


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.quick = tier == "quick"
        self.rnd = random.Random(vlib.SEED)
        self.work = vlib.Work(pid)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.viol, self.known, self.detail = [], [], [], []
        self.assumptions = []
        self._driver = None
        self.driver_name = "driver"
        self._lock = threading.Lock()
        self.pending, self.pending_api, self.pending_model = [], [], []

    @property
    def driver(self):
        with self._lock:
            if self._driver is None:
                t = time.time()
                self._driver = vlib.build_harness(self.driver_name)
                log(f"[{self.pid}] harness built in {time.time()-t:.1f}s")
            return self._driver

    def count(self, r):
        self.states += r.distinct
        self.transitions += r.generated

    def pick(self, xs, n):
        if n is None or len(xs) <= n:
            return xs
        # every change and every fault first, the rest at random
        order = self.rnd.sample(range(len(xs)), len(xs))
        seen, first, rest = set(), [], []
        for i in order:
            new = [l for l in (xs[i].get("lab") or []) if l not in seen]
            (first if new else rest).append(i)
            seen.update(new)
        return [xs[i] for i in sorted((first + rest)[:n])]

    def violation(self, what, payload):
        d = os.path.join(vlib.VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{self.pid}-{len(self.viol)+1}.json")
        with open(p, "w") as f:
            json.dump({"property": self.pid, "what": what, **payload}, f, indent=1)
        self.viol.append((what, p))


# ---------------------------------------------------------- build histories

CONFIRM = {"order": 12, "contain": 12, "twice": 12, "minimal": 12, "term": 12}


def mutate_plans(ctx, scens, sched):
    """Adds schedule control to the runs of a scenario (seeded)."""
    out = []
    for s in scens:
        s = json.loads(json.dumps(s))
        if zlib.crc32(s["id"].encode()) % 4 == 0:
            s["links"] = True
        for st in s["steps"]:
            if st["op"] == "run":
                pl = st["plan"] = dict(st.get("plan") or {})
                if sched:
                    pl["cpus"] = ctx.rnd.choice([1, 2, 3, 4, 8])
                    pl["jit"] = ctx.rnd.choice([0, 0, 200, 600])
                    pl["hot"] = ctx.rnd.choice([0, 24])
                    pl["seed"] = ctx.rnd.randrange(1 << 30)
        out.append(s)
    return out


def judge(ctx, scens, batch=1600):
    """Replays scenarios in the real library, validates the recorded traces.
    A scenario carries its judge: which broken guarantees count."""
    nbad = {}
    for k in range(0, len(scens), batch):
        part = scens[k:k + batch]
        t0 = time.time()
        plain = [{x: y for x, y in s.items() if x not in ("wanted", "fam")} for s in part]
        traces = vlib.replay_build(ctx.work, ctx.driver, plain, tag=f"r{k}")
        t1 = time.time()
        v, r = vlib.validate(ctx.work, traces)
        log(f"[{ctx.pid}] {len(part)} histories: replayed in {t1-t0:.1f}s, validated in {time.time()-t1:.1f}s")
        ctx.count(r)
        ctx.traces += len(traces)
        for s, p, tr in zip(part, plain, traces):
            bad = [b for b in v[s["id"]]["bad"] if s["wanted"](b)]
            if not bad:
                continue
            nbad[s["fam"]] = nbad.get(s["fam"], 0) + 1
            if len(ctx.viol) >= 3:
                continue
            tags = {b[0] for b in bad}
            n = max([CONFIRM.get(t, 2) for t in tags])
            again = [dict(p, id=f"{s['id']} #{i}") for i in range(n)]
            tr2 = vlib.replay_build(ctx.work, ctx.driver, again, tag="again")
            v2, _ = vlib.validate(ctx.work, tr2, tag="again")
            rep = [x for a in again for x in v2[a["id"]]["bad"] if s["wanted"](x) and x[0] in tags]
            if not rep:
                log(f"[{ctx.pid}] not reproduced: {s['id']} {bad}")
                ctx.detail.append(f"not reproduced: {s['id']} {bad}")
                continue
            ctx.violation(f"{s['id']}: {bad}", {"kind": "build", "scenario": p, "bad": bad, "trace": tr})
        if len(ctx.viol) >= 3:
            break
    return nbad


def family(ctx, projects, shapes, wanted, quick=None, thorough=None, sched=False, sim=None):
    """Notes a family of histories; run_families carries them all out."""
    ctx.pending.append((projects, shapes, wanted, quick if ctx.quick else thorough, sched,
                        None if sim is None else sim[0] if ctx.quick else sim[1]))


def run_families(ctx):
    if not ctx.pending:
        return
    t = time.time()
    with ThreadPoolExecutor(5) as ex:
        drv = ex.submit(lambda: ctx.driver)
        mod = ex.submit(run_models, ctx)
        gens = list(ex.map(lambda f: vlib.generate(ctx.work, f[0], f[1], simulate=f[5]), ctx.pending))
        drv.result()
        mod.result()
    log(f"[{ctx.pid}] histories generated in {time.time()-t:.1f}s")
    todo, sizes = [], []
    for (projects, shapes, wanted, n, sched, _), (scens, r) in zip(ctx.pending, gens):
        ctx.count(r)
        fam = f"{projects}/{shapes}"
        if not scens:
            raise MachineryError(f"family {fam} is empty")
        part = mutate_plans(ctx, ctx.pick(scens, n), sched)
        sizes.append((fam, len(part), len(scens)))
        ctx.samples.append(ctx.rnd.choice(part)["id"][:400])
        for s in part:
            todo.append(dict(s, wanted=wanted, fam=fam, id=f"{shapes} {s['id']}"))
    nbad = judge(ctx, todo)
    for fam, n, total in sizes:
        ctx.detail.append(f"{fam}: {n} of {total} histories replayed, {nbad.get(fam, 0)} rejected")


# ------------------------------------------------- the algorithm, as a model

def model(ctx, project, faults, moves="Edits", runs=2, nmoves=1, nfaults=1, flaws="None", tier=None):
    """Model-checks BuildAlgo against the guarantees of BuildMon. With a flaw it must be noticed."""
    if tier and (tier == "quick") != ctx.quick:
        return
    ctx.pending_model.append(dict(Project=project, Moves=moves, MaxRuns=runs, MaxMoves=nmoves, MaxFaults=nfaults,
                                  Faults=faults, Flaws=flaws))


def run_model(ctx, k, consts):
    r = vlib.check_model(ctx.work, "BuildAlgo", consts, str(k))
    name = f"BuildAlgo({', '.join(f'{a}={b}' for a, b in consts.items())})"
    noticed = "Invariant Good is violated" in r.out
    if noticed != (consts["Flaws"] != "None") or (r.rc != 0 and not noticed):
        raise MachineryError(f"{name}: rc={r.rc}\n" + r.out[-3000:])
    return name, r, noticed


def run_models(ctx):
    with ThreadPoolExecutor(3 if ctx.quick else 6) as ex:
        for name, r, noticed in ex.map(lambda kc: run_model(ctx, *kc), enumerate(ctx.pending_model)):
            ctx.count(r)
            ctx.detail.append(f"{name}: {r.distinct} states, " + ("the flaw is noticed" if noticed else "no guarantee broken"))


# ------------------------------------------------------- interface scenarios

def api(ctx, module, consts, quick=None, thorough=None, sim=None, view=True, depth=30, tier=None):
    """Notes a set of interface scenarios; run_api carries them all out."""
    if tier and (tier == "quick") != ctx.quick:
        return
    ctx.pending_api.append((module, consts, quick if ctx.quick else thorough,
                            None if sim is None else sim[0] if ctx.quick else sim[1], view, depth))


def run_api(ctx, batch=6000):
    if not ctx.pending_api:
        return
    t = time.time()
    with ThreadPoolExecutor(6) as ex:
        drv = ex.submit(lambda: ctx.driver)
        gens = list(ex.map(lambda k: vlib.generate_api(ctx.work, k[1][0], k[1][1], simulate=k[1][3], view=k[1][4],
                                                       depth=k[1][5], tag=str(k[0])), enumerate(ctx.pending_api)))
        drv.result()
    log(f"[{ctx.pid}] scenarios generated in {time.time()-t:.1f}s")
    for (module, consts, n, sim, _, _), (scens, r) in zip(ctx.pending_api, gens):
        ctx.count(r)
        name = f"{module}({', '.join(f'{k}={v}' for k, v in consts.items())})"
        if not scens:
            raise MachineryError(f"{name} has no scenario")
        part = ctx.pick(scens, n)
        ctx.samples.append(json.dumps(ctx.rnd.choice(part)["steps"])[:400])
        nbad = 0
        t = time.time()
        for k in range(0, len(part), batch):
            if len(ctx.viol) >= 3:
                break
            some = part[k:k + batch]
            rs = vlib.replay_api(ctx.work, ctx.driver, some)
            ctx.traces += len(rs)
            for s, got in zip(some, rs):
                bad = vlib.api_bad(s, got)
                if not bad:
                    continue
                nbad += 1
                if len(ctx.viol) >= 3:
                    continue
                again = vlib.replay_api(ctx.work, ctx.driver, [s] * 8, tag="again")
                rep = [b for b in (vlib.api_bad(s, g) for g in again) if b]
                if not rep:
                    log(f"[{ctx.pid}] not reproduced: {s['id']} {bad}")
                    ctx.detail.append(f"not reproduced: {s['id']} {bad}")
                    continue
                ctx.violation(f"{s['id']}: {bad}", {"kind": "api", "scenario": s, "bad": bad, "got": got})
        log(f"[{ctx.pid}] {name}: {len(part)} of {len(scens)} scenarios replayed in {time.time()-t:.1f}s")
        ctx.detail.append(f"{name}: {len(part)} of {len(scens)} scenarios replayed, {nbad} rejected")


def tags(*names, kinds=None):
    def f(b):
        return b[0] in names and (kinds is None or b[1][0] in kinds)
    return f
