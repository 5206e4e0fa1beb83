"""Shared machinery: building the harness from /repo, running TLC, evidence."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
WORK = os.path.join(VERIF, ".work")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
NPROC = os.cpu_count() or 4
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    """The check could not be carried out (never reported as a violation)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# --------------------------------------------------------------------- build

PCH_H = """#include <taskflow/taskflow.hpp>
#include <taskflow/algorithm/for_each.hpp>
#include <nlohmann/json.hpp>
#include <fmt/format.h>
#include <fmt/ranges.h>
#include <fmt/args.h>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <queue>
#include <mutex>
#include <unordered_map>
#include <unordered_set>
"""


def _sources():
    pats = ["buildcc/**/src/**/*.cpp"]
    out = []
    for p in pats:
        out += glob.glob(os.path.join(REPO, p), recursive=True)
    return sorted(s for s in out if "/mock/" not in s and "/test/" not in s)


def _includes():
    inc = [os.path.join(REPO, "buildcc")]
    inc += glob.glob(os.path.join(REPO, "buildcc/**/include"), recursive=True)
    return [i for i in sorted(inc) if "/mock" not in i and "/test" not in i]


def _write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def _ninja(d, cxx, use_pch, san=""):
    defs = "-DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -pthread"
    base = f"-std=c++17 -O0 -g0 -w {san} {defs}"
    inc = " ".join("-I" + i for i in _includes()) + f" -I{HARNESS}/shim -I{HARNESS}"
    L = []
    if use_pch:
        L.append(f"rule pch\n  command = {cxx} {base} -x c++-header $in -fpch-instantiate-templates -o $out\n")
        L.append("build pch.h.pch: pch pch.h\n")
        use = "-include-pch pch.h.pch"
        dep = " | pch.h.pch"
    else:
        use = "-include taskflow/algorithm/for_each.hpp"
        dep = ""
    L.append(f"rule cc\n  command = {cxx} {base} {use} {inc} -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n")
    L.append(f"rule link\n  command = {cxx} {san} -pthread $in -o $out -lspdlog -lfmt -ldl -rdynamic\n")
    objs = []
    srcs = _sources() + sorted(glob.glob(os.path.join(HARNESS, "*.cpp")))
    for s in srcs:
        o = "o/" + hashlib.sha1(s.encode()).hexdigest()[:8] + "_" + os.path.basename(s) + ".o"
        objs.append(o)
        L.append(f"build {o}: cc {s}{dep}\n")
    L.append("build driver: link " + " ".join(objs) + "\n")
    # the program itself, for the properties that need it
    exe = sorted(glob.glob(os.path.join(REPO, "buildexe/**/*.cpp"), recursive=True)) + \
        sorted(glob.glob(os.path.join(REPO, "bootstrap/src/**/*.cpp"), recursive=True))
    exe = [s for s in exe if s != os.path.join(REPO, "buildexe/buildexe.cpp") and "/test/" not in s and "/mock/" not in s]
    exe += sorted(glob.glob(os.path.join(HARNESS, "exe", "*.cpp")))
    more = f"-I{REPO}/buildexe/include -I{REPO}/bootstrap/include -I{REPO}/buildexe"
    L.append(f"rule ccx\n  command = {cxx} {base} {use} {inc} {more} -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n")
    xobjs = []
    for s in exe:
        o = "x/" + hashlib.sha1(s.encode()).hexdigest()[:8] + "_" + os.path.basename(s) + ".o"
        xobjs.append(o)
        L.append(f"build {o}: ccx {s}{dep}\n")
    L.append("build driver_exe: link " + " ".join(objs + xobjs) + "\n")
    L.append("default driver\n")
    os.makedirs(d, exist_ok=True)
    _write_if_changed(os.path.join(d, "pch.h"), PCH_H)
    _write_if_changed(os.path.join(d, "build.ninja"), "".join(L))


def build_harness(name="driver"):
    """Builds the driver from the current working tree of /repo."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        errs = ""
        for sub, cxx, pch in (("clang", "clang++", True), ("gcc", "g++", False)):
            if shutil.which(cxx) is None:
                continue
            d = os.path.join(BUILD, sub)
            _ninja(d, cxx, pch)
            p = subprocess.run(["ninja", "-C", d, name], capture_output=True, text=True)
            if p.returncode == 0:
                return os.path.join(d, name)
            errs += p.stdout[-4000:] + p.stderr[-2000:]
        raise MachineryError("harness does not build:\n" + errs)


# ----------------------------------------------------------------------- work

def _scratch_root():
    try:
        st = os.statvfs("/dev/shm")
        if os.access("/dev/shm", os.W_OK) and st.f_bavail * st.f_frsize > 1 << 30:
            return "/dev/shm"
    except OSError:
        pass
    return "/tmp"


class Work:
    def __init__(self, tag):
        os.makedirs(WORK, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=tag + "-", dir=WORK)
        # the workspaces live in memory/tmp: many small files
        self.scratch = tempfile.mkdtemp(prefix="vp-" + tag + "-", dir=_scratch_root())

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        shutil.rmtree(self.scratch, ignore_errors=True)


def replay_build(work, driver, scenarios, tag="b", jobs=None, timeout=600):
    """Runs build scenarios through the real library; returns traces in order."""
    jobs = jobs or NPROC
    jobs = max(1, min(jobs, len(scenarios)))
    chunks = [scenarios[i::jobs] for i in range(jobs)]

    def one(i):
        f = work.path(f"{tag}{i}.in.json")
        o = work.path(f"{tag}{i}.out.json")
        with open(f, "w") as fh:
            json.dump(chunks[i], fh)
        sd = os.path.join(work.scratch, f"{tag}{i}")
        os.makedirs(sd, exist_ok=True)
        p = subprocess.run([driver, "build", f, o, sd], capture_output=True, text=True, timeout=timeout)
        shutil.rmtree(sd, ignore_errors=True)
        if p.returncode != 0:
            raise MachineryError(f"driver failed rc={p.returncode}: {p.stderr[-2000:]}")
        return [json.loads(l) for l in open(o)]

    with ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(one, range(jobs)))
    out = [None] * len(scenarios)
    for i in range(jobs):
        for k, tr in enumerate(res[i]):
            out[i + k * jobs] = tr
    return out


# ---------------------------------------------------------------- normalising

def norm_event(e):
    e = dict(e)
    if e["e"] == "start":
        e.setdefault("incl", [])
        e.setdefault("outs", [])
        e.setdefault("blob", "")
        e.setdefault("old", "-")
        e.setdefault("wd", "")
        e.setdefault("cap", "")
    return e


def norm_trace(t):
    return {"id": t["id"], "events": [norm_event(e) for e in t["events"]]}


# ------------------------------------------------------------------------ TLC

class TlcResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0

    def lines(self, tag):
        """Payloads of `PrintT("TAG json")` lines."""
        res = []
        for line in self.out.splitlines():
            s = line.strip()
            if s.startswith('"' + tag + " ") and s.endswith('"'):
                body = s[len(tag) + 2:-1]
                body = json.loads('"' + body + '"')
                res.append(json.loads(body))
        return res


def tlc(work, module, cfg=None, env=None, args=(), workers=None, heap="4g", timeout=840, ok=(0,)):
    cfg = cfg or module + ".cfg"
    meta = tempfile.mkdtemp(prefix="tlc-", dir=work.scratch)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss16m", "-XX:TieredStopAtLevel=4",
           "-cp", TLA_CP, "tlc2.TLC", "-workers", str(workers or NPROC), "-metadir", meta,
           "-nowarning", "-noGenerateSpecTE", "-config", cfg if os.path.isabs(cfg) else os.path.join(SPEC, cfg)]
    cmd += list(args) + [os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=meta)
    except subprocess.TimeoutExpired:
        raise MachineryError(f"TLC timed out on {module}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = TlcResult(p.returncode, p.stdout + p.stderr, time.time() - t0)
    if ok is not None and p.returncode not in ok:
        raise MachineryError(f"TLC failed on {module} rc={p.returncode}:\n" + r.out[-6000:])
    return r


def validate(work, traces, module="BuildTrace", tag="v", heap="3g"):
    """Checks recorded traces against the monitor; {trace id: set of (tag, what)}.
    One single-threaded TLC per part: values are shared between TLC's workers without locks."""
    n = max(1, min(NPROC, (len(traces) + 11) // 12))
    parts = [traces[i::n] for i in range(n)]

    def one(i):
        f = work.path(f"{tag}{i}.traces.json")
        with open(f, "w") as fh:
            json.dump([norm_trace(t) for t in parts[i]], fh)
        r = tlc(work, module, env={"TRACES": f}, heap=heap, workers=1)
        v = {x["id"]: x for x in r.lines("VERDICT")}
        for t in parts[i]:
            if t["id"] not in v or v[t["id"]]["n"] != len(t["events"]):
                raise MachineryError(f"trace {t['id']} was not consumed by {module}:\n" + r.out[-3000:])
        os.unlink(f)
        return v, r

    with ThreadPoolExecutor(n) as ex:
        res = list(ex.map(one, range(n)))
    v = {}
    for x, _ in res:
        v.update(x)
    tot = TlcResult(0, "", max(r.wall for _, r in res))
    tot.generated = sum(r.generated for _, r in res)
    tot.distinct = sum(r.distinct for _, r in res)
    return v, tot


# ------------------------------------------------------------ generated inputs

PROJECTS = {
    "AllProjects": "mixed tiny gcc rich conly", "MoreProjects": "net paths twotc tmpl",
    "FamProjects": "msvc mingw gengcc genmsvc genmingw clang", "MixedGcc": "mixed gcc", "NetTmpl": "net tmpl",
    "TinyOnly": "tiny", "MixedOnly": "mixed", "NetOnly": "net", "PathsOnly": "paths", "TmplOnly": "tmpl",
    "WideOnly": "wide", "SwitchedOnly": "switched", "TwoTcOnly": "twotc", "RichOnly": "rich", "GensOnly": "gens", "Tested": "tested",
}


def generate(work, projects, shapes, simulate=None, depth=40, seed=None, module="Families", extra=None):
    """Histories of BuildGen: exhaustive, or `simulate` random ones. One TLC per project."""
    names = PROJECTS.get(projects, projects).split()

    def one(n):
        cfg = work.path(f"gen-{n}-{shapes}-{simulate}.cfg")
        consts = {"Shapes": shapes, "FailModes": "FModes", "CrashModes": "CModes", "CorruptModes": "XModes"}
        consts.update(extra or {})
        with open(cfg, "w") as f:
            f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Printed\nCONSTANTS\n  Emit = TRUE\n"
                    f'  Projects = {{"{n}"}}\n')
            for k, v in consts.items():
                f.write(f"  {k} <- {v}\n")
        args = []
        if simulate:
            args = ["-simulate", f"num={max(1, simulate // len(names))}", "-depth", str(depth),
                    "-seed", str(SEED if seed is None else seed)]
        return tlc(work, module, cfg=cfg, args=args, workers=1)

    with ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(one, names))
    seen, out = set(), []
    for r in res:
        for s in r.lines("SCEN"):
            key = " | ".join(s["lab"])
            if key in seen:
                continue
            seen.add(key)
            s["id"] = key
            out.append(s)
    out.sort(key=lambda s: s["id"])
    tot = TlcResult(0, "", max(r.wall for r in res))
    tot.generated = sum(r.generated for r in res)
    tot.distinct = sum(r.distinct for r in res)
    return out, tot


# --------------------------------------------------------- interface scenarios

def check_model(work, module, consts, tag=""):
    cfg = work.path(f"model-{module}-{tag}.cfg")
    with open(cfg, "w") as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK TRUE\nINVARIANT Good\nCONSTANTS\n")
        for k, v in consts.items():
            f.write(f"  {k} = {v}\n" if isinstance(v, int) else f"  {k} <- {v}\n")
    return tlc(work, module, cfg=cfg, workers=1, heap="6g", timeout=3000, ok=None)


def generate_api(work, module, consts, simulate=None, depth=30, view=True, tag=""):
    """Scenarios of an interface specification: exhaustive, or random ones."""
    cfg = work.path(f"api-{module}-{tag}.cfg")
    with open(cfg, "w") as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Printed\n")
        if view and not simulate:
            f.write("VIEW View\n")
        if consts:
            f.write("CONSTANTS\n")
        for k, v in consts.items():
            f.write(f"  {k} <- {v}\n" if isinstance(v, str) and v[0].isalpha() and v not in ("TRUE", "FALSE") else f"  {k} = {v}\n")
    args = ["-simulate", f"num={simulate}", "-depth", str(depth), "-seed", str(SEED)] if simulate else []
    r = tlc(work, module, cfg=cfg, args=args, workers=1)
    seen, out = set(), []
    for s in r.lines("SCEN"):
        key = json.dumps({k: v for k, v in s.items() if k != "lab"}, sort_keys=True)
        if key in seen:
            continue
        seen.add(key)
        s["id"] = f"{module} {hashlib.sha1(key.encode()).hexdigest()[:10]} {' '.join(s['lab'])}"
        out.append(s)
    out.sort(key=lambda s: s["id"])
    return out, r


def strip_wants(s):
    s = {k: v for k, v in s.items() if k not in ("end", "lab", "wants")}
    s["steps"] = [{k: v for k, v in st.items() if k != "want"} for st in s["steps"]]
    return s


def replay_api(work, driver, scens, tag="a", timeout=600):
    jobs = max(1, min(NPROC, len(scens)))
    chunks = [scens[i::jobs] for i in range(jobs)]

    def one(i):
        f, o = work.path(f"{tag}{i}.in.json"), work.path(f"{tag}{i}.out.json")
        with open(f, "w") as fh:
            json.dump([strip_wants(s) for s in chunks[i]], fh)
        sd = os.path.join(work.scratch, f"{tag}{i}")
        os.makedirs(sd, exist_ok=True)
        p = subprocess.run([driver, "api", f, o, sd], capture_output=True, text=True, timeout=timeout)
        shutil.rmtree(sd, ignore_errors=True)
        if p.returncode != 0:
            raise MachineryError(f"driver failed rc={p.returncode}: {p.stderr[-2000:]}")
        return [json.loads(l) for l in open(o)]

    with ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(one, range(jobs)))
    out = [None] * len(scens)
    for i in range(jobs):
        for k, r in enumerate(res[i]):
            out[i + k * jobs] = r
    return out


def commands_bad(want, got):
    def canon(c):
        return (c["id"], tuple(c["toks"] if c["id"].startswith("run ") else sorted(set(c["toks"]))))
    must, may = {canon(c) for c in want["must"]}, {canon(c) for c in want["may"]}
    seen = [canon(c) for c in got]
    for c in seen:
        if c not in must and c not in may:
            near = [m for m in must | may if m[0] == c[0]]
            return f"not to be run: {c}" + (f", expected {near[0]}" if near else "")
        if seen.count(c) > 1:
            return f"run more than once: {c}"
    for c in must - set(seen):
        return f"not run: {c}"
    at = {c["id"]: c for c in got}
    for a, b in want["order"]:
        if a in at and b in at and not at[a]["end"] < at[b]["start"]:
            return f"{b} before {a}"
    return None


def agrees(want, got):
    """Does an observation agree with what the specification allows?"""
    if want == "any":
        return True
    if isinstance(want, dict):
        if set(want) == {"sup"}:  # at least these
            g = [json.dumps(x, sort_keys=True) for x in got]
            return all(json.dumps(x, sort_keys=True) in g for x in want["sup"])
        if set(want) == {"bag"}:  # exactly these, in any order
            return isinstance(got, list) and sorted(json.dumps(x, sort_keys=True) for x in got) == \
                sorted(json.dumps(x, sort_keys=True) for x in want["bag"])
        if set(want) == {"must", "may", "order"}:  # commands, by what they write
            return commands_bad(want, got) is None
        return isinstance(got, dict) and set(want) == set(got) and all(agrees(want[k], got[k]) for k in want)
    if isinstance(want, list):
        return isinstance(got, list) and len(want) == len(got) and all(agrees(a, b) for a, b in zip(want, got))
    return want == got


def _observation_bad(w, got):
    if isinstance(w, dict) and isinstance(w.get("cmds"), dict) and isinstance(got, dict) and "cmds" in got:
        bad = commands_bad(w["cmds"], got["cmds"])
        if bad:
            return bad
    return None if agrees(w, got) else f"{json.dumps(got)}, expected {json.dumps(w)}"


def api_bad(s, r):
    """What differs from the specification, or None."""
    if r["end"] == "harness":
        raise MachineryError(f"scenario {s['id']} could not be carried out")
    wants = s["wants"] if "wants" in s else [st["want"] for st in s["steps"] if "want" in st]
    if s["end"] == "rejected":
        wants = wants[:-1]  # the last call does not return
    for k, w in enumerate(wants):
        if k >= len(r["got"]):
            return f"{r['end']} after {k} observations, expected {json.dumps(w)}"
        alts = [_observation_bad(x, r["got"][k]) for x in (w["alt"] if isinstance(w, dict) and "alt" in w else [w])]
        if all(alts):
            return f"observation {k + 1}: {alts[0]}"
    if r["end"] != s["end"]:
        return f"ended with {r['end']}, expected {s['end']}"
    if len(r["got"]) > len(wants):
        return f"accepted: {json.dumps(r['got'][len(wants)])}"
    return None
