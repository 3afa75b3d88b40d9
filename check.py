#!/usr/bin/env python3
"""check.py ID           decide property ID (tier from VERIF_TIER, seed from VERIF_SEED)
   check.py --setup       build the harness
   check.py --replay FILE record the failing trace again and validate it

Model checks the specification's configurations for the property with TLC, records traces of the
real code with the harness (spec-generated cases, systematic parts and random histories), and has TLC
validate every trace against the trace specification with the property in focus.
Exit 0: held; 1: VIOLATION line; 2: the check itself failed."""

import collections
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
QUICK = TIER != "thorough"
CORES = max(2, min(8, os.cpu_count() or 2))
# Nothing should take nearly as long; generous so that a slow machine raises no alarm.
DRIVER_LIMIT = 200 if QUICK else 900
TLC_LIMIT = 600 if QUICK else 6000


class CheckError(Exception):
    pass


# ------------------------------------------------------------------ building

def tree_hash():
    h = hashlib.sha256()
    for top in (os.path.join(REPO, "src"), os.path.join(VERIF, "harness")):
        for d, dirs, files in sorted(os.walk(top)):
            dirs[:] = sorted(x for x in dirs if x != "target")
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, top).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    for f in ("Cargo.toml", "Cargo.lock", "build.rs"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def build(profiles):
    """Builds the harness from the working tree. Freshness is judged by content, not by time stamps."""
    global PUBLIC
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        want = tree_hash()
        broken = os.path.join(BUILD, "no-hooks")
        PUBLIC = os.path.exists(broken) and open(broken).read() == want
        try:
            for prof in profiles:
                cargo(prof, want)
        except CheckError as e:
            if PUBLIC:
                raise
            # The hooks follow private items; if those are gone, what the interface shows is left.
            PUBLIC = True
            try:
                for prof in profiles:
                    cargo(prof, want)
            except CheckError:
                raise e
            with open(broken, "w") as f:
                f.write(want)
    if PUBLIC:
        print("DEGRADED: the hooks do not build on this tree; only what the public interface shows is checked")


PUBLIC = False


def place(prof):
    target = os.path.join(BUILD, "target-public" if PUBLIC else "target")
    return target, os.path.join(target, "debug" if prof == "dev" else prof, "vp")


def cargo(prof, want):
    target, out = place(prof)
    stamp = os.path.join(BUILD, "stamp-" + prof + ("-public" if PUBLIC else ""))
    have = open(stamp).read() if os.path.exists(stamp) else ""
    if have == want and os.path.exists(out):
        return
    env = dict(os.environ, RUSTFLAGS="--cfg %s -Awarnings" % ("vp_public" if PUBLIC else "rescan_vp"),
               CARGO_TARGET_DIR=target)
    env.pop("CARGO_BUILD_TARGET", None)
    harness = os.path.join(VERIF, "harness")
    clean = ["cargo", "clean", "--offline", "-p", "rescan", "-p", "vp"] + (["--profile", prof] if prof != "dev" else [])
    subprocess.run(clean, cwd=harness, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "--profile", prof], cwd=harness, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError("the harness does not build:\n" + r.stdout[-4000:])
    with open(stamp, "w") as f:
        f.write(want)


def binary(profile):
    return place(profile)[1]


# ----------------------------------------------------------------------- TLC

def java(heap, gc, tmp):
    return ["java", "-Xmx" + heap, "-Xss512m", gc, "-Djava.io.tmpdir=" + tmp, "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE"]


def tlc(args, env, limit, heap, gc):
    t0 = time.time()
    tmp = os.path.dirname(args[args.index("-metadir") + 1])
    try:
        r = subprocess.run(java(heap, gc, tmp) + args, cwd=SPEC, env=dict(os.environ, **env), timeout=limit,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        return r.returncode, r.stdout, time.time() - t0
    except subprocess.TimeoutExpired as e:
        out = e.stdout or b""
        return None, out if isinstance(out, str) else out.decode(errors="replace"), time.time() - t0


def counts(out):
    m = re.findall(r"(\d+) states generated.*?(\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def module_of(cfg):
    """The first line of a configuration names its module."""
    with open(os.path.join(SPEC, cfg + ".cfg")) as f:
        return re.match(r"\\\* (\w+)", f.readline()).group(1)


def model_check(cfg, work):
    """cfg: (configuration, expectation); expectation "ok" or the property that has to fail."""
    name, expect = cfg
    module = module_of(name)
    rc, out, wall = tlc(["-workers", str(CORES), "-config", name + ".cfg", "-metadir", os.path.join(work, "md_" + name),
                         module + ".tla"], {}, TLC_LIMIT, "6g", "-XX:+UseParallelGC")
    gen, dist = counts(out)
    if expect == "ok":
        if rc != 0 or "No error has been found" not in out:
            raise CheckError("model checking %s: %s" % (name, out[-3000:]))
    elif not re.search(r"Invariant %s is violated|property %s is violated|Temporal properties were violated" % (expect, expect), out):
        raise CheckError("model checking %s did not find %s violated: %s" % (name, expect, out[-3000:]))
    return {"config": name, "states": dist, "transitions": gen, "wall_s": round(wall, 1), "expected": expect}, out


def emitted(cfg, work):
    """Behaviours that TLC generates from the specification, as lines of cases."""
    info, out = model_check((cfg, "ok"), work)
    lines = []
    for m in re.finditer(r'<<"(PATTERN|CALL)", "((?:[^"\\]|\\.)*)">>', out):
        j = json.loads(json.loads('"' + m.group(2) + '"'))
        lines.append(pattern_line(j) if m.group(1) == "PATTERN" else call_line(j))
    lines = sorted(set(x for x in lines if x))
    if not lines:
        raise CheckError("no behaviours from " + cfg)
    return info, lines


# What the patterns of Isolation stand for: texts of a good and of a bad one, and flags for all of them.
CONCRETE = [("ab", "(", 0), ("a|b", "a)", 1), ("(*UCP)aB", "(*CR)a", 1), ("a" * 20, "\u00e9", 2)]


def schedules(cfg, work):
    """Interleavings that TLC generates from the specification, as calls and lines of turns."""
    info, out = model_check((cfg, "ok"), work)
    found = []
    for m in re.finditer(r'<<"SCHEDULE", "((?:[^"\\]|\\.)*)">>', out):
        found.append(json.loads(json.loads('"' + m.group(1) + '"')))
    if not found:
        raise CheckError("no schedules from " + cfg)
    found.sort(key=json.dumps)
    calls, lines = {}, []
    for i, path in enumerate(found):
        parts = ["schedule"]
        for t, act in path:
            if act[0] == "begin":
                parts.append("%d:%d" % (t, calls.setdefault((json.dumps(act[1]), i % len(CONCRETE)), len(calls))))
            else:
                parts.append(str(t))
        lines.append(" ".join(parts))
    return info, [concrete_call(json.loads(c), *CONCRETE[v]) for c, v in calls], lines


def concrete_call(pats, good, bad, flags):
    text = lambda p: ",".join(str(ord(c)) for c in (good if p[3] else bad))
    return " ".join(["call", "/".join(text(p) for p in pats), "/".join(str(flags + 8 * p[1] + 1024 * p[2]) for p in pats),
                     "/".join(p[0] for p in pats), "block", "1,1,8000000,16000,8000000,1,10000,10000,70",
                     str(len(pats))])


def pattern_line(p):
    return ",".join(str(c) for c in p) or "-"


def call_line(c):
    lim = c["lim"]
    if lim["sw"]["maxNodes"] < 9:
        return None  # not configurable in the code
    sw = lim["sw"]
    f = lambda b: "1" if b else "0"
    lims = [f(lim["allowLiteral"]), f(lim["shortcut"]), lim["patterns"], lim["length"], lim["reports"],
            f(sw["enabled"]), sw["maxPatterns"], sw["maxLiterals"], sw["largest"]]
    pats = "/".join(",".join(str(x) for x in p) for p in c["pats"]) if c["pats"] else "-"
    seq = lambda s: "/".join(str(x) for x in s) if s else "-"
    return " ".join([pats, seq(c["flags"]), seq(c["ids"]), c["mode"], ",".join(map(str, lims)), str(c["nf"])])


# ---------------------------------------------------------------------- jobs

class Job:
    """One recording of the harness and its validation."""

    def __init__(self, suite, module, key=9, n=0, seed=0, cases=None, profile="dev"):
        self.suite, self.module, self.key, self.n, self.seed = suite, module, key, n, seed
        self.cases, self.profile = cases, profile

    def describe(self):
        return {"suite": self.suite, "module": self.module, "key": self.key, "n": self.n, "seed": self.seed,
                "profile": self.profile, "cases": self.cases}

    def name(self, i):
        return "%03d-%s" % (i, self.suite)


def record(job, base, limit):
    trace, journal = base + ".ndjson", base + ".journal"
    cmd = [binary(job.profile), job.suite, "--seed", str(job.seed), "--n", str(job.n), "--key", str(job.key),
           "--out", trace, "--journal", journal]
    if job.cases:
        with open(base + ".cases", "w") as f:
            f.write("\n".join(job.cases) + "\n")
        cmd += ["--cases", base + ".cases"]
    died = None
    try:
        r = subprocess.run(cmd, timeout=limit, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                           errors="replace")
        if r.returncode != 0:
            died = "exit status %d: %s" % (r.returncode, r.stderr[-300:])
    except subprocess.TimeoutExpired:
        died = "no answer within %d s" % limit
    case = ""
    if died:
        if os.path.exists(journal):
            case = open(journal, errors="replace").read()[:20000]
        if not case:
            raise CheckError("the harness failed outside of any case: %s (%s)" % (died, " ".join(cmd)))
    return trace, died, case


def whole_lines(trace):
    """Drops an incomplete last line."""
    data = open(trace, "rb").read() if os.path.exists(trace) else b""
    cut = data.rfind(b"\n") + 1
    if cut != len(data):
        with open(trace, "wb") as f:
            f.write(data[:cut])
    return data[:cut]


HISTORY = {"new", "begin", "parse", "tree", "fresh", "pick", "align", "convert", "build", "compare", "depths", "bulk", "bulkids", "large"}


def run_job(job, focus, work, i):
    base = os.path.join(work, job.name(i))
    if job.suite == "isolation":
        return run_isolation(job, focus, base)
    trace, died, case = record(job, base, DRIVER_LIMIT)
    return validate(job, focus, base, trace, died, case)


def run_isolation(job, focus, base):
    """Every distinct call once in a process of its own, then the histories and schedules."""
    parts = b""
    distinct = sum(c.startswith("call ") for c in job.cases) if job.cases else job.key
    for k in range(distinct):
        ref = Job("reference", job.module, key=k, seed=job.seed, profile=job.profile, cases=job.cases)
        t, died, case = record(ref, base + "-ref", DRIVER_LIMIT)
        if died:
            return validate(ref, focus, base, t, died, case)
        parts += open(t, "rb").read()
    t, died, case = record(job, base, DRIVER_LIMIT)
    parts += whole_lines(t)
    with open(t, "wb") as f:
        f.write(parts)
    return validate(job, focus, base, t, died, case)


def trace_config(module):
    return module + ".cfg" if os.path.exists(os.path.join(SPEC, module + ".cfg")) else "Trace.cfg"


def validate(job, focus, base, trace, died, case):
    data = whole_lines(trace)
    events = data.count(b"\n")
    res = {"job": job, "events": events, "violation": None, "states": 0, "transitions": 0, "kinds": {},
           "samples": [], "wall": 0.0, "histories": 0}
    if events:
        env = {"TRACE": trace, "FOCUS": focus}
        rc, out, wall = tlc(["-workers", "1", "-config", trace_config(job.module), "-metadir", base + ".md", job.module + ".tla"],
                            env, TLC_LIMIT, "3g", "-XX:+UseSerialGC")
        res["wall"] = wall
        res["transitions"], res["states"] = counts(out)
        mism = [m[9:] for m in out.splitlines() if m.startswith("MISMATCH ") or m.startswith('"MISMATCH ')]
        lines = data.splitlines()
        kinds = collections.Counter()
        for ln in lines:
            m = re.match(rb'\{"e":"([a-z]+)"', ln)
            kinds[m.group(1).decode() if m else "?"] += 1
        res["kinds"] = dict(kinds)
        res["histories"] = sum(v for k, v in kinds.items() if k in HISTORY)
        pick = [lines[j].decode(errors="replace") for j in sorted({0, events // 2, events - 1})]
        res["samples"] = [s[:600] for s in pick]
        accepted = rc == 0 and "No error has been found" in out
        if not accepted:
            if mism:
                # The first event that the specification does not allow.
                at = re.search(r"<<(?:\{[^}]*\}|\"C\d\d\"), (\d+),", mism[-1])
                pos = int(at.group(1)) if at else 0
                res["violation"] = {"what": mism[-1][:3000], "event": pos,
                                    "context": context(lines, pos)}
            elif rc is None:
                raise CheckError("validation of %s took too long" % trace)
            elif "TraceAccepted" in out or "postcondition" in out.lower():
                pos = res["states"]
                res["violation"] = {"what": "no action of the specification explains this event", "event": pos,
                                    "context": context(lines, pos)}
            else:
                raise CheckError("validation of %s failed: %s" % (trace, out[-3000:]))
    if died and not res["violation"]:
        res["violation"] = {"what": "no outcome: " + died, "event": events + 1, "context": [case[:4000]]}
    return res


def context(lines, pos):
    """The history up to the event, shortened."""
    start = max(0, pos - 1)
    low = max(0, pos - 400)
    while start > low:
        m = re.match(rb'\{"e":"([a-z]+)"', lines[start])
        if m and m.group(1).decode() in HISTORY:
            break
        start -= 1
    part = [x.decode(errors="replace") for x in lines[start:pos]]
    if len(part) > 30:
        part = part[:10] + ["..."] + part[-20:]
    return [x[:1500] for x in part]


# ----------------------------------------------------------------- the plans

def shards(lines, k):
    return [lines[i::k] for i in range(k) if lines[i::k]]


def seeds(k, base=0):
    return [SEED * 1000 + base + i for i in range(k)]


class Plan:
    def __init__(self, work):
        self.work, self.mc, self.jobs, self.behaviours = work, [], [], 0

    def model(self, *cfgs, expect="ok"):
        for c in cfgs:
            self.mc.append(model_check((c, expect), self.work)[0])

    def emit(self, cfg):
        info, lines = emitted(cfg, self.work)
        self.mc.append(info)
        self.behaviours += len(lines)
        return lines

    def schedules(self, cfg, size):
        info, calls, lines = schedules(cfg, self.work)
        self.mc.append(info)
        self.behaviours += len(lines)
        return [calls + part for part in shards(lines, -(-len(lines) // size))]

    def add(self, suite, module, **kw):
        if PUBLIC:
            if suite == "parse" and kw.get("cases"):
                # Patterns as calls.
                suite, module = "session", "TraceSession"
                kw["cases"] = ["%s 0 0 block 1,1,8000000,16000,32000000,1,10000,10000,70 1" % c for c in kw["cases"] if c != "-"]
            elif suite not in ("session", "limits", "ladder", "deep", "isolation") or (
                    suite == "isolation" and kw.get("cases")):
                return
        self.jobs.append(Job(suite, module, **kw))


def q(quick, thorough):
    return quick if QUICK else thorough


def plan_parse(p):
    p.model(*q((), ("MC_Pattern", "MC_PatternDeep")))
    for part in shards(p.emit(q("MC_PatternEmit", "MC_PatternEmit2")), q(4, 16)):
        p.add("parse", "TraceParse", cases=part, seed=SEED)
    for k in (4, 0, 1, 2, 3, 5):
        p.add("parse", "TraceParse", key=k, seed=SEED)
    for k in (4, 3):
        p.add("parse", "TraceParse", key=k, seed=SEED, profile="plain")
    for s in seeds(q(4, 60)):
        p.add("parse", "TraceParse", n=q(1500, 5000), seed=s)
    for s in seeds(q(2, 12), 500):
        p.add("parse", "TraceParse", n=q(1500, 5000), seed=s, profile="plain")


def plan_trees(p):
    p.model("MC_Tree", *q((), ("MC_Tree2",)))
    for s in seeds(q(2, 20), 700):
        p.add("parse", "TraceParse", key=6, n=q(1000, 4000), seed=s)
    p.add("parse", "TraceParse", key=6, n=q(600, 4000), seed=SEED, profile="plain")


def plan_session(p, cfgs=("MC_Session",), emit=True, more=1.0):
    p.model(*cfgs)
    p.model(*q((), ("MC_SessionLimits", "MC_SessionNarrow")))
    if emit:
        lines = p.emit(q("MC_SessionEmit", "MC_SessionEmit2")) + p.emit(q("MC_SessionEmitLimits", "MC_SessionEmitLimits2"))
        for part in shards(lines, q(4, 24)):
            p.add("session", "TraceSession", cases=part, seed=SEED)
    for s in seeds(q(6, 60)):
        p.add("session", "TraceSession", n=int(q(2000, 5000) * more), seed=s)
    for s in seeds(q(2, 12), 500):
        p.add("session", "TraceSession", n=int(q(2000, 5000) * more), seed=s, profile="plain")


def plan_limits(p, keys):
    for k in keys:
        p.add("limits", "TraceSession", key=k, seed=SEED)


def plan_ladder(p, keys):
    """Sizes: 0 and 6 sets, 1 failures, 2 lengths, 3 shared prefixes, 4 flags, 5 more than 65536 patterns,
    7 shortest string last, 8 to 10 more than 65536 match ids."""
    for k in sorted({*keys, *({6} if 0 in keys else ())}):
        p.add("ladder", "TraceSession", key=k, seed=SEED)
    for s in seeds(q(0, 6), 900):
        for k in keys:
            p.add("ladder", "TraceSession", key=k, seed=s, profile="plain" if s % 2 else "dev")


def plan_deep(p):
    for prof in ("dev", "plain"):
        p.add("deep", "TraceSession", key=0, seed=SEED, profile=prof)


def plan_store(p):
    p.model("MC_Store")
    for s in seeds(q(2, 24)):
        p.add("store", "TraceStore", n=q(800, 3000), seed=s)
    p.add("store", "TraceStore", key=1, n=q(250, 1500), seed=SEED)
    p.add("store", "TraceStore", n=q(400, 3000), seed=SEED, profile="plain")


def plan_reports(p):
    p.model(q("MC_Reports", "MC_Reports2"))
    for s in seeds(q(2, 24)):
        p.add("reports", "TraceReports", n=q(200, 800), seed=s)
    p.add("reports", "TraceReports", key=1, n=q(100, 400), seed=SEED)
    p.add("reports", "TraceReports", n=q(100, 800), seed=SEED, profile="plain")


def plan_smallwrite(p):
    p.add("smallwrite", "TraceSmallWrite", key=0, n=10, seed=SEED)
    p.add("smallwrite", "TraceSmallWrite", key=1, n=10, seed=SEED)
    for s in seeds(q(3, 24)):
        p.add("smallwrite", "TraceSmallWrite", n=q(300, 1000), seed=s)
    p.add("smallwrite", "TraceSmallWrite", n=q(200, 1000), seed=SEED, profile="plain")


def plan_class(p):
    p.model("MC_BitField2", *q((), ("MC_BitField",)))
    for k in range(16):
        p.add("class", "TraceClass", key=k, n=q(60, 300), seed=SEED)
    for k in range(17, 22):
        p.add("class", "TraceClass", key=k, seed=SEED)
    for s in seeds(q(0, 10), 300):
        for k in range(17, 21):
            p.add("class", "TraceClass", key=k, seed=s)
    for s in seeds(q(4, 60)):
        p.add("class", "TraceClass", key=16, n=q(150, 400), seed=s)
    for s in seeds(q(2, 16), 500):
        p.add("class", "TraceClass", key=16, n=q(150, 400), seed=s, profile="plain")


def plan_literal(p):
    p.model("MC_Literal")
    p.add("literal", "TraceLiteral", key=0, n=200, seed=SEED)
    p.add("literal", "TraceLiteral", key=1, n=20, seed=SEED)
    for s in seeds(q(3, 30)):
        p.add("literal", "TraceLiteral", n=q(300, 1500), seed=s)
    p.add("literal", "TraceLiteral", n=q(200, 1500), seed=SEED, profile="plain")


def plan_arith(p):
    p.model("MC_Arith")
    for s in seeds(q(3, 24)):
        p.add("arith", "TraceArith", n=q(300, 2000), seed=s)
    p.add("arith", "TraceArith", n=q(300, 2000), seed=SEED, profile="plain")


def plan_engine(p):
    p.model("MC_Engine")
    for s in seeds(q(2, 16)):
        p.add("engine", "TraceEngine", n=q(200, 1500), seed=s)
    p.add("engine", "TraceEngine", key=1, n=20, seed=SEED)
    p.add("engine", "TraceEngine", n=q(200, 1500), seed=SEED, profile="plain")


def plan_graph(p):
    p.model("MC_Graph")
    for s in seeds(q(2, 24)):
        p.add("graph", "TraceGraph", n=q(300, 1500), seed=s)
    p.add("graph", "TraceGraph", key=1, n=50, seed=SEED)
    p.add("graph", "TraceGraph", n=q(200, 1500), seed=SEED, profile="plain")


def plan_regions(p):
    p.model("MC_Regions", *q((), ("MC_Regions2",)))
    p.add("regions", "TraceRegions", key=0, n=q(300, 3000), seed=SEED)
    for s in seeds(q(3, 24)):
        p.add("regions", "TraceRegions", n=q(300, 1500), seed=s)
    p.add("regions", "TraceRegions", key=1, n=q(1100, 2100), seed=SEED)
    p.add("regions", "TraceRegions", n=q(200, 1500), seed=SEED, profile="plain")


def plan_graphs(p):
    """Graphs and literals handed to a store."""
    for s in seeds(q(3, 24)):
        p.add("graphs", "TraceStore", n=q(1000, 3000), seed=s)
    p.add("graphs", "TraceStore", key=1, n=q(300, 1500), seed=SEED)
    p.add("graphs", "TraceStore", key=2, n=q(130, 260), seed=SEED)
    p.add("graphs", "TraceStore", n=q(500, 3000), seed=SEED, profile="plain")


def plan_isolation(p):
    p.model("MC_Isolation", *q((), ("MC_Isolation2",)))
    p.model("MC_IsolationShared", expect="OwnArguments")
    for cfg in q(("MC_IsolationEmit", "MC_IsolationEmit2"), ("MC_IsolationEmit", "MC_IsolationEmit2", "MC_IsolationEmit3")):
        for part in p.schedules(cfg, 5000):
            p.add("isolation", "TraceIsolation", cases=part, seed=SEED)
    for s in seeds(q(3, 20)):
        p.add("isolation", "TraceIsolation", key=200, n=q(6000, 20000), seed=s)
    p.add("isolation", "TraceIsolation", key=200, n=q(6000, 20000), seed=SEED, profile="plain")


def C01(p):
    plan_parse(p)
    plan_session(p)
    plan_limits(p, (0, 1, 4, 5))
    plan_ladder(p, (0, 2, 3, 4, 5))
    plan_deep(p)


def C02(p):
    plan_parse(p)
    plan_session(p)
    plan_limits(p, q((0, 1, 3, 4, 5), range(7)))
    plan_ladder(p, (0, 1, 2, 4, 5, 10))


def C03(p):
    plan_parse(p)
    plan_session(p)
    plan_limits(p, (0, 1, 4))
    plan_ladder(p, (5, 1, 4, 8))


def C04(p):
    p.model(*q(("MC_Pattern",), ()))
    plan_parse(p)
    plan_trees(p)


def C05(p):
    plan_parse(p)
    plan_trees(p)
    plan_session(p, more=0.5)
    plan_ladder(p, (2, 3))


def C06(p):
    plan_parse(p)
    plan_session(p, more=0.5)
    plan_ladder(p, (4,))


def C07(p):
    plan_parse(p)
    plan_trees(p)
    plan_session(p)
    plan_ladder(p, (0, 2, 3))
    plan_store(p)


def C08(p):
    plan_reports(p)
    plan_session(p)
    plan_ladder(p, (0, 1, 3, 9))
    plan_store(p)


def C09(p):
    plan_reports(p)
    plan_session(p)
    plan_ladder(p, (0, 1, 5, 8, 9, 10))
    plan_store(p)
    plan_graphs(p)


def C10(p):
    plan_smallwrite(p)
    plan_session(p)
    plan_ladder(p, (0, 2, 3))
    plan_store(p)
    plan_limits(p, q((2, 5, 6), range(7)))


def C11(p):
    plan_session(p)
    plan_ladder(p, (0, 2, 7))
    plan_store(p)
    plan_limits(p, (0, 1))


def C12(p):
    plan_graph(p)
    plan_parse(p)
    plan_trees(p)


def C13(p):
    plan_engine(p)
    plan_session(p)
    plan_ladder(p, (4,))


def C14(p):
    plan_class(p)


def C15(p):
    plan_class(p)


def C16(p):
    plan_class(p)


def C17(p):
    plan_literal(p)


def C18(p):
    plan_arith(p)


def C19(p):
    plan_arith(p)


def C20(p):
    plan_isolation(p)


def C21(p):
    plan_regions(p)


def C22(p):
    plan_store(p)
    plan_graphs(p)


PLANS = {f: g for f, g in globals().items() if re.fullmatch(r"C\d\d", f)}

ASSUMPTIONS = [
    "the facade rescan::vp (guarded by --cfg rescan_vp) projects the real state faithfully",
    "TLC evaluates the specification correctly",
    "conformance is shown for the recorded histories; the model is exhaustive within the bounds of its configurations",
]


# ------------------------------------------------------------------ the check

def known_findings(prop):
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: property=%s " % prop):
                yield line.split(" ", 2)[2].strip()


def check(prop):
    t0 = time.time()
    work = os.path.join(BUILD, "work", "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        build(("dev", "plain"))
        plan = Plan(work)
        PLANS[prop](plan)
        plan.jobs.sort(key=lambda j: j.suite not in ("ladder", "limits", "deep"))  # the longest first
        t1 = time.time()
        results, errors = [], []
        with cf.ThreadPoolExecutor(CORES) as pool:
            futs = [pool.submit(run_job, j, prop, work, i) for i, j in enumerate(plan.jobs)]
            for f in cf.as_completed(futs):
                try:
                    results.append(f.result())
                except cf.CancelledError:
                    pass
                except CheckError as e:
                    errors.append(str(e))
                else:
                    if results[-1]["violation"] and QUICK:
                        for g in futs:
                            g.cancel()
        bad = [r for r in results if r["violation"]]
        for k in known_findings(prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
        evidence(prop, plan, results, bad, t0)
        print("%s: %d model states, %d traces, %d histories, %d events; %.0f s (models %.0f s)" % (
            prop, sum(m["states"] for m in plan.mc), len(results), sum(r["histories"] for r in results),
            sum(r["events"] for r in results), time.time() - t0, t1 - t0))
        if bad:
            bad.sort(key=lambda r: r["job"].name(0))
            r = bad[0]
            path = os.path.join(VERIF, "replays", "%s.json" % prop)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as f:
                json.dump({"property": prop, "job": r["job"].describe(), **r["violation"]}, f, indent=1)
            print("  " + r["violation"]["what"][:1000])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        if errors:
            raise CheckError("\n".join(errors[:3]))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def evidence(prop, plan, results, bad, t0):
    kinds = collections.Counter()
    for r in results:
        for k, v in r["kinds"].items():
            kinds[r["job"].suite + "." + k] += v
    samples = []
    seen = set()
    for r in results:
        if r["job"].suite not in seen and r["samples"]:
            seen.add(r["job"].suite)
            samples += [{"suite": r["job"].suite, "seed": r["job"].seed, "event": s} for s in r["samples"][1:2]]
    ev = {
        "property": prop, "tier": "quick" if QUICK else "thorough", "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": sum(m["states"] for m in plan.mc),
            "transitions": sum(m["transitions"] for m in plan.mc),
            "traces_validated_against_impl": sum(1 for r in results if not r["violation"]),
            "model_runs": plan.mc,
            "spec_generated_behaviours_replayed": plan.behaviours,
            "histories_recorded": sum(r["histories"] for r in results),
            "events_validated": sum(r["events"] for r in results),
            "events_by_kind": dict(sorted(kinds.items())),
            "trace_states": sum(r["states"] for r in results),
            "samples": samples or [{"note": "no trace"}],
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 1),
        "violations": len(bad),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def replay(path):
    r = json.load(open(path))
    work = os.path.join(BUILD, "work", "replay-%d" % os.getpid())
    os.makedirs(work)
    try:
        build(("dev", "plain"))
        res = run_job(Job(**r["job"]), r["property"], work, 0)
        if res["violation"]:
            print(json.dumps(res["violation"], indent=1))
            print("VIOLATION property=%s replay=%s" % (r["property"], path))
            return 1
        print("%d events accepted" % res["events"])
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    try:
        if sys.argv[1:] == ["--setup"]:
            build(("dev", "plain"))
            return 0
        if len(sys.argv) == 3 and sys.argv[1] == "--replay":
            return replay(sys.argv[2])
        if len(sys.argv) == 2 and sys.argv[1] in PLANS:
            return check(sys.argv[1])
        print(__doc__)
        return 2
    except CheckError as e:
        print("ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
