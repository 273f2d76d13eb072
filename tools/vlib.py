"""Machinery shared by all checks: build the harness from /repo, run TLC, run
scripts against the real code, validate the recorded traces with TLC."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
JOBS = max(4, (os.cpu_count() or 4))


class CheckError(Exception):
    pass


def log(*a):
    print(time.strftime("[%H:%M:%S]"), *a, flush=True)


def goenv():
    e = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"],
                         capture_output=True).stdout
    for kv in out.split(b"\0"):
        if b"=" in kv:
            k, v = kv.split(b"=", 1)
            e[k.decode()] = v.decode("utf8", "replace")
    e["PATH"] = e.get("PATH", "") + ":" + os.environ.get("PATH", "")
    return e


class Work:
    """A scratch directory that goes away with the run."""

    def __init__(self, prop):
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop)

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def build(work, race=False):
    """Builds the harness against /repo's working tree."""
    src = work.path("src")
    os.makedirs(src, exist_ok=True)
    for f in os.listdir(os.path.join(VERIF, "harness")):
        if f.endswith(".go"):
            shutil.copy(os.path.join(VERIF, "harness", f), src)
    mod = open("/repo/go.mod").read()
    mod = re.sub(r"^module .*$", "module verif/harness", mod, flags=re.M)
    mod += "\nrequire github.com/childe/healer v0.0.0\nreplace github.com/childe/healer => /repo\n"
    open(os.path.join(src, "go.mod"), "w").write(mod)
    shutil.copy("/repo/go.sum", src)
    cmd = ["go", "build", "-o", work.path("vh")]
    if race:
        cmd.append("-race")
    r = subprocess.run(cmd + ["."], cwd=src, env=goenv(), capture_output=True, text=True)
    if r.returncode != 0:
        raise CheckError("building the harness failed:\n" + r.stderr[-4000:])
    return work.path("vh")


def build_cli(work):
    """Builds the healer command from /repo.  Its docs package is generated
    (and imported for its side effects only): an empty one takes its place."""
    stub, ov = work.path("docs.go"), work.path("cli-overlay.json")
    open(stub, "w").write("package docs\n")
    json.dump({"Replace": {"/repo/docs/docs.go": stub}}, open(ov, "w"))
    r = subprocess.run(["go", "build", "-overlay", ov, "-o", work.path("healer"), "./command/healer"], cwd="/repo",
                       env=goenv(), capture_output=True, text=True)
    if r.returncode != 0:
        raise CheckError("building the healer command failed:\n" + r.stderr[-4000:])
    return work.path("healer")


# ------------------------------------------------------------------ TLC

def cfg_text(init="Init", next_="Next", spec=None, consts=None, invs=(), props=(), post=None,
             deadlock=False, subst=None, constraint=None, view=None):
    t = []
    if spec:
        t.append("SPECIFICATION %s" % spec)
    else:
        t += ["INIT %s" % init, "NEXT %s" % next_]
    if consts or subst:
        t.append("CONSTANTS")
        for k, v in (consts or {}).items():
            t.append("  %s = %s" % (k, tla(v)))
        for k, v in (subst or {}).items():
            t.append("  %s <- %s" % (k, v))
    for i in invs:
        t.append("INVARIANT %s" % i)
    for i in props:
        t.append("PROPERTY %s" % i)
    if constraint:
        t.append("CONSTRAINT %s" % constraint)
    if view:
        t.append("VIEW %s" % view)
    if post:
        t.append("POSTCONDITION %s" % post)
    t.append("CHECK_DEADLOCK %s" % ("TRUE" if deadlock else "FALSE"))
    return "\n".join(t) + "\n"


class Raw(str):
    pass


def tla(v):
    if isinstance(v, Raw):
        return str(v)
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    raise CheckError("tla value %r" % (v,))


def tlc(work, module, cfg, args=(), env=None, timeout=600, workers="auto", heap=None):
    """Runs TLC; returns (ok, output, stats)."""
    name = "%s-%s" % (module, hashlib.sha1((cfg + repr(args) + repr(env)).encode()).hexdigest()[:8])
    d = work.path("tlc-" + name)
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    open(os.path.join(d, "run.cfg"), "w").write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    e["JAVA_TOOL_OPTIONS"] = (e.get("JAVA_TOOL_OPTIONS", "") + " -XX:+UseParallelGC -Xss32m -Djava.io.tmpdir=" + d
                              + (" -Xmx%s" % heap if heap else "")).strip()
    cmd = ["tlc", "-config", "run.cfg", "-workers", str(workers), "-metadir", os.path.join(d, "meta")]
    cmd += list(args) + [module + ".tla"]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC on %s did not finish in %d s" % (module, timeout))
    out = r.stdout + r.stderr
    st = {"module": module, "wall_s": round(time.time() - t0, 2), "states": 0, "distinct": 0}
    m = re.findall(r"(\d+) states generated(?:, (\d+) distinct states found)?", out)
    if m:
        st["states"] = int(m[-1][0])
        st["distinct"] = int(m[-1][1] or 0)
    m = re.findall(r"The number of states generated: (\d+)", out)
    if m:
        st["states"] = int(m[-1])
    shutil.rmtree(d, ignore_errors=True)
    return r.returncode, out, st


def clean(out):
    return "\n".join(l for l in out.splitlines()
                     if not re.match(r"^(Semantic|Linting|Parsing|Picked up|TLC2 Version|Running)", l))


def model_check(work, module, consts, invs, deadlock=True, props=(), spec=None, timeout=800, constraint=None,
                init="Init", next_="Next", workers="auto", view=None, expect=False):
    """Checks a model.  With expect, the model is a broken design, and the
    specification must refuse it: a check of the specification itself."""
    cfg = cfg_text(init=init, next_=next_, spec=spec, consts=consts, invs=invs, deadlock=deadlock, props=props,
                   constraint=constraint, view=view)
    rc, out, st = tlc(work, module, cfg, timeout=timeout, workers=workers)
    if expect:
        if not re.search(r"is violated|(were|was) violated", out):
            raise CheckError("the specification does not refuse the broken design %s %s:\n%s"
                             % (module, consts, clean(out)[-2000:]))
    elif rc != 0 or "No error has been found" not in out:
        raise CheckError("the specification %s %s does not satisfy its properties (rc %d):\n%s"
                         % (module, consts, rc, clean(out)[-3000:]))
    st["consts"] = {k: str(v) for k, v in consts.items()}
    st["invariants"] = list(invs) + list(props)
    if expect:
        st["refused_as_expected"] = True
    return st


def generate(work, module, n, seed=None, consts=None, timeout=300):
    """n random scripts from a generator module (TLC simulation, seeded)."""
    c = dict(consts or {})
    c["N"] = n
    cfg = cfg_text(consts=c, invs=["Show"])
    rc, out, st = tlc(work, module, cfg, workers=1, timeout=timeout,
                      args=["-simulate", "num=1", "-depth", str(n + 1), "-seed", str(SEED if seed is None else seed)])
    l = scripts_of(out)
    if rc != 0 or len(l) < n:
        raise CheckError("generator %s gave %d of %d scripts:\n%s" % (module, len(l), n, clean(out)[-2000:]))
    return l, st


def enumerate_scripts(work, module, consts=None, timeout=600):
    """All scripts of a finite generator module (one per initial state)."""
    cfg = cfg_text(consts=consts, invs=["Show"])
    rc, out, st = tlc(work, module, cfg, workers=1, timeout=timeout)
    l = scripts_of(out)
    if rc != 0 or not l:
        raise CheckError("generator %s failed:\n%s" % (module, clean(out)[-2000:]))
    return l, st


def scripts_of(out):
    l = []
    for m in re.finditer(r'^<<"SCRIPT", (".*")>>$', out, flags=re.M):
        l.append(json.loads(json.loads(m.group(1))))
    return l


# ------------------------------------------------------------------ scripts

def run_script(vh, script, env=None, timeout=120):
    """One execution of the real code in its own process.  Returns a trace."""
    e = dict(os.environ)
    e["GOMAXPROCS"] = "4"
    e["GOTRACEBACK"] = "all"
    e.update(env or {})
    t0 = time.time()
    try:
        r = subprocess.run([vh, "one"], input=json.dumps(script).encode(), capture_output=True, timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        return {"script": script, "events": [], "error": "the driver did not end", "wall": time.time() - t0}
    ev, bad = [], None
    for line in r.stdout.decode("utf8", "replace").splitlines():
        try:
            ev.append(json.loads(line))
        except ValueError:
            bad = line
    err = r.stderr.decode("utf8", "replace")
    tr = {"script": script, "events": ev, "error": None, "wall": time.time() - t0}
    m = re.search(r"^LAG (\d+)$", err, flags=re.M)
    tr["lag"] = int(m.group(1)) if m else 0
    if r.returncode == 0:
        if bad:
            tr["error"] = "bad event line %r" % bad[:200]
        return tr
    m = re.search(r"^(panic: .*|fatal error: .*)$", err, flags=re.M)
    if m and "github.com/childe/healer" in first_stack(err, m.group(1)):
        # the crashing goroutine was in healer's code
        tr["events"].append({"ev": "Crash", "msg": re.sub(r"[^ -~]", "?", m.group(1))[:160]})
        tr["stderr"] = err[:6000]
        return tr
    if m and "WaitGroup" in m.group(1) or "all goroutines are asleep" in err:
        pass
    tr["error"] = "driver exit %d: %s" % (r.returncode, err[-1500:])
    return tr


def first_stack(err, head):
    """The stack of the goroutine that crashed."""
    i = err.find(head)
    rest = err[i:]
    j = rest.find("\ngoroutine ")
    if j < 0:
        return rest[:4000]
    k = rest.find("\n\n", j + 1)
    return rest[j:k if k > 0 else None]


def run_scripts(vh, scripts, jobs=None, env=None, timeout=120, enough=6):
    """Runs all scripts, several at a time.  Stops starting new ones once a few
    executions hung or crashed: those decide."""
    out = [None] * len(scripts)
    stop = []

    def one(i):
        if len(stop) >= enough:
            return None
        t = run_script(vh, scripts[i], env, timeout)
        if any(e["ev"] in ("Hang", "Crash") for e in t["events"][-3:]):
            stop.append(i)
        return t

    with cf.ThreadPoolExecutor(jobs or 2 * JOBS) as ex:
        for i, t in enumerate(ex.map(one, range(len(scripts)))):
            out[i] = t
    res = []
    for i, t in enumerate(out):  # a driver that failed gets one more chance, alone
        if t is None:
            continue
        if t["error"]:
            t = run_script(vh, scripts[i], env, timeout)
            if t["error"]:
                raise CheckError("script %s: %s" % (json.dumps(scripts[i])[:600], t["error"]))
        res.append(t)
    return res


# ------------------------------------------------------------------ traces

def validate(work, module, traces, prop, consts=None, subst=None, timeout=600, shards=None):
    """Returns (rejected: {trace index: event number}, stats)."""
    todo = [(i, t) for i, t in enumerate(traces)]
    n = shards or min(JOBS, max(1, sum(len(t["events"]) for t in traces) // 4000))
    parts = [todo[k::n] for k in range(n)]
    broken = [0]
    rej, st = {}, {"module": module, "states": 0, "distinct": 0, "traces": len(traces),
                   "events": sum(len(t["events"]) for t in traces)}

    def one(part):
        if not part:
            return {}, None
        f = work.path("traces-%s-%d-%d.ndjson" % (module, part[0][0], time.time_ns()))
        with open(f, "w") as h:
            for i, t in part:
                h.write(json.dumps({"id": str(i), "cfg": t["cfg"], "events": t["events"]}) + "\n")
        c = {"Prop": prop}
        c.update(consts or {})
        cfg = cfg_text(spec="TSpec", consts=c, subst=subst, post="Accepted", view="TView")
        rc, out, s = tlc(work, module, cfg, workers=1, env={"TRACES": f}, timeout=timeout)
        os.unlink(f)
        r = {}
        for m in re.finditer(r'<<"REJECTED", (\d+), (\d+)>>', out):
            r[part[int(m.group(1)) - 1][0]] = int(m.group(2))
        fine = "Model checking completed. No error has been found" in out
        if (not fine or rc != 0) and re.search(r"Attempted to|evaluating|overflow", out) and broken[0] < 3:
            # the specification gives an event no meaning at all: find the trace
            if len(part) == 1:
                broken[0] += 1
                return {part[0][0]: max(1, min(len(part[0][1]["events"]), len(re.findall(r"^State \d+:", out, flags=re.M))))}, s
            r, s = {}, {"states": 0, "distinct": 0}
            for half in (part[:len(part) // 2], part[len(part) // 2:]):
                r2, s2 = one(half)
                r.update(r2)
                s = {x: s[x] + s2[x] for x in s}
            return r, s
        if not fine or rc != 0:
            raise CheckError("trace validation with %s failed (rc %d):\n%s" % (module, rc, clean(out)[-3000:]))
        return r, s

    with cf.ThreadPoolExecutor(n) as ex:
        for r, s in ex.map(one, parts):
            rej.update(r)
            if s:
                st["states"] += s["states"]
                st["distinct"] += s["distinct"]
    return rej, st


# ------------------------------------------------------------------ known findings

def known_findings():
    l = []
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        l = json.load(open(p))["findings"]
    return l


def replay_file(prop, tr, at, note):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(tr["script"], sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s.json" % (prop, h))
    json.dump({"property": prop, "script": tr["script"], "refused_event": at,
               "event": tr["events"][at - 1] if 0 < at <= len(tr["events"]) else None,
               "note": note, "events": tr["events"], "stderr": tr.get("stderr", "")}, open(p, "w"), indent=1)
    return p
