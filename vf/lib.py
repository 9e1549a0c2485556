"""Shared machinery of the checks: TLC runs, scenario generation, harness runs, trace validation, evidence."""
import json, os, random, re, shutil, subprocess, sys, tempfile, threading, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = "/repo"
NCPU = max(2, min(8, os.cpu_count() or 2))

class CheckError(Exception):
    pass

def log(*a):
    print("[%7.1fs]" % (time.time() - T0), *a, flush=True)
T0 = time.time()

# ---------------------------------------------------------------- TLC
TLC_JAR = "/opt/veriftools/tla/tla2tools.jar"

def tlc_cmd(heap="3g"):
    return ["tlc"]

def run_tlc(work, module, cfg_text, args=(), env=None, timeout=600, tag=""):
    """Run TLC in a private directory; returns its output."""
    d = tempfile.mkdtemp(prefix="tlc-%s-" % (tag or module), dir=work)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
    for f in os.listdir(work):
        if f.endswith(".tla") and not os.path.exists(os.path.join(d, f)):
            os.symlink(os.path.join(work, f), os.path.join(d, f))
    with open(os.path.join(d, "M.cfg"), "w") as f:
        f.write(cfg_text)
    e = dict(os.environ)
    e.update(env or {})
    cmd = tlc_cmd() + ["-config", "M.cfg", "-metadir", os.path.join(d, "meta")] + list(args) + [module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as x:
        out = x.stdout or ""
        if isinstance(out, bytes):
            out = out.decode(errors="replace")
        rc = 124
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return rc, out

def cfg_text(consts, spec="Spec", invariants=(), view=None, extra=""):
    s = "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec
    if consts:
        s += "CONSTANTS\n" + "".join("  %s = %s\n" % (k, tla(v)) for k, v in consts.items())
    for i in invariants:
        s += "INVARIANT %s\n" % i
    if view:
        s += "VIEW %s\n" % view
    return s + extra

def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v, key=str)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    raise ValueError(v)

def design_check(work, module, consts, invariants, view=None, timeout=600, workers=4, extra=""):
    """Exhaustive TLC run of the system model.  A violation here is an error of the model, never a verdict."""
    rc, out = run_tlc(work, module, cfg_text(consts, invariants=invariants, view=view, extra=extra),
                      ["-workers", str(workers)], timeout=timeout, tag="design")
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found, 0 states left", out)
    if rc != 0 or not m:
        raise CheckError("design check of %s %s failed (rc=%d):\n%s" % (module, consts, rc, out[:300] + "\n...\n" + out[-1500:]))
    g = lambda i: int(m.group(i).replace(",", ""))
    return {"transitions": g(1), "states": g(2)}

def negative_check(work, module, consts, invariants, view=None, timeout=240, workers=3):
    """TLC must find a violation in a model with a known mistake built in (guards against vacuous properties)."""
    rc, out = run_tlc(work, module, cfg_text(consts, invariants=invariants, view=view), ["-workers", str(workers)], timeout=timeout, tag="neg")
    if rc != 12 or "is violated" not in out:
        raise CheckError("the mistaken model %s %s was not rejected (rc=%d):\n%s" % (module, consts, rc, out[-1500:]))

def simulate(work, module, consts, num, depth, seed, invariant="GenDone", timeout=300, extra=""):
    """Behaviours of the system model, projected to the environment's actions."""
    rc, out = run_tlc(work, module, cfg_text(consts, invariants=[invariant], extra=extra),
                      ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed), "-workers", "1"], timeout=timeout, tag="gen")
    res, seen = [], set()
    for line in out.splitlines():
        if line.startswith('"SCEN '):
            s = json.loads(json.loads(line)[5:])
            k = json.dumps(s, sort_keys=True)
            if k not in seen:
                seen.add(k)
                res.append(s)
    if not res:
        raise CheckError("no behaviours generated from %s: rc=%d %s" % (module, rc, out[-3000:]))
    return res

def enumerate_behaviours(work, module, consts, invariant="GenDone", timeout=600, workers=4, extra="", view=None):
    """All behaviours (breadth first) of a small model: history is part of the state."""
    rc, out = run_tlc(work, module, cfg_text(consts, invariants=[invariant], extra=extra, view=view),
                      ["-workers", str(workers)], timeout=timeout, tag="enum")
    res, seen = [], set()
    for line in out.splitlines():
        if line.startswith('"SCEN '):
            s = json.loads(json.loads(line)[5:])
            k = json.dumps(s, sort_keys=True)
            if k not in seen:
                seen.add(k)
                res.append(s)
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found, 0 states left", out)
    if not res or not m:
        raise CheckError("enumeration of %s failed: rc=%d %s" % (module, rc, out[-3000:]))
    res.sort(key=lambda s: json.dumps(s, sort_keys=True))
    return res

# ---------------------------------------------------------------- harness
def go_env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GO111MODULE="on", GOFLAGS="-mod=readonly", GOTRACEBACK="all")
    e.pop("GOROOT", None)
    return e

def go_bin():
    for p in ("/opt/veriftools/go1.27.3/bin/go", "/opt/veriftools/go1.26.10/bin/go", "/opt/veriftools/go1.25.14/bin/go"):
        if os.path.exists(p):
            return p
    return "go"

_build_lock = threading.Lock()
_built = {}
def build_harness(work, module="harness", pkg="./eng"):
    """Compile the harness against /repo's current working tree."""
    with _build_lock:
        key = (module, pkg)
        if key in _built:
            return _built[key]
        out = os.path.join(work, "h-%s.test" % module)
        ov = os.path.join(work, "ov-" + module)
        os.makedirs(ov, exist_ok=True)
        def run(args, cwd):
            return subprocess.run([go_bin()] + args, cwd=cwd, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        # scheduling points before every statement of arpc (overlay only; /repo is not touched)
        instr = run(["run", "./instr", REPO, ov], os.path.join(VERIF, "harness"))
        plain = ["test", "-c", "-vet=off", "-o", out, pkg]
        p = None
        if instr.returncode == 0:
            p = run(["test", "-c", "-vet=off", "-tags", "verifov", "-overlay", os.path.join(ov, "overlay.json"), "-o", out, pkg], os.path.join(VERIF, module))
        if p is None or p.returncode != 0:
            log("instrumented build failed, building without scheduling points", (p or instr).stdout[-500:])
            p = run(plain, os.path.join(VERIF, module))
        if p.returncode != 0:
            raise CheckError("harness build failed:\n" + p.stdout[-4000:])
        _built[key] = out
        return out

def arpc_panic(err):
    """Did the process die from a panic raised inside (or through) arpc's own code?"""
    m = re.search(r"^(panic: .*|fatal error: .*)$", err, re.M)
    if not m:
        return None
    rest = err[m.start():]
    blocks = re.split(r"\n\n", rest)
    head = "\n\n".join(blocks[:3] if "stack overflow" in m.group(1) else blocks[:2])
    if "lesismal/arpc" in head or "/repo/" in head:
        return m.group(1)[:200]
    return None

HARNESS_BLOCK = re.compile(r"sim\.\(\*Conn\)\.Write|eng\.\(\*cliWorld\)\.dial|eng\.\(\*gate\)|sim\.\(\*Gate\)")
def classify_hang(err):
    """A hang counts as one of the code only if no goroutine waits for the scenario while holding a lock others wait for."""
    gs = [g for g in err.split("\n\n") if g.startswith("goroutine ") and "synctest bubble" in g.split("\n")[0]]
    def user_top(g):   # first frame which is not the runtime's or sync's
        for line in g.split("\n")[1:]:
            if line and not line.startswith(("\t", "sync.", "internal/", "runtime.", "created by")):
                return line
        return ""
    if any("verifharness" in user_top(g) and re.search(r"Mutex", g) for g in gs):
        return None
    locked = [g for g in gs if re.search(r"sync\.\(\*(RW)?Mutex\)|sync\.runtime_SemacquireMutex|internal/sync\.\(\*Mutex\)", g) and "lesismal/arpc" in g]
    spinning = [g for g in gs if re.match(r"goroutine \d+ [^\[]*\[(running|runnable)", g) and "lesismal/arpc" in g]
    held = [g for g in gs if HARNESS_BLOCK.search(g) and "sync.(*Cond).Wait" in g and "lesismal/arpc" in g]
    if locked and not held:
        return "deadlock: " + locked[0].split("\n")[0]
    if spinning and not locked:
        return "livelock: " + spinning[0].split("\n")[0]
    return None

def run_harness(binary, scens, work, watch=25, timeout=600, shards=None, extra_env=None):
    """Run scenarios in child processes; returns list of traces {i,id,cfg,ev}."""
    shards = shards or min(NCPU, max(1, len(scens) // 4 + 1))
    sf = os.path.join(work, "scen-%s.jsonl" % hashlib.md5(os.urandom(8)).hexdigest()[:8])
    with open(sf, "w") as f:
        for s in scens:
            f.write(json.dumps(s) + "\n")
    stats = {"crashes": 0, "hangs": 0, "inconclusive": 0, "failed": []}
    deadline = time.time() + timeout
    lock = threading.Lock()
    traces = []
    def shard(k):
        nxt, hangs = k, 0
        while nxt < len(scens):
            of = "%s.out%d" % (sf, k)
            pf = "%s.prog%d" % (sf, k)
            for x in (of, pf):
                if os.path.exists(x):
                    os.remove(x)
            env = go_env()
            env["GOMAXPROCS"] = str([1, 2, 1, 4][k % 4])
            env.update(extra_env or {})
            left = deadline - time.time()
            if left <= 1:
                raise CheckError("harness ran out of time")
            ef = "%s.err%d" % (sf, k)
            try:
                with open(ef, "wb") as efh:
                    p = subprocess.run([binary, "-test.run", "^TestRun$", "-test.timeout", "0", "-scen", sf, "-out", of, "-prog", pf,
                                        "-from", str(nxt), "-stride", str(shards), "-watch", str(watch)],
                                       env=env, cwd=work, stdout=efh, stderr=subprocess.STDOUT, timeout=left)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                raise CheckError("harness shard exceeded its time limit")
            err = open(ef, errors="replace").read()
            got = []
            if os.path.exists(of):
                for line in open(of):
                    if line.endswith("\n"):
                        got.append(json.loads(line))
            prog = open(pf).read().split() if os.path.exists(pf) else []
            with lock:
                traces.extend(got)
            if prog and prog[-1] == "done" and rc == 0:
                return
            if not prog:
                raise CheckError("harness did not start: rc=%s %s" % (rc, err[-2000:]))
            if prog[-1] == "done":
                return
            i = int(prog[-1])
            ev = None
            if "VERIF-HANG" in err:
                why = classify_hang(err)
                with lock:
                    stats["hangs"] += 1
                hangs += 1
                if why:
                    ev = {"e": "Hang", "why": why, "t": 0}
                if hangs > 3:
                    nxt = len(scens)
            else:
                why = arpc_panic(err)
                with lock:
                    stats["crashes"] += 1
                if why:
                    ev = {"e": "Crash", "why": why, "t": 0}
                elif rc < 0 and rc != -6:
                    raise CheckError("harness killed by signal %d" % -rc)
                else:
                    # not attributable to arpc: the check gives no answer unless other traces show a violation
                    with lock:
                        stats["failed"].append("harness failed on scenario %d: %s" % (i, err[:3000]))
                        if len(stats["failed"]) > 20:
                            raise CheckError(stats["failed"][0])
            with lock:
                if ev:
                    keep = os.path.join(VERIF, "replays")
                    os.makedirs(keep, exist_ok=True)
                    lf = os.path.join(keep, "crash-%s.log" % hashlib.md5(err.encode()).hexdigest()[:8])
                    with open(lf, "w") as f:
                        f.write(err[:200000])
                    ev["log"] = lf
                    traces.append({"i": i, "id": scens[i]["id"], "cfg": scens[i]["cfg"], "ev": [ev]})
                else:
                    stats["inconclusive"] += 1
            if nxt < len(scens):
                nxt = i + shards
    with ThreadPoolExecutor(shards) as ex:
        for f in [ex.submit(shard, k) for k in range(shards)]:
            f.result()
    traces.sort(key=lambda x: x["i"])
    if len(traces) + stats["inconclusive"] < len(scens) and not stats["hangs"]:
        raise CheckError("only %d of %d scenarios reported" % (len(traces), len(scens)))
    return traces, stats

# ---------------------------------------------------------------- trace validation
def validate(work, part, traces, timeout=600, workers=NCPU, depth=0):
    """TLC decides for every recorded trace which properties its events break."""
    tm = open(os.path.join(SPEC, "Trace.tmpl")).read().replace("@PART@", part)
    with open(os.path.join(work, "Trace%s.tla" % part), "w") as f:
        f.write(tm)
    tf = os.path.join(work, "traces-%s-%d.jsonl" % (part, len(traces)))
    with open(tf, "w") as f:
        for k, tr in enumerate(traces):
            f.write(json.dumps({"i": k, "cfg": tr["cfg"], "ev": tr["ev"]}) + "\n")
    rc, out = run_tlc(work, "Trace" + part, cfg_text({}), ["-workers", str(workers)], env={"TRACES": tf}, timeout=timeout, tag="trace")
    if rc not in (0, 124) and re.search(r"^/\\ tid = \d+", out, re.M) and "Attempted to" in out and "StackOverflow" not in out and depth < 6:
        # an event which the specification gives no meaning to: that trace is not a behaviour of the specification
        k = int(re.findall(r"^/\\ tid = (\d+)", out, re.M)[-1]) - 1
        l = int(re.findall(r"^/\\ l = (\d+)", out, re.M)[-1])
        log("trace", k, "is not a behaviour of the specification at event", l + 1)
        rest = [t for j, t in enumerate(traces) if j != k]
        b, f, st = validate(work, part, rest, timeout, workers, depth + 1)
        up = lambda j: j if j < k else j + 1
        bad = {up(j): v for j, v in b.items()}
        first = {(up(j), p): v for (j, p), v in f.items()}
        bad[k] = ["*"]
        first[(k, "*")] = l + 1
        return bad, first, st
    bad = {}
    first = {}
    n = 0
    for m in re.finditer(r'<<\s*"TRACE",\s*(\d+),\s*(\d+),\s*\{([^}]*)\}\s*>>', out):
        n += 1
        ps = re.findall(r'"(\w+)"', m.group(3))
        if ps:
            bad[int(m.group(1))] = sorted(ps)
    for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*\{([^}]*)\}\s*>>', out):
        for p in re.findall(r'"(\w+)"', m.group(3)):
            first.setdefault((int(m.group(1)), p), int(m.group(2)))
    g = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found, 0 states left", out)
    if rc != 0 or n != len(traces) or not g:
        raise CheckError("trace validation with %s failed: rc=%d, %d of %d traces judged\n%s" % (part, rc, n, len(traces), out[-3500:]))
    return bad, first, {"trace_states": int(g.group(2).replace(",", ""))}

def ev_count(traces):
    c = {}
    for tr in traces:
        for e in tr["ev"]:
            c[e["e"]] = c.get(e["e"], 0) + 1
    return c

def add_yield(cfg, r):
    """How the scheduling points of the instrumented build behave in a scenario."""
    if r.random() < 0.7:
        cfg["yield"] = r.choice([10, 50, 150, 400])
        cfg["yburst"] = r.choice([0, 2, 8, 30])

def build_all(work):
    build_harness(work)
