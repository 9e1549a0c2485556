"""JavaScript client engine: JsSys / JsMon; the client runs in node with fake sockets and timers."""
import json, os, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import lib
PART = "Js"
SYS = "JsSys"
INV = ["NoViolation"]
VIEW = "View"
PROPS = ["C30"]
QUICK_REPS = 4
QUICK_CAP = 6000
QUICK_SIM = 400
THOROUGH_SIM = 4000
THOROUGH_CAP = 60000
DEPTH = 200
NO = dict(Keep=False, Late=False, Rest=False)

def design_configs(tier, prop):
    q = [dict(MaxEnv=6, MaxCall=2, **NO), dict(MaxEnv=5, MaxCall=3, **NO)]
    return q if tier == "quick" else q + [dict(MaxEnv=8, MaxCall=3, **NO)]

def negative_configs(tier, prop):
    return [dict(MaxEnv=6, MaxCall=2, **{**NO, k: True}) for k in NO]

def gen_configs(tier, prop):
    return [dict(MaxEnv=8, MaxCall=3, **NO), dict(MaxEnv=16, MaxCall=6, **NO), dict(MaxEnv=30, MaxCall=10, **NO)]

METHODS = ["m", "/call", "/grüße/\u4f60\u597d", "x" * 127]
HANDLERS = ["a", "/note", "/ünï", "y" * 100]

def run(work, scens, tier):
    client = os.path.join(lib.REPO, "extension/jsclient/arpc.js")
    sf, n = os.path.join(work, "js.scen"), min(lib.NCPU, 6)
    with open(sf, "w") as f:
        for s in scens:
            f.write(json.dumps(s) + "\n")
    def one(k):
        of = os.path.join(work, "js.out%d" % k)
        p = subprocess.run(["node", os.path.join(lib.VERIF, "jsharness/run.js"), sf, of, client, str(k), str(n)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600 if tier == "quick" else 3600)
        got = [json.loads(l) for l in open(of)] if os.path.exists(of) else []
        return got, p.returncode, p.stdout
    traces, failed = [], []
    with ThreadPoolExecutor(n) as ex:
        for got, rc, out in ex.map(one, range(n)):
            traces += got
            if rc != 0:
                failed.append("node: rc=%d %s" % (rc, out[-2000:]))
    traces.sort(key=lambda t: t["i"])
    if not failed and len(traces) != len(scens):
        failed.append("only %d of %d scenarios reported" % (len(traces), len(scens)))
    return traces, {"crashes": 0, "hangs": 0, "inconclusive": len(scens) - len(traces), "failed": failed}

def expand(hist, consts, r, k, prop):
    cfg = dict(handlers=HANDLERS, keep=r.random() < 0.15, boom=r.random() < 0.2, seq0=r.choice([0, 0, 0, 200, 255, 256, 65530, 70000, 16777210, 1 << 24]))
    steps = [{"a": "open"}] if r.random() < 0.8 else []
    nid = 0
    http = r.random() < 0.3
    KIND = ["s", "s", "u", "u", "o", "o", "n", "n", "z", "f", "e", ""] + (["b"] if r.random() < 0.2 else [])
    for h in hist:
        st = dict(h)
        nid += 1
        if r.random() < 0.1:
            st["dt0"] = r.choice([1, 2, 4])
        if st["a"] == "call":
            st.update(m=r.choice(METHODS), kind=r.choice(KIND), cb=r.random() < 0.3, http=http and r.random() < 0.5)
            if st["to"] and r.random() < 0.3:
                st["to"] = r.choice([1, 2, 8, 20])
        elif st["a"] == "pkt":
            q = {"": [], "note": ["note"], "none": ["none"], "ping": ["ping"]}[st.pop("pre")]
            fr = [{"what": w, "m": "/nobody" if w == "none" else r.choice(HANDLERS), "kind": r.choice(KIND)} for w in q] + [{"what": "rsp"}]
            for _ in range(r.choice([0, 0, 1, 2, 5])):
                w = r.choice(["note", "note", "req", "none", "ping", "pong", "stream", "nometh", "unknown", "other", "rsp"])
                fr.insert(r.randint(0, len(fr)), {"what": w, "m": "/nobody" if w == "none" else r.choice(HANDLERS), "kind": r.choice(KIND), "q": r.randint(0, 9)})
            st.update(frames=fr, m=r.choice(METHODS), kind=r.choice(["s", "u", "o", "e", "z"]) if not st["er"] else r.choice(["s", "u", "o"]), id=nid, fail=r.random() < 0.2)
        elif st["a"] == "down":
            st["error"] = r.random() < 0.5
        elif st["a"] == "shut" and r.random() < 0.7:
            st = {"a": "note", "n": 500 + nid, "m": r.choice(METHODS), "kind": r.choice(KIND), "http": http and r.random() < 0.3}
        if r.random() < 0.1:
            steps.append({"a": "note", "n": 800 + nid, "m": r.choice(METHODS), "kind": r.choice(KIND), "rep": r.choice([1, 1, 1, 40])})
        if r.random() < 0.2:
            st["nq"] = True
        steps.append(st)
    return {"engine": "js", "cfg": cfg, "steps": steps}

def interesting(tr, prop):
    return any(e["e"] == "Settle" for e in tr["ev"])
