"""Handler engine: HdSys / HdMon (isolation of handlers, conflict-free registration)."""
from . import lib
PART = "Hd"
SYS = "HdSys"
INV = ["NoViolation"]
VIEW = "View"
PROPS = ["C31"]
QUICK_REPS = 2
QUICK_CAP = 1800
QUICK_SIM = 160
THOROUGH_SIM = 2500
THOROUGH_REPS = 4
THOROUGH_CAP = 20000
DEPTH = 60
ALL = {"new", "cli", "srv", "clone", "use", "coder", "nf", "cancel", "hook", "handle", "stream", "set"}

def design_configs(tier, prop):
    q = [dict(NH=2, MaxEnv=3, Mistake="", Judge=True, Acts=ALL), dict(NH=3, MaxEnv=5, Mistake="", Judge=True, Acts={"clone", "use", "handle"}), dict(NH=3, MaxEnv=6, Mistake="", Judge=True, Acts={"clone", "coder"}),
         dict(NH=3, MaxEnv=5, Mistake="", Judge=True, Acts={"clone", "hook", "set"}), dict(NH=3, MaxEnv=5, Mistake="", Judge=True, Acts={"clone", "stream", "set"})]
    if tier == "quick":
        return q
    return q + [dict(NH=3, MaxEnv=4, Mistake="", Judge=True, Acts=ALL), dict(NH=3, MaxEnv=7, Mistake="", Judge=True, Acts={"clone", "use", "handle"}), dict(NH=3, MaxEnv=6, Mistake="", Judge=True, Acts={"clone", "hook", "set"})]

def negative_configs(tier, prop):
    return [dict(NH=2, MaxEnv=7, Mistake=m, Judge=True, Acts=a) for m, a in (("routes", {"clone", "handle"}), ("chains", {"clone", "handle", "use"}), ("mids", {"clone", "handle", "use"}),
            ("coders", {"clone", "coder"}), ("streams", {"clone", "stream"}), ("late", {"clone", "hook"}))]

def gen_configs(tier, prop):
    return [dict(NH=3, MaxEnv=12, Mistake="", Judge=False, Acts=ALL), dict(NH=5, MaxEnv=25, Mistake="", Judge=False, Acts=ALL), dict(NH=3, MaxEnv=14, Mistake="", Judge=False, Acts={"clone", "use", "handle", "srv", "nf"}),
            dict(NH=4, MaxEnv=16, Mistake="", Judge=False, Acts={"clone", "hook", "set", "cli"}), dict(NH=3, MaxEnv=14, Mistake="", Judge=False, Acts={"clone", "coder", "stream", "handle"}),
            dict(NH=3, MaxEnv=10, Mistake="", Judge=False, Acts={"clone", "use", "handle"}), dict(NH=3, MaxEnv=8, Mistake="", Judge=False, Acts={"clone", "use", "coder"})]

SETS = {"logtag": ["", "t1", "t2"], "batchRecv": ["true", "false"], "batchSend": ["true", "false"], "asyncWrite": ["true", "false"], "asyncResponse": ["true", "false", "false"],
        "recvBuf": ["16", "100", "4096", "65536"], "sendBuf": ["0", "7", "1024"], "readTO": ["0", "1000000", "5"], "writeTO": ["0", "1000000", "7"], "sendQ": ["1", "9", "100"],
        "streamQ": ["1", "9", "100"], "maxBody": ["10", "1000", "100000"], "maxRe": ["0", "3", "9"]}
HOOKS = ["conn", "disc", "done", "done", "ctxd", "brecv", "bsend", "malloc", "append", "free", "exec", "over", "over", "drop", "drop", "miss", "wrap"]

def expand(hist, consts, r, k, prop):
    cfg = dict(n=len(hist))
    lib.add_yield(cfg, r)
    steps = []
    if r.random() < 0.5:
        # runs of the same registration, and a look at everything's middleware at the end
        hist = [h for h in hist for _ in range(r.randint(1, 4) if h["a"] in ("use", "coder") else 1)]
        hist = hist + [dict(a="handle", h=i, m="L") for i in range(consts["NH"])]
        r.random() < 0.5 and hist.insert(0, dict(a="use", h=0))
    for j, h in enumerate(hist):
        st = dict(h)
        a = st["a"]
        st["pkg"] = r.random() < 0.5
        st["skip"] = r.random() < 0.5
        x = "%s%d" % (a[0], j)
        if a == "set":
            st["k"] = r.choice(sorted(SETS)) if r.random() < 0.8 else r.choice(["asyncResponse", "recvBuf"])
            st["v"] = r.choice(SETS[st["k"]])
        elif a == "hook":
            st["k"] = r.choice(HOOKS)
            x = ("f:" if st["k"] in ("malloc", "append", "free") else "d:" if st["k"] == "done" else "k:") + "%d" % j
            if st["k"] != "wrap" and r.random() < 0.15:
                x = ""
        elif a in ("use", "coder") and r.random() < 0.08:
            x = ""
        elif a == "cli":
            st["kind"] = r.choice(["client", "client", "pool", "pools"])
        elif a == "cancel" and r.random() < 0.4:
            st["a"] = "pooloff"
        elif a in ("handle", "stream"):
            st["as"] = r.choice(["def", "def", "true", "false", "other"])
            q = r.random()
            if j >= len(hist) - consts["NH"]:
                pass
            elif q < 0.1:
                st["m"] = "L"
            elif q < 0.25:
                st["m"] = "XL"
            elif q < 0.3 and a == "handle":
                st["m"] = ""
        st["x"] = x
        steps.append(st)
    return {"engine": "handler", "cfg": cfg, "steps": steps}

def interesting(tr, prop):
    return any(e["e"] in ("Clone", "Srv", "Cli") for e in tr["ev"])

def extra(tier, prop, r):
    # the region of the model in which copies which share memory differ: several registrations of one kind, a copy, registrations on both sides
    res = []
    for _ in range(240 if tier == "quick" else 3000):
        kind = r.choice(["use", "use", "coder"])
        h = []
        if r.random() < 0.5:
            h.append(dict(a="handle", h=0, m="a"))
        h += [dict(a=kind, h=0)] * r.randint(1, 7)
        h.append(r.choice([dict(a="clone", f=0), dict(a="clone", f=0), dict(a="srv"), dict(a="cli")]))
        if r.random() < 0.4:
            h += [dict(a=kind, h=r.choice([0, 1]))] * r.randint(0, 2) + [dict(a="clone", f=r.choice([0, 1]))]
        h += [dict(a=kind, h=r.choice([0, 1, 2])) for _ in range(r.randint(2, 5))]
        res.append(expand(h, dict(NH=3), r, 0, prop))
    return res
