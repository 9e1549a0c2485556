"""Buffer ownership engine: BufSys / BufMon."""
from . import lib
PART = "Buf"
SYS = "BufSys"
INV = ["NoViolation", "Counted"]
VIEW = "View"
PROPS = ["C20"]
QUICK_REPS = 6
QUICK_CAP = 3000
QUICK_SIM = 200
THOROUGH_SIM = 2000
THOROUGH_REPS = 8
DEPTH = 400
NO = dict(NoRetain=False, Early=False, Twice=False)

def design_configs(tier, prop):
    q = [dict(NL=2, QS=1, MaxEnv=4, **NO), dict(NL=1, QS=2, MaxEnv=6, **NO)]
    if tier == "quick":
        return q
    return q + [dict(NL=2, QS=2, MaxEnv=5, **NO), dict(NL=3, QS=1, MaxEnv=4, **NO), dict(NL=2, QS=1, MaxEnv=6, **NO)]

def negative_configs(tier, prop):
    return [dict(NL=2, QS=1, MaxEnv=4, **{**NO, k: True}) for k in NO]

def gen_configs(tier, prop):
    return [dict(NL=2, QS=1, MaxEnv=8, **NO), dict(NL=2, QS=2, MaxEnv=16, **NO), dict(NL=4, QS=2, MaxEnv=24, **NO), dict(NL=6, QS=3, MaxEnv=30, **NO)]

def alloc(r, n):
    small, big = r.choice([(64, 64), (64, 128), (64, 1024), (16, 64), (0, 0), (100, 50), (1, 2)])
    cfg = dict(alloc=True, small=small, big=big, debug=r.random() < 0.3, calm=False)
    sizes = [1, 2, 15, 16, 17, 63, 64, 65, 100, 127, 128, 129, 300, 1023, 1024, 1025, 5000] + [big, big + 1, max(1, big - 1), small + 1]
    no = r.choice([1, 2, 3, 5])
    steps = []
    for _ in range(4 * n):
        steps.append(dict(a=r.choice(["malloc", "malloc", "realloc", "append", "appends", "free", "free"]), o=r.randint(1, no), size=r.choice(sizes)))
    lib.add_yield(cfg, r)
    if r.random() < 0.5:
        cfg.update(jit=r.choice([1, 3]), jitpct=r.choice([30, 70]))
    return {"engine": "buf", "cfg": cfg, "steps": steps}

def expand(hist, consts, r, k, prop):
    if r.random() < 0.12:
        return alloc(r, len(hist))
    nl = consts["NL"]
    nc = nl // 2
    calm = r.random() < 0.3
    cfg = dict(nc=nc, calm=calm, pool=r.choice(["enable", "enable", "enable", "hooks", "builtin"]), smode=r.choice(["batch", "batch", "normal", "direct"]), cmode=r.choice(["batch", "batch", "normal", "direct"]),
               queue=4096 if calm else r.choice([1, 2, 3, 8, 100]), sbuf=r.choice([0, 1, 40, 2048, 100000]), chunk=r.choice([0, 0, 3, 50]), miss=r.random() < 0.6, any=r.random() < 0.5,
               norecvbuf=r.random() < 0.2, drain=3000 if calm else r.choice([0, 100, 3000]), abrupt=(not calm) and r.random() < 0.3)
    cfg["async"] = r.random() < 0.5
    lib.add_yield(cfg, r)
    if r.random() < 0.4:
        cfg.update(jit=r.choice([1, 5, 60]), jitpct=r.choice([20, 60]))
    steps = []
    m = 0
    def payload(st):
        nonlocal m
        m += 1
        st["m"] = "m%d" % m
        st["size"] = r.choice([0, 0, 1, 17, 60, 100, 500, 3000] + ([9000] if cfg["chunk"] != 3 else []))
        st["bytes"] = r.random() < 0.4
        st["to"] = 60000 if calm else r.choice([1, 10, 40, 100, 1000, 60000])
        return st
    KINDS = ["note", "sink", "notectx", "push", "call", "call", "slow", "err", "none", "async", "async", "aslow", "aerr", "str", "str", "str", "strend"] + ([] if calm else ["note0"])
    for h in hist:
        if calm and h["a"] not in ("sub", "bcast"):
            h = dict(h, a="sub")
        st = dict(h)
        if r.random() < 0.5:
            st["q"] = False
        if r.random() < 0.15:
            st["dt"] = r.choice([1, 20, 45, 51, 200])
        if h["a"] == "stall" and h["l"] > nc and cfg["smode"] == "direct":
            st["l"] = h["l"] - nc      # a broadcast which writes directly holds the server's lock while it waits
        if h["a"] == "cut":
            st["rst"] = r.random() < 0.5
        n = 1
        if h["a"] in ("sub", "bcast"):
            payload(st)
            if h["a"] == "bcast":
                st["filter"] = r.random() < 0.25
            else:
                st["kind"] = r.choice(KINDS)
                st["ctx"] = r.random() < 0.4
                n = r.choice([1, 1, 2, 4])
        steps.append(st)
        for _ in range(n - 1):
            s2 = payload(dict(st, q=False))
            s2.pop("dt", None)
            if r.random() < 0.5:
                s2["kind"] = r.choice(KINDS)
            steps.append(s2)
    return {"engine": "buf", "cfg": cfg, "steps": steps}

def interesting(tr, prop):
    return any(e["e"] in ("Free", "Own") for e in tr["ev"]) or tr["cfg"].get("pool") == "builtin"
