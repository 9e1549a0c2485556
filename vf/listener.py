"""Dual listener engine: LnSys / LnMon."""
from . import lib
PART = "Ln"
SYS = "LnSys"
INV = ["NoViolation"]
VIEW = "View"
PROPS = ["C27"]
QUICK_REPS = 1
QUICK_CAP = 1500
QUICK_SIM = 300
THOROUGH_SIM = 3000
THOROUGH_REPS = 3
THOROUGH_CAP = 12000
DEPTH = 150
SHARDS = 8
OK = dict(NoRestore=False, OffByOne=False, ErrEnds=False, LeakLate=False, OnlyA=False, NoLnClose=False)

def design_configs(tier, prop):
    q = [dict(NConn=3, Max=1, MaxEnv=4, MinEnv=1, NErr=1, **OK), dict(NConn=3, Max=0, MaxEnv=3, MinEnv=1, NErr=0, **OK)]
    if tier == "quick":
        return q
    return q + [dict(NConn=4, Max=1, MaxEnv=6, MinEnv=1, NErr=1, **OK), dict(NConn=4, Max=2, MaxEnv=6, MinEnv=1, NErr=0, **OK)]

def negative_configs(tier, prop):
    return [dict(NConn=3, Max=1, MaxEnv=5, MinEnv=1, NErr=1, **{**OK, m: True}) for m in OK]

def gen_configs(tier, prop):
    return [dict(NConn=3, Max=1, MaxEnv=5, MinEnv=3, NErr=0, **OK), dict(NConn=5, Max=2, MaxEnv=8, MinEnv=6, NErr=0, **OK), dict(NConn=6, Max=0, MaxEnv=6, MinEnv=4, NErr=0, **OK),
            dict(NConn=4, Max=1, MaxEnv=7, MinEnv=5, NErr=1, **OK), dict(NConn=6, Max=3, MaxEnv=11, MinEnv=9, NErr=0, **OK)]

def expand(hist, consts, r, k, prop):
    mx = consts["Max"]
    cfg = dict(max=mx if mx else r.choice([0, 0, -1]), late=r.random() < 0.1)
    lib.add_yield(cfg, r)
    cfg.pop("yburst", None)
    pace = r.choice([0, 0, 200, 1500, 4000])
    steps, nk = [], 100
    for h in hist:
        st = dict(h)
        if st["a"] == "end":
            continue
        if r.random() < 0.7:
            st["us"] = r.randint(0, pace)
        if st["a"] == "off":
            st["shut"] = r.random() < 0.5
            st["wait"] = r.choice([0, 0, 20])
        steps.append(st)
        if nk == 100 and r.random() < 0.05 and not any(s["a"] == "err" for s in hist):
            n = 2
            steps.append(dict(a="burst", n=n, k=nk))
            nk += n
    if cfg["late"]:
        steps.insert(r.randrange(len(steps)), dict(a="run"))
    # descriptors are counted per process: concurrent dials and accepts would change the count
    return {"engine": "listener", "cfg": dict(cfg, max=max(0, cfg["max"]), neg=cfg["max"] < 0), "steps": steps}

def interesting(tr, prop):
    return sum(e["e"] == "Got" for e in tr["ev"]) > 1
