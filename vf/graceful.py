"""Graceful-shutdown middleware engine: GracefulSys / GracefulMon."""
from . import lib
PART = "Graceful"
SYS = "GracefulSys"
INV = ["NoViolation"]
VIEW = "View"
PROPS = ["C26"]
QUICK_REPS = 4
QUICK_CAP = 6000
QUICK_SIM = 400
THOROUGH_SIM = 3000
THOROUGH_CAP = 60000
DEPTH = 200

def design_configs(tier, prop):
    q = [dict(NReq=3, NShut=2, MaxEnv=8, Sync=s, Atomic=True) for s in (False, True)]
    if tier == "quick":
        return q
    return q + [dict(NReq=4, NShut=2, MaxEnv=10, Sync=s, Atomic=True) for s in (False, True)] + [dict(NReq=5, NShut=1, MaxEnv=11, Sync=False, Atomic=True)]

def negative_configs(tier, prop):
    return [dict(NReq=2, NShut=1, MaxEnv=6, Sync=False, Atomic=False)]

def gen_configs(tier, prop):
    return [dict(NReq=3, NShut=1, MaxEnv=7, Sync=False, Atomic=True), dict(NReq=6, NShut=2, MaxEnv=14, Sync=False, Atomic=True),
            dict(NReq=4, NShut=1, MaxEnv=9, Sync=True, Atomic=True), dict(NReq=8, NShut=3, MaxEnv=19, Sync=False, Atomic=True)]

def expand(hist, consts, r, k, prop):
    cfg = dict(sync=consts["Sync"], conns=r.choice([1, 1, 2, 3]), pre=r.choice([0, 0, 1, 2]), post=r.choice([0, 0, 1, 2]), panics=r.random() < 0.2)
    lib.add_yield(cfg, r)
    if r.random() < 0.3:
        cfg.update(jit=r.choice([1, 5, 30]), jitpct=r.choice([20, 60]))
    steps = []
    last = 0
    for h in hist:
        st = dict(h)
        if st["a"] == "req":
            st["kind"] = "notify" if r.random() < 0.2 else "call"
            last = st["k"]
        if st["a"] == "shut":
            if last and r.random() < 0.7:
                st["on"] = last + r.choice([0, 0, 0, 1])
                st["spin"] = r.choice([0, 0, 1, 2, 3, 5, 9])
                cfg["pre"] = cfg["pre"] or 1
                st["q"] = False
            elif r.random() < 0.7:
                st["spin"] = r.randint(0, r.choice([10, 40, 150, 500]))
        if r.random() < 0.1:
            st["dt"] = r.choice([1, 50, 99, 100, 101, 300])
        if r.random() < 0.5:
            st["q"] = False
        steps.append(st)
    return {"engine": "graceful", "cfg": cfg, "steps": steps}

def interesting(tr, prop):
    es = [e["e"] for e in tr["ev"]]
    return "HB" in es and "ShutB" in es
