"""Client pool engine: PoolSys / PoolMon."""
from . import lib
PART = "Pool"
SYS = "PoolSys"
INV = ["NoViolation"]
VIEW = "View"
PROPS = ["C22"]
QUICK_REPS = 4
QUICK_CAP = 4000
QUICK_SIM = 250
THOROUGH_SIM = 2500
DEPTH = 300

def design_configs(tier, prop):
    q = [dict(NM=2, NCh=2, MaxEnv=6, Acts={"down", "stop"}), dict(NM=3, NCh=2, MaxEnv=5, Acts={"down"}), dict(NM=3, NCh=2, MaxEnv=8, Acts=set())]
    if tier == "quick":
        return q
    return q + [dict(NM=3, NCh=3, MaxEnv=7, Acts={"down"}), dict(NM=2, NCh=3, MaxEnv=8, Acts={"down", "stop"}), dict(NM=4, NCh=2, MaxEnv=8, Acts={"stop"})]

def gen_configs(tier, prop):
    return [dict(NM=3, NCh=3, MaxEnv=20, Acts={"down"}), dict(NM=2, NCh=3, MaxEnv=20, Acts={"down", "stop"}), dict(NM=4, NCh=3, MaxEnv=16, Acts={"stop"}),
            dict(NM=5, NCh=2, MaxEnv=24, Acts=set()), dict(NM=3, NCh=4, MaxEnv=24, Acts={"down"}), dict(NM=1, NCh=2, MaxEnv=8, Acts={"down"})]

def expand(hist, consts, r, k, prop):
    n = consts["NM"]
    down = "down" in consts["Acts"]
    cfg = dict(n=n, nch=consts["NCh"], multi=down or r.random() < 0.6, failat=0, fails=False)
    lib.add_yield(cfg, r)
    if r.random() < 0.15:
        cfg["failat"] = r.randint(1, n)
        cfg["fails"] = True
    steps = []
    for h in hist:
        st = dict(h)
        a = st["a"]
        if a == "next":
            st["times"] = r.choice([0, 0, 1, 3, 7])
        elif a == "down":
            st["reset"] = r.random() < 0.5
        steps.append(st)
        x = r.random()
        if x < 0.1:
            steps.append({"a": "get", "idx": r.choice([0, 1, n - 1, n, n + 1, 3 * n + 2, 1000003])})
        elif x < 0.2:
            steps.append({"a": "adv", "dt": r.choice([10, 1500])})
        elif x < 0.3:
            steps.append({"a": "call", "i": r.randint(1, n)})
        elif a == "up" and x < 0.8:
            steps.append({"a": "adv", "dt": 2100})
    return {"engine": "pool", "cfg": cfg, "steps": steps}

def interesting(tr, prop):
    return any(e["e"] == "NextE" for e in tr["ev"])
