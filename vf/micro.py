"""Service manager engine: MicroSys / MicroMon."""
from . import lib
PART = "Micro"
SYS = "MicroSys"
INV = ["NoViolation"]
VIEW = "View"
PROPS = ["C25"]
QUICK_REPS = 4
QUICK_CAP = 4000
QUICK_SIM = 250
THOROUGH_SIM = 2500
DEPTH = 300

def design_configs(tier, prop):
    q = [dict(ND=2, NS=1, NCh=2, MaxW=1, MaxEnv=5, Acts={"down"}), dict(ND=2, NS=1, NCh=1, MaxW=2, MaxEnv=6, Acts=set())]
    if tier == "quick":
        return q
    return q + [dict(ND=2, NS=1, NCh=2, MaxW=2, MaxEnv=7, Acts={"down"}), dict(ND=3, NS=2, NCh=2, MaxW=1, MaxEnv=6, Acts={"down"})]

def gen_configs(tier, prop):
    return [dict(ND=3, NS=1, NCh=2, MaxW=3, MaxEnv=22, Acts={"down"}), dict(ND=2, NS=1, NCh=3, MaxW=2, MaxEnv=18, Acts={"down"}), dict(ND=4, NS=2, NCh=3, MaxW=3, MaxEnv=26, Acts={"down"}),
            dict(ND=3, NS=1, NCh=2, MaxW=3, MaxEnv=20, Acts=set()), dict(ND=1, NS=1, NCh=1, MaxW=2, MaxEnv=10, Acts={"down"})]

def expand(hist, consts, r, k, prop):
    n, ns = consts["ND"], consts["NS"]
    cfg = dict(n=n, ns=ns, sv=[(d - 1) % ns + 1 for d in range(1, n + 1)], nch=consts["NCh"], settle=1100, jit=r.choice([0, 0, 5]), jitpct=60)
    lib.add_yield(cfg, r)
    steps = []
    for h in hist:
        st = dict(h)
        a = st["a"]
        if a == "next":
            st["times"] = r.choice([0, 1, 3, 7])
        elif a == "down":
            st["reset"] = r.random() < 0.5
        elif a == "add":
            st["dup"] = r.choice([0, 0, 0, 1, 2])
            st["ws"] = str(st["w"]) if st["w"] > 1 or r.random() < 0.7 else r.choice(["", "0", "x", "-3", "1"])
        steps.append(st)
        x = r.random()
        if x < 0.1:
            steps.append({"a": "adv", "dt": r.choice([5, 300])})
        elif x < 0.25 or a in ("up", "add") and x < 0.4:
            steps.append({"a": "adv", "dt": r.choice([1009, 1200, 2400])})
    return {"engine": "micro", "cfg": cfg, "steps": steps}

def interesting(tr, prop):
    return any(e["e"] == "NextE" and e["res"] == "ok" for e in tr["ev"])
