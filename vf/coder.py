"""Message coder engine: CoderSys / CoderMon."""
from . import lib
PART = "Coder"
SYS = "CoderSys"
INV = ["NoViolation"]
VIEW = "View"
PROPS = ["C21"]
MODULE = "harnessx"
QUICK_REPS = 6
QUICK_CAP = 3000
QUICK_SIM = 150
THOROUGH_SIM = 1500
THOROUGH_REPS = 8
DEPTH = 400
NO = dict(Shared=False, Order=False, Skip=False)

def design_configs(tier, prop):
    q = [dict(NC=1, NCod=3, MaxMsg=3, **NO), dict(NC=2, NCod=2, MaxMsg=3, **NO)]
    if tier == "quick":
        return q
    return q + [dict(NC=2, NCod=3, MaxMsg=3, **NO), dict(NC=1, NCod=2, MaxMsg=5, **NO)]

def negative_configs(tier, prop):
    return [dict(NC=2, NCod=2, MaxMsg=2, **{**NO, k: True}) for k in NO]

def gen_configs(tier, prop):
    return [dict(NC=1, NCod=2, MaxMsg=10, **NO), dict(NC=2, NCod=2, MaxMsg=14, **NO), dict(NC=3, NCod=1, MaxMsg=18, **NO)]

STACKS = [["tag"], ["tag", "tag"], ["tag", "tag", "tag"], ["fresh", "tag"], ["tag", "fresh", "tag"],
          ["gzip0"], ["gzip100"], ["gzip1024"], ["msgpack"], ["apA"], ["apA", "apB"], ["apB", "apA"],
          ["gzip0", "apA"], ["apA", "gzip0"], ["msgpack", "gzip0"], ["gzip0", "msgpack"], ["apA", "msgpack"], ["msgpack", "apB", "gzip50"],
          ["tag", "gzip0"], ["gzip0", "tag"], ["tag", "apA", "gzip0", "tag"], ["gzip0", "gzip0"], ["fresh", "apB", "msgpack"], ["apA", "tag", "apB", "gzip10", "msgpack"]]

def expand(hist, consts, r, k, prop):
    nc = consts["NC"]
    stack = r.choice(STACKS) if r.random() < 0.6 else STACKS[r.randint(0, 4)]
    if r.random() < 0.25:
        stack = [r.choice(["tag", "fresh", "gzip0", "gzip200", "msgpack", "apA", "apB"]) for _ in range(r.randint(1, 5))]
        for x in ("apA", "apB"):     # one appender per name
            while stack.count(x) > 1:
                stack.remove(x)
    pure = all(s in ("tag", "fresh") for s in stack)
    flagged = all(s.startswith("gzip") or s.startswith("ap") for s in stack)
    cfg = dict(nc=nc, stack=stack, pure=pure, layers=[i + 1 for i in range(len(stack))] if pure else [], carry=[s for s in stack if s.startswith("ap")],
               all="msgpack" in stack, plain=flagged and r.random() < 0.7, smode=r.choice(["batch", "batch", "normal", "direct"]), cmode=r.choice(["batch", "batch", "normal", "direct"]),
               sbuf=r.choice([0, 64, 1024, 100000]), chunk=r.choice([0, 0, 1, 7, 100]), strl=1)
    cfg["async"] = r.random() < 0.5
    lib.add_yield(cfg, r)
    if r.random() < 0.3:
        cfg.update(jit=r.choice([1, 4]), jitpct=r.choice([20, 60]))
    steps = []
    sizes = [0, 1, 17, 100, 500, 3000, 9000] + ([70000] if cfg["chunk"] in (0, 100) else [])
    for h in hist:
        st = dict(h)
        st["m"] = r.choice(["a", "z", "z"]) + "%d" % h["m"]
        st["size"] = r.choice(sizes)
        l = h["l"]
        if st["a"] == "sub":
            ks = ["note", "note", "call", "push"]
            ks += ["async", "err"] if l <= nc else []
            if l == 1 or l > nc:
                ks.append("str")
            st["kind"] = r.choice(ks)
            st["go"] = r.random() < 0.3
        else:
            st["filter"] = r.random() < 0.3
        if r.random() < 0.5:
            st["vals"] = {n: r.choice([0, 1, 30, 300, 5000, 60000, 70000, -1] if n == "apA" else [0, 30, 2000, 65000]) for n in ("apA", "apB") if r.random() < 0.6}
        if r.random() < 0.3:
            st["q"] = False
        if r.random() < 0.2:
            steps.append({"a": "hold", "l": r.randint(1, 2 * nc)})
        steps.append(st)
    return {"engine": "coder", "cfg": cfg, "steps": steps}

def interesting(tr, prop):
    return any(e["e"] == "Got" for e in tr["ev"])
