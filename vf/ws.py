"""WebSocket transport engine: WsSys / WsMon."""
from . import lib
PART = "Ws"
SYS = "WsSys"
INV = ["NoViolation"]
VIEW = "View"
PROPS = ["C28"]
MODULE = "harnessx"
QUICK_REPS = 3
QUICK_CAP = 2500
QUICK_SIM = 300
THOROUGH_SIM = 3000
THOROUGH_REPS = 6
THOROUGH_CAP = 30000
DEPTH = 200
OK = dict(NoLock=False, DropRest=False, Swap=False)

def design_configs(tier, prop):
    q = [dict(NW=2, NG=2, Sizes={2, 3}, Lims={1, 4}, MaxClose=1, **OK), dict(NW=3, NG=2, Sizes={2}, Lims={1, 4}, MaxClose=0, **OK)]
    if tier == "quick":
        return q
    return q + [dict(NW=3, NG=3, Sizes={0, 1, 3}, Lims={1, 2}, MaxClose=0, **OK), dict(NW=3, NG=2, Sizes={1, 2}, Lims={1, 4}, MaxClose=2, **OK)]

def negative_configs(tier, prop):
    return [dict(NW=2, NG=2, Sizes={2, 3}, Lims={1, 4}, MaxClose=0, **{**OK, m: True}) for m in OK]

def gen_configs(tier, prop):
    return [dict(NW=2, NG=2, Sizes={0, 3}, Lims={1, 4}, MaxClose=1, **OK), dict(NW=6, NG=3, Sizes={1, 5}, Lims={1, 4, 9}, MaxClose=0, **OK),
            dict(NW=5, NG=2, Sizes={1, 8}, Lims={3, 20}, MaxClose=1, **OK), dict(NW=10, NG=4, Sizes={0, 7}, Lims={2, 30}, MaxClose=2, **OK)]

SZ = [0, 1, 2, 15, 16, 17, 100, 125, 126, 127, 200, 511, 512, 513, 1000, 1024, 2047, 4096, 4097, 20000, 65535, 65536, 70000]

def base(r):
    cfg = dict(chunk=r.choice([0, 0, -5, -100, 1, -2000]), rb=r.choice([0, 0, 16, 300, 4096]), wb=r.choice([0, 0, 16, 300, 4096]), crb=r.choice([0, 0, 16, 300]), cwb=r.choice([0, 0, 16, 300]),
               zip=r.random() < 0.2, defup=r.random() < 0.2)
    lib.add_yield(cfg, r)
    if r.random() < 0.4:
        cfg.update(jit=r.choice([1, 5, 30]), jitpct=r.choice([20, 60]))
    return cfg

def expand(hist, consts, r, k, prop):
    cfg = base(r)
    small = cfg["chunk"] in (1, -5) or cfg.get("jit", 0) > 0
    size = {n: r.choice(SZ[:12] if small else SZ) for n in (0, 1, 2, 3, 4, 5, 7, 8, 9, 20, 30)}
    both = r.random() < 0.5
    # writers of a stalled end wait for a lock, which virtual time does not see: one writer there
    stalled = any(h["a"] == "stall" for h in hist)
    flip = {"C": "S", "S": "C"} if r.random() < 0.5 else {"C": "C", "S": "S"}
    steps, seen = [], 0
    for h in hist:
        st = dict(h)
        if "x" in st:
            st["x"] = flip[st["x"]]
        if st["a"] in ("wr", "rd"):
            st["n"] = r.choice(SZ[:12] if small else SZ) if r.random() < 0.3 else size.get(st["n"], st["n"])
            if st["a"] == "rd":
                st["n"] = max(1, st["n"])
        st["q"] = r.random() < 0.2
        if stalled and st["a"] == "wr":
            st["g"] = 1
        steps.append(st)
        if both and st["a"] == "wr" and r.random() < 0.7:
            steps.append(dict(a="wr", x={"C": "S", "S": "C"}[st["x"]], g=r.randint(1, 3), n=r.choice(SZ[:12] if small else SZ)))
        if both and st["a"] == "rd" and r.random() < 0.7:
            steps.append(dict(a="rd", x={"C": "S", "S": "C"}[st["x"]], n=max(1, r.choice(SZ))))
    return {"engine": "ws", "cfg": cfg, "steps": steps}

def extra(tier, prop, r):
    out = []
    for _ in range(400 if tier == "quick" else 4000):
        cfg = base(r)
        cfg.update(rpc=True, clients=r.choice([1, 1, 2, 3]), direct=r.random() < 0.4, batch=r.random() < 0.5, brecv=r.random() < 0.7, sbuf=r.choice([0, 0, 300, 5000]))
        small = cfg["chunk"] in (1, -5) or cfg.get("jit", 0) > 0
        steps = []
        for _ in range(r.randint(2, 14)):
            steps.append(dict(a=r.choice(["call", "call", "call", "note", "note", "bc", "ping", "ping"]), c=r.randrange(cfg["clients"]), n=r.choice(SZ[:12] if small else SZ), q=r.random() < 0.2))
        out.append({"engine": "ws", "cfg": cfg, "steps": steps})
    return out

def interesting(tr, prop):
    return any(e["e"] in ("Rd", "CallRet") for e in tr["ev"])
