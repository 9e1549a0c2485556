"""Client engine: ClientSys / ClientMon."""
import random
from . import lib

PART = "Client"
PROPS = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C12"]

def design_configs(tier, prop):
    base = dict(NOps=2, QSize=1, MaxRc=0, Side="cli", Batch=True, MaxT=150, MaxConn=2, MaxEnv=3, Kinds={"call", "async", "notify"}, WithStop=True)
    def c(**k):
        d = dict(base); d.update(k); return d
    if tier == "quick":
        kinds = {"C02": {"call"}, "C03": {"async"}, "C05": {"notify"}, "C01": {"call", "async"}}.get(prop, {"call", "notify"})
        return [c(Kinds=kinds), c(NOps=1, MaxT=1300, Kinds=kinds, MaxRc=1 if prop in ("C06", "C07") else 0)]
    return [c(MaxT=1300), c(Side="srv", MaxEnv=4), c(NOps=1, MaxEnv=5, MaxT=2400, MaxRc=2, MaxConn=3), c(NOps=3, Kinds={"notify"}, MaxEnv=4, WithStop=False),
            c(Kinds={"call", "async"}, MaxEnv=4), c(Batch=False, Kinds={"call", "notify"}, MaxEnv=4)]

def gen_configs(tier, prop):
    base = dict(NOps=4, QSize=1, MaxRc=0, Side="cli", Batch=True, MaxT=3000, MaxConn=4, MaxEnv=9, Kinds={"call", "async", "notify"}, WithStop=False)
    def c(**k):
        d = dict(base); d.update(k); return d
    L = [c(), c(WithStop=True, MaxEnv=7), c(NOps=7, MaxEnv=13, MaxConn=2), c(MaxRc=2, MaxT=6000, NOps=3, WithStop=True, MaxEnv=8)]
    if prop in ("C01", "C02", "C03", "C04", "C05", "C07", "C12"):
        L.append(c(Side="srv", MaxConn=1, MaxEnv=10, WithStop=prop in ("C02", "C07")))
    if prop in ("C04", "C05"):
        L.append(c(NOps=9, MaxEnv=14, Kinds={"notify", "call"}, MaxConn=1))
    if prop == "C03":
        L.append(c(NOps=6, MaxEnv=10, Kinds={"async"}, WithStop=True))
    if prop == "C01":
        L.append(c(NOps=6, MaxEnv=15, Kinds={"async", "call"}, MaxConn=1))
    return L

QUICK_REPS = 6
QUICK_CAP = 7000
SIZES = [0, 0, 12, 40, 40, 64, 100, 300, 1000, 2040, 4090, 8192, 9000, 20000, 70000]

def expand(hist, consts, r, k, prop):
    """Decorate a behaviour of the model with concrete configuration, values and peer behaviour."""
    direct = r.random() < (0.3 if prop in ("C08", "C04") else 0.12)
    cfg = dict(q=r.choice([1, 1, 2, 3, 8]), direct=direct, maxrc=consts["MaxRc"], side=consts["Side"],
               batch=r.random() < 0.7, sbuf=r.choice([0, 1, 64, 200, 4096, 65536]), brecv=r.random() < 0.7,
               jit=r.choice([0, 0, 2, 7]), jitpct=r.choice([25, 60]), jcoder=r.random() < 0.4, pool=r.random() < 0.25,
               exec=r.random() < 0.25, chunk=r.choice([0, 0, 1, 3, -9, -40]))
    lib.add_yield(cfg, r)
    steps = []
    ctxops = []
    started = []
    big = r.random() < 0.25
    for h in hist:
        st = dict(h)
        a = st["a"]
        if direct and a == "blockw":
            continue
        if a == "start":
            kk = st["k"]
            if kk == "call":
                st["k"] = r.choice(["call", "call", "callctx"])
                if st["k"] == "callctx" and r.random() < 0.3:
                    st["tmo"] = 0
            elif kk == "notify":
                st["k"] = r.choice(["notify", "push"]) if st["tmo"] == 0 else r.choice(["notify", "notifyctx", "push"])
                if st["k"] == "push" and st["tmo"] > 0 and r.random() < 0.3:
                    st["tmo"] = -1
                if st["k"] == "notifyctx" and r.random() < 0.3:
                    st["tmo"] = 0
            if st["tmo"] == 100:
                st["tmo"] = r.choice([100, 100, 300, 5000])
            st["vk"] = r.choice(["str", "pstr", "bytes", "pbytes", "struct", "struct", "pstruct"])
            st["rk"] = r.choice(["str", "bytes", "struct", "nil"])
            st["size"] = r.choice(SIZES if big else SIZES[:8])
            st["mlen"] = r.choice([0, 0, 0, 20, 126, 127])
            if st["k"] != "push" and r.random() < (0.12 if prop == "C08" else 0.03):
                st["badm"] = True
                st["mlen"] = r.choice([0, 128, 129, 200, 255, 256, 257, 300])
            if prop in ("C12", "C03") and r.random() < (0.4 if prop == "C12" else 0.1):
                st["cbpanic"] = True
            if st["k"] in ("callctx", "notifyctx"):
                ctxops.append(st["o"])
            started.append(st["o"])
        elif a == "reply":
            st["err"] = r.random() < 0.2
            st["dup"] = r.random() < 0.15
            st["size"] = r.choice(SIZES if big else SIZES[:8])
        elif a == "drop":
            x = r.random()
            if x < 0.25:
                st["reset"] = True
            elif x < 0.4:
                st["a"] = "wfail"
                st["n"] = r.choice([0, 1, 5, 17, 40, 120])
        elif a == "stop":
            st["conc"] = r.random() < 0.5
        if a in ("reply", "drop", "stop", "blockw") and started and r.random() < 0.25:
            st["till"] = r.choice(started)
        steps.append(st)
        x = r.random()
        if x < 0.06 or (prop in ("C12", "C01") and x < 0.12):
            steps.append({"a": "junk", "k": r.choice(["ping", "pong", "rsp", "rsp", "panic", "panica"]), "n": r.randrange(50), "async": r.random() < 0.5})
        elif x < 0.2 and ctxops and r.random() < 0.5:
            steps.append({"a": "cancel", "o": r.choice(ctxops), "q": r.random() < 0.5})
        elif x < 0.25 and a == "stop":
            steps.append({"a": "stop", "conc": True})
        elif x < 0.3 and started:
            steps.append({"a": "reply", "o": r.choice(started), "err": False, "dup": False, "size": 20, "q": r.random() < 0.7})
    return {"engine": "client", "cfg": cfg, "steps": steps}

def interesting(tr, prop):
    """Non-trivial for the property: the events it constrains occurred."""
    need = {"C01": {"Feed"}, "C02": {"Ret"}, "C03": {"Cb"}, "C04": {"Out"}, "C05": {"BlockW"}, "C06": {"EofSeen"}, "C07": {"Stop"}, "C08": {"Out"}, "C12": {"Feed"}}[prop]
    return any(e["e"] in need for e in tr["ev"])
SYS = "ClientSys"
INV = ["NoViolation", "TypeOK"]
VIEW = "View"
