"""Server engine: ServerSys / ServerMon."""
from . import lib

PART = "Server"
SYS = "ServerSys"
INV = ["NoViolation", "TypeOK"]
VIEW = "View"
PROPS = ["C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17"]
QUICK_REPS = 5
QUICK_CAP = 6000
QUICK_SIM = 250
A = {"bad", "blk", "stopcli", "cgate"}

def design_configs(tier, prop):
    base = dict(NConn=2, NOps=1, QSize=1, MaxLoad=0, MaxEnv=4, MaxB=0, WithStop=False, Acts=set())
    def c(**k):
        d = dict(base); d.update(k); return d
    quick = {
        "C09": [c(Acts={"bad"}, MaxEnv=5)], "C10": [c(NConn=1, NOps=2, MaxEnv=5)], "C11": [c(NConn=1, NOps=2, Acts={"blk"})],
        "C12": [c(NOps=2)], "C13": [c(NConn=1, NOps=3, MaxEnv=4)], "C14": [c(Acts={"stopcli", "bad", "cgate"}, MaxEnv=5)],
        "C15": [c(MaxLoad=1, NConn=3, MaxEnv=5, NOps=0, Acts={"stopcli"})], "C16": [c(MaxB=1, Acts={"blk"}, NOps=0, MaxEnv=5)],
        "C17": [c(WithStop=True, Acts={"cgate", "blk"})]}
    if tier == "quick":
        return quick[prop]
    full = {"C14": [c(MaxLoad=1, Acts=A, WithStop=True, MaxEnv=5)], "C15": [c(MaxLoad=2, NConn=3, NOps=0, Acts={"stopcli", "cgate"}, MaxEnv=7)],
            "C16": [c(MaxB=2, Acts={"blk"}, MaxEnv=5)], "C17": [c(WithStop=True, Acts=A, MaxEnv=5)], "C13": [c(NConn=2, NOps=2, MaxEnv=5)]}
    return quick[prop] + full.get(prop, [c(NOps=2, Acts=A, MaxEnv=4)])

def gen_configs(tier, prop):
    base = dict(NConn=3, NOps=5, QSize=1, MaxLoad=0, MaxEnv=11, MaxB=2, WithStop=False, Acts={"blk"})
    def c(**k):
        d = dict(base); d.update(k); return d
    L = [c(), c(NConn=1, NOps=7, MaxB=1, MaxEnv=12), c(WithStop=True, Acts=A, MaxEnv=10)]
    if prop in ("C15", "C14"):
        L += [c(MaxLoad=1, NConn=4, NOps=2, MaxB=0, Acts={"stopcli", "bad"}), c(MaxLoad=2, NConn=5, NOps=2, MaxB=0, Acts=A)]
    else:
        L += [c(MaxLoad=2, NConn=4, NOps=3, Acts={"stopcli", "bad", "cgate"})]
    if prop == "C16":
        L += [c(MaxB=4, NOps=3), c(MaxB=3, NConn=4, NOps=1, MaxEnv=9)]
    if prop == "C13":
        L += [c(NConn=2, NOps=9, MaxB=0, MaxEnv=14, Acts=set())]
    if prop == "C09":
        L += [c(NConn=2, NOps=7, MaxB=0, Acts={"bad"}, MaxEnv=12)]
    return L

SIZES = [0, 0, 12, 40, 64, 100, 300, 1000, 2040, 4090, 8192, 9000, 20000]

def mkprog(r, long=False):
    """registrations in some order; the methods /s (in line), /a (asynchronous) are always there"""
    p = [dict(t="h", n="S", m="/s", **{"as": False}), dict(t="h", n="A", m="/a", **{"as": True})]
    if r.random() < 0.5:
        p.append(dict(t="h", n="S2", m=r.choice(["/s2", "/sx", "s"]), **{"as": False}))
    if r.random() < 0.4:
        p.append(dict(t="h", n="A2", m="/s" + "y" * r.choice([1, 100, 125]), **{"as": True}))
    if r.random() < 0.35:
        p.append(dict(t="nf", n="N", m="", **{"as": False}))
        if r.random() < 0.3:
            p.append(dict(t="nf", n="N2", m="", **{"as": False}))
    r.shuffle(p)
    for i in range(140 if long else r.choice([0, 1, 1, 2, 3, 4, 20 if r.random() < 0.1 else 2])):
        p.insert(r.randrange(len(p) + 1), dict(t="u", n="m%d" % i, m="", **{"as": False}))
    return p

def chain(p, m):
    if any(x["t"] == "h" and x["m"] == m for x in p):
        return [x["n"] for x in p if x["t"] == "u" or (x["t"] == "h" and x["m"] == m)]
    nf = [i for i, x in enumerate(p) if x["t"] == "nf"] or [[i for i, x in enumerate(p) if x["t"] == "h"][0]]
    return [(x["n"] if x["t"] != "h" else "!") for i, x in enumerate(p) if x["t"] == "u" or i == nf[-1 if p[nf[-1]]["t"] == "nf" else 0]]

def expand(hist, consts, r, k, prop):
    direct = r.random() < 0.15
    p = mkprog(r, prop == "C10" and r.random() < 0.01)
    cfg = dict(q=r.choice([1, 1, 2, 3, 16]), direct=direct, maxload=consts["MaxLoad"], batch=r.random() < 0.7,
               sbuf=r.choice([0, 1, 64, 200, 4096, 65536]), brecv=r.random() < 0.6, jit=r.choice([0, 0, 2, 7]), jitpct=r.choice([25, 60]),
               pool=r.random() < 0.3, exec=r.random() < 0.25, chunk=r.choice([0, 0, 1, 2, 3, 5, -9, -40]),
               maxbody=r.choice([0, 0, 1500, 30000]), coder="xor" if r.random() < (0.4 if prop in ("C16", "C11") else 0.15) else "", prog=p)
    lib.add_yield(cfg, r)
    big = r.random() < 0.3
    maxb = cfg["maxbody"]
    def size():
        n = r.choice(SIZES if big else SIZES[:8])
        return min(n, maxb - 300) if maxb else n
    methods = {}
    for x in p:
        if x["t"] == "h":
            methods.setdefault(x["as"], []).append(x["m"])
    steps, gated = [], {}
    pans = r.random() < (0.8 if prop == "C12" else 0.15)
    aborts = r.random() < (0.6 if prop == "C10" else 0.2)
    nscall = 0
    conns = []
    for h in hist:
        st = dict(h)
        a = st["a"]
        if direct and a == "blockw":
            continue
        if a == "conn":
            conns.append(st["c"])
        if a == "in":
            w, sync, gate = st.pop("w"), st.pop("sync"), st.pop("gate")
            m = r.choice(methods[not sync])
            if r.random() < (0.25 if prop == "C10" else 0.08):
                m = r.choice(["/none", "/", "/S", "/ss", "/sy" * 20, "x"])
            ch = chain(p, m)
            acts = {}
            vis = [n for n in ch if n != "!"]
            last = [n for n in vis if n[0] in "SAN"]
            hn = last[0] if last else (vis[-1] if vis else None)
            for n in vis:
                L = []
                if r.random() < 0.4 and len(p) < 100:
                    L.append({"a": "set"})
                if aborts and r.random() < (0.25 if len(p) < 100 else 0.02):
                    L.append({"a": "abort"})
                if pans and r.random() < 0.2:
                    L.append({"a": "panic"})
                if n == hn:
                    if gate:
                        L.append({"a": "gate"})
                        gated[st["o"]] = True
                    if w:
                        nils = 0
                        for j in range(r.choice([1, 1, 1, 2, 3])):
                            x = {"a": "w", "vk": r.choice(["str", "pstr", "bytes", "struct", "pstruct", "err", "nil"]), "size": size(),
                                 "mode": "error" if r.random() < 0.2 else "write"}
                            if x["vk"] == "nil":
                                nils += 1
                                if nils > 1:
                                    x["vk"] = "str"
                            if x["mode"] == "write" and not direct and r.random() < 0.25:
                                x["tmo"] = r.choice([0, 50, 1000])
                            if x["vk"] == "nil":
                                x.pop("tmo", None)
                            if not cfg["pool"] and r.random() < 0.2:
                                x["a"] = "late"
                                x["d"] = r.choice([0, 1, 30])
                            L.append(x)
                    if r.random() < 0.05 and "stopcli" in consts["Acts"]:
                        L.append({"a": "stopcli"})
                if pans and r.random() < 0.2 and not any(x["a"] == "panic" for x in L):
                    L.append({"a": "panic"})
                if n.startswith("m") and r.random() < 0.3 and not any(x["a"] == "panic" for x in L):
                    L.insert(r.randrange(len(L) + 1), {"a": "next"})
                    if aborts and r.random() < 0.2:
                        L.append({"a": "abort"})
                # writes which wait for the handler would deadlock a late write only; fine
                if L:
                    acts[n] = L
            st.update(m=m, acts=acts, size=size(), vk=r.choice(["str", "struct", "bytes"]), smul=r.choice([0, 0, 1000]), sadd=r.choice([0, 0, 7, 1 << 20]))
            st["async"] = r.random() < 0.5
            st["frest"] = r.choice([0, 0, 0, 4, 128, 252])
            if r.random() < 0.2:
                st["cut"] = r.choice([1, 3, 4, 5, 15, 16, 17, 20])
            if maxb and r.random() < 0.15:
                st["exact"] = True
        elif a == "bad":
            st["why"] = r.choice(["toolong", "badcmd", "huge", "toolong"]) if maxb else r.choice(["badcmd", "huge"])
            st["n"] = r.choice([0, 1, 2, 3, 1000])
            st["size"] = 20
        elif a == "drop":
            x = r.random()
            if x < 0.25:
                st["reset"] = True
            elif x < 0.4:
                st["a"] = "wkill"
                st["n"] = r.choice([0, 1, 17, 40])
        elif a == "bcast":
            st["size"] = size()
            st["vk"] = r.choice(["str", "struct", "bytes"])
            st["plain"] = r.random() < 0.5
        elif a == "srvstop":
            st["k"] = r.choice(["stop", "shut"])
            st["tmo"] = r.choice([30, 1000])
        elif a == "stopcli":
            st["conc"] = r.random() < 0.4
        steps.append(st)
        x = r.random()
        if conns:
            c = r.choice(conns)
            if x < (0.25 if prop == "C09" else 0.08):
                steps.append({"a": "bad", "c": c, "why": r.choice(["ml0", "mlbig", "ml128", "empty", "rsp", "stream", "pong", "unknown"]), "n": r.randrange(1000), "size": 30})
            elif x < 0.3 and prop == "C09":
                steps.append({"a": "ping", "c": c})
            elif x > 0.95:
                steps.append({"a": "ping", "c": c})
            elif x > 0.9 and not direct:
                nscall += 1
                steps.append({"a": "scall", "c": c, "n": nscall, "size": 30})
            elif x > 0.88:
                steps.append({"a": "accerr"})
            elif x > 0.82:
                steps.append({"a": "adv", "dt": r.choice([20, 100])})
    return {"engine": "server", "cfg": cfg, "steps": steps}

def interesting(tr, prop):
    need = {"C09": {"Bad", "In"}, "C10": {"El"}, "C11": {"W"}, "C12": {"Panic"}, "C13": {"El"}, "C14": {"OnDisc"}, "C15": {"Acc"}, "C16": {"Bcast"}, "C17": {"SrvStop"}}[prop]
    return any(e["e"] in need for e in tr["ev"])
