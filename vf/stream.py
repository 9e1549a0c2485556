"""Stream engine: StreamSys / StreamMon."""
from . import lib

PART = "Stream"
SYS = "StreamSys"
INV = ["NoViolation", "TypeOK"]
VIEW = "View"
PROPS = ["C18", "C19", "C12"]
QUICK_REPS = 5
QUICK_CAP = 6000
QUICK_SIM = 300
DEPTH = 200

def design_configs(tier, prop):
    base = dict(NStr=1, NVal=2, QSize=1, SQ=1, MaxEnv=5, Acts=set())
    def c(**k):
        d = dict(base); d.update(k); return d
    q = [c(Acts={"clr", "blk"}), c(NStr=2, NVal=1, Acts={"drop", "stop"})]
    if tier == "quick":
        return q
    return q + [c(MaxEnv=8, Acts={"clr"}), c(NStr=2, NVal=2, MaxEnv=6, Acts={"drop", "stop", "clr", "blk"}), c(NVal=3, MaxEnv=8, Acts={"drop"})]

def gen_configs(tier, prop):
    base = dict(NStr=2, NVal=6, QSize=2, SQ=1, MaxEnv=18, Acts={"clr", "blk"})
    def c(**k):
        d = dict(base); d.update(k); return d
    return [c(), c(NStr=1, NVal=10, MaxEnv=22, Acts=set()), c(NStr=3, Acts={"drop", "stop", "clr"}), c(NStr=2, NVal=3, MaxEnv=12, Acts={"drop", "stop", "blk"})]

SIZES = [0, 0, 12, 40, 64, 300, 1000, 2040, 4090, 9000, 20000, 70000]

def expand(hist, consts, r, k, prop):
    direct = r.random() < 0.15
    cfg = dict(q=r.choice([1, 1, 2, 3, 16]), direct=direct, batch=r.random() < 0.7, sbuf=r.choice([0, 1, 64, 200, 4096, 65536]), brecv=r.random() < 0.6,
               jit=r.choice([0, 0, 2, 7]), jitpct=r.choice([25, 60]), pool=r.random() < 0.3, exec=r.random() < 0.25, chunk=r.choice([0, 0, 1, 3, -9, -40]),
               sq=r.choice([1, 1, 2, 4, 4, 16]), coder="xor" if r.random() < 0.15 else "", aecho=r.random() < 0.5, panicx=0)
    lib.add_yield(cfg, r)
    if r.random() < (0.8 if prop == "C12" else 0.1):
        cfg["panicx"] = r.choice([1, 1, 2])
    tmos = r.random() < 0.5
    empt = r.random() < 0.3
    big = r.random() < 0.2
    steps = []
    opened = False
    for h in hist:
        st = dict(h)
        a = st["a"]
        if direct and a == "block":
            continue
        if a == "open":
            st["m"] = r.choice(["/st0", "/st1", "/stsync"])
            opened = True
        elif a == "send":
            st["size"] = r.choice(SIZES if big else SIZES[:7])
            st["vk"] = "empty" if empt and r.random() < 0.4 else r.choice(["str", "bytes", "struct", "pstr"])
            if tmos and r.random() < 0.3 and not (st["eof"] and st["vk"] == "empty"):
                st["tmo"] = r.choice([0, 20, 500])
        elif a == "recv":
            st["vk"] = r.choice(["str", "bytes"])
            if tmos and r.random() < 0.4:
                st["tmo"] = r.choice([0, 20, 500])
        elif a == "cls":
            if tmos and r.random() < 0.3:
                st["tmo"] = r.choice([0, 20, 500])
        elif a == "drop":
            st["reset"] = r.random() < 0.4
        elif a == "stop":
            st["by"] = r.choice(["c", "s"])
        steps.append(st)
        x = r.random()
        if x < 0.1 and opened:
            steps.append({"a": "call", "by": r.choice(["c", "s"])})
        elif x < 0.16:
            steps.append({"a": "adv", "dt": r.choice([10, 100])})
        elif x < 0.3 and opened:
            steps.append({"a": "recv", "x": r.choice([s["x"] for s in steps if s["a"] == "open"]), "by": r.choice(["c", "s"]), "vk": "str"})
    if r.random() < 0.6:
        # read everything to the end
        for st in [s for s in steps if s["a"] == "open"]:
            for y in ("c", "s"):
                for i in range(r.choice([2, 4, 12])):
                    steps.append({"a": "recv", "x": st["x"], "by": y, "vk": "bytes"})
    return {"engine": "stream", "cfg": cfg, "steps": steps}

def interesting(tr, prop):
    need = {"C18": {"RecvE"}, "C19": {"Start"}, "C12": {"Panic"}}[prop]
    return any(e["e"] in need for e in tr["ev"])
