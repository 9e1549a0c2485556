"""Publish/subscribe engine: PubSubSys / PubSubMon."""
from . import lib

PART = "PubSub"
SYS = "PubSubSys"
INV = ["NoViolation"]
VIEW = "View"
PROPS = ["C23", "C24", "C12"]
QUICK_REPS = 4
QUICK_CAP = 4000
QUICK_SIM = 250
THOROUGH_SIM = 2000
DEPTH = 300

def design_configs(tier, prop):
    base = dict(NCli=2, NTop=1, NPub=1, MaxEnv=5, Acts=set())
    def c(**k):
        d = dict(base); d.update(k); return d
    q = [c(), c(NCli=1, MaxEnv=5, Acts={"drop", "badpw"}), c(NCli=1, NPub=2, MaxEnv=5, Acts={"drop", "blk"})]
    if tier == "quick":
        return q
    return q + [c(NCli=1, NTop=2, NPub=2, MaxEnv=6, Acts={"drop"}), c(NCli=1, NPub=2, MaxEnv=7, Acts={"drop", "blk"}), c(NCli=2, NPub=2, MaxEnv=6, Acts={"drop"}),
                c(NCli=3, NPub=1, MaxEnv=6, Acts=set())]

def gen_configs(tier, prop):
    base = dict(NCli=3, NTop=2, NPub=14, MaxEnv=26, Acts={"badpw"})
    def c(**k):
        d = dict(base); d.update(k); return d
    if prop == "C24":
        return [c(NCli=2, Acts={"drop"}), c(NCli=1, NTop=2, Acts={"drop"}), c(NCli=2, Acts={"drop", "blk"}), c(NCli=3, NTop=1, Acts={"drop", "badpw"})]
    return [c(), c(NCli=2, NTop=1, MaxEnv=18), c(NCli=4, NTop=2), c(NCli=2, Acts={"drop", "badpw"}), c(NCli=2, Acts={"blk"})]

SIZES = [0, 0, 0, 12, 40, 64, 300, 1000, 4000, 20000]

def expand(hist, consts, r, k, prop):
    n, ntop = consts["NCli"], consts["NTop"]
    direct = "blk" not in consts["Acts"] and r.random() < 0.2
    cfg = dict(n=n, ntop=ntop, q=r.choice([128, 4096]), direct=direct, batch=r.random() < 0.7, sbuf=r.choice([0, 64, 200, 4096]), brecv=r.random() < 0.6,
               jit=r.choice([0, 0, 2, 7]), jitpct=r.choice([25, 60]), pool=r.random() < 0.4, chunk=r.choice([0, 0, 1, 3, -9, -40]), onpub=r.random() < 0.5,
               coder="xor" if r.random() < 0.25 else "", panicc=0, **{"async": r.random() < 0.4}, tlen=r.choice([0, 0, 0, 16, 127, 128, 255, 256, 1000, 1024]))
    lib.add_yield(cfg, r)
    if r.random() < (0.8 if prop == "C12" else 0.15):
        cfg["panicc"] = r.randint(1, n)
    steps = []
    # most clients are members from the start: the model's own prefix would spend its steps on that
    for c in range(1, n + 1):
        if r.random() < 0.8:
            steps.append({"a": "auth", "c": c, "good": True, "q": r.random() < 0.5})
            for t in range(1, ntop + 1):
                if r.random() < 0.6:
                    steps.append({"a": "sub", "c": c, "tp": t, "q": r.random() < 0.5})
    slow = r.random() < 0.4
    for h in hist:
        st = dict(h)
        a = st["a"]
        if a == "auth" and not st["good"] and any(s["a"] == "auth" and s["c"] == st["c"] and s["good"] for s in steps):
            st["good"] = True
        if a == "pub":
            st["size"] = r.choice(SIZES)
            st["vk"] = r.choice(["str", "bytes", "struct", "slice", "slice"])
        elif a == "drop":
            st["reset"] = r.random() < 0.4
        steps.append(st)
        if a == "drop" and "blk" in consts["Acts"] and r.random() < 0.6:
            # the session's restoring stalls, is tried again, and the topics are given up meanwhile
            steps.append({"a": "adv", "dt": 2})
            steps.append({"a": "block", "c": st["c"], "on": True})
            steps.append({"a": "drop", "c": st["c"], "reset": False} if r.random() < 0.2 else {"a": "adv", "dt": 3})
        if a == "drop" and r.random() < 0.3:
            # the connection is lost again while the session is being restored
            steps.append({"a": "tick", "ms": r.choice([2, 5, 9, 14, 20])})
            steps.append(dict(st, reset=False))
            if r.random() < 0.7:
                steps.append({"a": "adv", "dt": r.choice([100, 300])})
                t = r.randint(1, ntop)
                steps.append({"a": "unsub", "c": st["c"], "tp": t})
                steps.append({"a": "adv", "dt": 1503})
                steps.append({"a": "pub", "c": 0, "tp": t, "one": False, "size": 0, "vk": "str", "q": True})
        x = r.random()
        if a == "block" and not st["on"] and x < 0.5:
            steps.insert(len(steps) - 1, {"a": "adv", "dt": r.choice([10503, 5003])})
        elif x < 0.08:
            steps.append({"a": "adv", "dt": r.choice([10, 100])})
        elif x < (0.2 if slow else 0.1) or a == "drop" and x < 0.5:
            steps.append({"a": "adv", "dt": r.choice([1100, 4000])})
    if r.random() < 0.1:
        steps.append({"a": "stopc", "c": r.randint(1, n)})
    return {"engine": "pubsub", "cfg": cfg, "steps": steps}

def interesting(tr, prop):
    if prop == "C24":
        return any(e["e"] == "Link" and e["ep"] > 1 for e in tr["ev"])
    need = {"C23": {"Got"}, "C12": {"Panic"}}[prop]
    return any(e["e"] in need for e in tr["ev"])
