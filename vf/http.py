"""RPC over HTTP engine: HttpSys / HttpMon."""
from . import lib
PART = "Http"
SYS = "HttpSys"
INV = ["NoViolation"]
VIEW = "View"
PROPS = ["C29"]
QUICK_REPS = 4
QUICK_CAP = 5000
QUICK_SIM = 250
THOROUGH_SIM = 3000
THOROUGH_REPS = 6
THOROUGH_CAP = 60000
DEPTH = 150
K = {"req", "notify", "bad"}
OK = dict(Detach=False, Shared=False)

def design_configs(tier, prop):
    q = [dict(NReq=2, Pre=2, Post=1, MaxEnv=2, Kinds=K, **OK), dict(NReq=3, Pre=1, Post=0, MaxEnv=3, Kinds={"req", "notify"}, **OK)]
    if tier == "quick":
        return q
    return q + [dict(NReq=3, Pre=1, Post=1, MaxEnv=3, Kinds=K, **OK), dict(NReq=2, Pre=4, Post=3, MaxEnv=2, Kinds=K, **OK)]

def negative_configs(tier, prop):
    return [dict(NReq=2, Pre=1, Post=1, MaxEnv=2, Kinds=K, **{**OK, m: True}) for m in OK]

def gen_configs(tier, prop):
    return [dict(NReq=1, Pre=1, Post=1, MaxEnv=1, Kinds=K, **OK), dict(NReq=3, Pre=2, Post=1, MaxEnv=3, Kinds=K, **OK), dict(NReq=6, Pre=1, Post=0, MaxEnv=6, Kinds={"req", "notify"}, **OK),
            dict(NReq=8, Pre=3, Post=2, MaxEnv=8, Kinds=K | {"other"}, **OK), dict(NReq=4, Pre=0, Post=0, MaxEnv=4, Kinds=K | {"other"}, **OK)]

BAD = ["short", "short", "trunc", "trail", "twice", "less", "more", "huge", "mlen", "mlen0", "mlenbody", "fail", "nil"]

def expand(hist, consts, r, k, prop):
    cfg = dict(pre=consts["Pre"], post=consts["Post"], nf=r.random() < 0.3, resp=r.choice(["def", "def", "sync", "exec"]), direct=r.random() < 0.5, pool=r.random() < 0.3,
               coder=r.random() < 0.2, reg=r.choice(["def", "async", "sync"]), maxbody=r.choice([0, 0, 20000]))
    lib.add_yield(cfg, r)
    if r.random() < 0.4:
        cfg.update(jit=r.choice([1, 5, 30]), jitpct=r.choice([20, 60]))
    steps = []
    held = []
    for h in hist:
        st = dict(h)
        st["m"] = r.choice(["/a", "/b"]) if st["known"] else r.choice(["/u", "/", "/aa", "A" * 127, "/a/", "/s"])
        if st["ab"] and r.random() < 0.3:
            st["ab"] = r.randint(1, cfg["pre"] + 1 + cfg["post"])
        if st["mode"] == "val":
            st["mode"] = r.choice(["val", "val", "bytes", "err", "wrerr", "two", "panic"])
        st["seq"] = str(r.choice([0, 1, 255, 256, 65536, 2**32, 2**63, 2**64 - 1, r.randrange(1 << 40)]))
        st["as"] = r.random() < 0.3
        st["in"] = r.choice([0, 1, 20, 300, 600, 5000] + ([70000] if not cfg["maxbody"] else []))
        st["out"] = r.choice([0, 1, 20, 300, 5000, 70000])
        st["chunk"] = r.choice([0, 0, 0, 7, 100]) if st["in"] < 1000 else 0
        st["q"] = r.random() < 0.3
        st["n"] = r.randrange(1 << 20)
        if st["kind"] == "bad":
            st["how"] = r.choice(BAD + (["big"] if cfg["maxbody"] else []))
        if st["kind"] == "other":
            st["cmd"] = r.choice([0, 2, 4, 5, 6, 6, 7, 33])
            st["loc"] = r.random() < 0.7
            if st["cmd"] == 6:
                st["m"] = r.choice(["/s", "/s", "/a"])
        if st["kind"] in ("req", "notify") and st["known"] and r.random() < 0.4:
            st["hold"] = True
            held.append(st["k"])
        steps.append(st)
        if held and r.random() < 0.4:
            steps.append(dict(a="rel", k=held.pop(r.randrange(len(held)))))
    return {"engine": "http", "cfg": cfg, "steps": steps}

def interesting(tr, prop):
    es = [e["e"] for e in tr["ev"]]
    return "Run" in es and es.count("Post") > 1
