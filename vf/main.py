"""check.py <property> : decides one property.  exit 0 held, 1 VIOLATION, 2 error of the check."""
import importlib, json, os, random, shutil, sys, tempfile, time, traceback, hashlib
from concurrent.futures import ThreadPoolExecutor
from . import lib
from .lib import log, CheckError
from .registry import REG

def known_findings():
    p = os.path.join(lib.VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []

def match_finding(prop, tr, k):
    for f in known_findings():
        if f.get("status") == "known" and f["property"] == prop and "match" in f and f.get("event") in (None, tr["ev"][k - 1]["e"]):
            w = f.get("match", {})
            if all(str(tr["cfg"].get(a)) == str(b) for a, b in w.get("cfg", {}).items()) and \
               all(str(tr["ev"][k - 1].get(a)) == str(b) for a, b in w.get("ev", {}).items()):
                return f
    return None

def run_engine(prop, eng, tier, seed, work, budget):
    m = importlib.import_module("vf." + eng)
    rng = random.Random("%s-%s-%d-%s" % (prop, eng, seed, tier))
    quick = tier == "quick"
    ex = ThreadPoolExecutor(8)
    fb = None if hasattr(m, "run") else ex.submit(lib.build_harness, work, getattr(m, "MODULE", "harness"), getattr(m, "PKG", "./eng"))
    cov = {"states": 0, "transitions": 0}
    # behaviours of the model
    hists = []
    if hasattr(m, "behaviours"):
        fgen = ex.submit(m.behaviours, work, tier, prop, seed)
        gens = None
    else:
        gens = []
        gc = m.gen_configs(tier, prop)
        n = (m.QUICK_SIM if hasattr(m, "QUICK_SIM") else 250) if quick else (m.THOROUGH_SIM if hasattr(m, "THOROUGH_SIM") else 2500)
        for i, c in enumerate(gc):
            gens.append((c, ex.submit(lib.simulate, work, m.SYS, c, n, getattr(m, "DEPTH", 120), seed * 1000 + i)))
    # exhaustive check of the design
    designs = []
    dworkers = 3 if quick else 8
    def design_all():
        out = []
        for c in m.design_configs(tier, prop):
            t = time.time()
            d = lib.design_check(work, getattr(m, "DSYS", m.SYS), c, m.INV, view=m.VIEW, timeout=240 if quick else 3600, workers=dworkers)
            d["consts"] = {k: (sorted(v, key=str) if isinstance(v, set) else v) for k, v in c.items()}
            d["wall_s"] = round(time.time() - t, 1)
            out.append(d)
        # models with a known mistake built in: the properties must tell
        for c in (m.negative_configs(tier, prop) if hasattr(m, "negative_configs") else []):
            t = time.time()
            lib.negative_check(work, getattr(m, "DSYS", m.SYS), c, m.INV, view=m.VIEW)
            out.append({"states": 0, "transitions": 0, "must_fail": True, "consts": {k: (sorted(v, key=str) if isinstance(v, set) else v) for k, v in c.items()}, "wall_s": round(time.time() - t, 1)})
        return out
    fdes = ex.submit(design_all)
    if gens is None:
        hists = fgen.result()
    else:
        for c, f in gens:
            hists += [(h, c) for h in f.result()]
    reps = (getattr(m, "QUICK_REPS", 2) if quick else getattr(m, "THOROUGH_REPS", 4))
    scens = []
    for rep in range(reps):
        for k, (h, c) in enumerate(hists):
            s = m.expand(h, c, rng, k, prop)
            if s is None:
                continue
            s["id"] = "%s-%s-%d-%d-%d" % (prop, eng, seed, k, rep)
            s["seed"] = rng.randrange(1 << 40)
            scens.append(s)
    cap = getattr(m, "QUICK_CAP", 2500) if quick else getattr(m, "THOROUGH_CAP", 30000)
    if len(scens) > cap:
        rng.shuffle(scens)
        scens = scens[:cap]
    if hasattr(m, "extra"):
        for k, s in enumerate(m.extra(tier, prop, rng)):
            s.setdefault("id", "%s-%s-%d-x%d" % (prop, eng, seed, k))
            s.setdefault("seed", rng.randrange(1 << 40))
            scens.append(s)
    binary = fb and fb.result()
    log(eng, "scenarios:", len(scens))
    if fb is None:
        traces, stats = m.run(work, scens, tier)
    else:
        traces, stats = lib.run_harness(binary, scens, work, timeout=400 if quick else 3600, shards=getattr(m, "SHARDS", None), watch=getattr(m, "WATCH", 25))
    log(eng, "traces:", len(traces), "events:", sum(len(t["ev"]) for t in traces), {k: v for k, v in stats.items() if k != "failed"})
    viols, known = [], []
    nstates = 0
    B = 4000
    for b in range(0, len(traces), B):
        bad, first, st = lib.validate(work, m.PART, traces[b:b + B], timeout=400 if quick else 3600)
        nstates += st["trace_states"]
        for k, ps in bad.items():
            for f in known_findings():
                if f.get("status") == "known" and f["property"] == prop and f["id"] in ps:
                    known.append((f, traces[b + k], first.get((k, f["id"]), 0)))
            if prop in ps or "*" in ps or (os.environ.get("VF_ANY") and set(ps) - {f["id"] for f in known_findings() if "id" in f}):
                tr = traces[b + k]
                at = first.get((k, prop), 0) or first.get((k, "*"), 0) or min([n for (j, q), n in first.items() if j == k] or [0])
                f = match_finding(prop, tr, at)
                if f:
                    known.append((f, tr, at))
                else:
                    viols.append((tr, at, scens[tr["i"]]))
    ds = fdes.result()
    for d in ds:
        cov["states"] += d["states"]
        cov["transitions"] += d["transitions"]
    if stats["failed"] and not viols:
        raise CheckError(stats["failed"][0])
    stats["failed"] = len(stats["failed"])
    log(eng, "validated; violations:", len(viols), "known:", len(known))
    inter = [t for t in traces if m.interesting(t, prop)]
    cov.update(dict(designs=ds, behaviours=len(hists), scenarios=len(scens), traces=len(traces), nontrivial=len(inter),
                    distinct=len({json.dumps(t["ev"], sort_keys=True) for t in inter}), trace_states=nstates, events=lib.ev_count(traces), harness=stats))
    samples = []
    for t in inter[:2]:
        samples.append({"engine": eng, "scenario": scens[t["i"]], "trace": t["ev"][:60]})
    return cov, samples, viols, known

def check(prop, tier, seed):
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vf-%s-" % prop)
    try:
        engs = REG[prop]
        total = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "engines": {}}
        allv, allk = [], []
        for eng in engs:
            cov, samples, viols, known = run_engine(prop, eng, tier, seed, work, 0)
            total["states"] += cov["states"] + cov["trace_states"]
            total["transitions"] += cov["transitions"]
            total["traces_validated_against_impl"] += cov["traces"]
            total["samples"] += samples
            total["engines"][eng] = cov
            allv += [(eng,) + v for v in viols]
            allk += known
            if viols and tier == "quick":
                break
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": total,
              "assumptions": ["the in-memory network and virtual clock of the harness behave like real connections and time",
                              "behaviours explored are those of the bounded model, sampled by seed, plus seeded delays at the API's seams"],
              "wall_s": round(time.time() - t0, 1), "violations": len(allv)}
        os.makedirs(os.path.join(lib.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(lib.VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        seen = set()
        for f, tr, at in allk:
            if f["id"] not in seen:
                seen.add(f["id"])
                print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
        if allv:
            os.makedirs(os.path.join(lib.VERIF, "replays"), exist_ok=True)
            for eng, tr, at, sc in allv[:3]:
                p = os.path.join(lib.VERIF, "replays", "%s-%s.json" % (prop, hashlib.md5(json.dumps(sc, sort_keys=True).encode()).hexdigest()[:10]))
                with open(p, "w") as f:
                    json.dump({"property": prop, "engine": eng, "scenario": sc, "bad_event": at, "event": tr["ev"][at - 1] if at else None,
                               "trace": tr["ev"], "cfg": tr["cfg"]}, f, indent=1)
                print("VIOLATION property=%s replay=%s" % (prop, p))
            tr, at = allv[0][1], allv[0][2]
            print("configuration:", json.dumps(tr["cfg"]))
            for k, e in enumerate(tr["ev"][:at]):
                if k >= at - 60:
                    print("  %3d %s%s" % (k + 1, json.dumps({a: b for a, b in e.items() if a not in ("final",)})[:600 if k + 1 < at else 3000], "   <==" if k + 1 == at else ""))
            print("%d violating traces, first at event %d: %s" % (len(allv), allv[0][2], json.dumps(allv[0][1]["ev"][allv[0][2] - 1])[:600] if allv[0][2] else "?"))
            return 1
        print("property %s held on %d traces (%d model states)" % (prop, total["traces_validated_against_impl"], total["states"]))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)

def replay(path):
    d = json.load(open(path))
    work = tempfile.mkdtemp(prefix="vf-replay-")
    try:
        m = importlib.import_module("vf." + d["engine"])
        if hasattr(m, "run"):
            traces, stats = m.run(work, [d["scenario"]], "quick")
        else:
            b = lib.build_harness(work, getattr(m, "MODULE", "harness"), getattr(m, "PKG", "./eng"))
            traces, stats = lib.run_harness(b, [d["scenario"]], work)
        bad, first, _ = lib.validate(work, m.PART, traces)
        ps = bad.get(0, [])
        for k, e in enumerate(traces[0]["ev"]):
            mark = [p for (i, p), n in first.items() if n == k + 1]
            print(k + 1, json.dumps(e), ("   <== " + ",".join(mark)) if mark else "")
        print("violated:", ps, stats)
        return 1 if d["property"] in ps else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)

def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        sys.exit(replay(a[1]))
    prop = a[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if len(a) > 1:
        tier = a[1]
    seed = int(os.environ.get("VERIF_SEED") or "1")
    try:
        rc = check(prop, tier, seed)
    except CheckError as e:
        print("ERROR:", e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
