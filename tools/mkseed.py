"""helper: mk(id, prop, needs, breaks, edits=[(file, old, new)], demo=go source) writes seeded/<id>"""
import json, os, shutil, subprocess
RUN = open("/verif/seeded/S02/demo.sh").read()
def mk(id, prop, needs, breaks, edits, demo, files=None, sh=None):
    w = "/tmp/mkseed-" + id
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", w])
    for f, a, b in edits:
        s = open(w + "/" + f).read()
        assert s.count(a) == 1, (f, s.count(a), a)
        open(w + "/" + f, "w").write(s.replace(a, b))
    subprocess.call("gofmt -l *.go; go vet . >/dev/null 2>&1 || true", shell=True, cwd=w)
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(["git", "diff"], cwd=w, text=True)
    open(d + "/patch.diff", "w").write(diff)
    if demo is not None:
        open(d + "/demo.go", "w").write(demo)
        subprocess.call(["gofmt", "-w", d + "/demo.go"])
    for n, t in (files or {}).items():
        open(d + "/" + n, "w").write(t)
    open(d + "/demo.sh", "w").write(sh or RUN)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    # every hunk must touch a line of the original repository
    base = subprocess.check_output("git rev-list --max-parents=0 HEAD", shell=True, cwd=w, text=True).strip()
    shutil.rmtree(w, ignore_errors=True)
