#!/usr/bin/env python3
"""Make and confirm a planted bug.
   seed.py make ID PROPERTY PATCHED_DIR DEMO.rs "needs" "what it breaks"   (PATCHED_DIR: scratch copy of /repo with the change)
   seed.py confirm ID...      the demo passes on HEAD, fails with the patch, and the tests pass with the patch
   seed.py checks ID [PROP..] run the checks (all, or those named) on a scratch copy with the patch"""
import json, os, shutil, subprocess, sys, glob
V = "/verif/seeded"
def sh(c, cwd, **k): return subprocess.run(c, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def copy(d):
    if os.path.isdir(d): shutil.rmtree(d)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    sh("git checkout -q -- .", d)
def make(i, prop, src, demo, needs, breaks):
    d = V + "/" + i
    os.makedirs(d, exist_ok=True)
    p = subprocess.run(["git", "diff", "HEAD"], cwd=src, stdout=subprocess.PIPE, text=True).stdout
    assert p.strip()
    open(d + "/patch.diff", "w").write(p)
    if os.path.abspath(demo) != d + "/demo.rs": shutil.copy(demo, d + "/demo.rs")
    shutil.copy("/verif/tools/seed/demo.sh", d + "/demo.sh"); os.chmod(d + "/demo.sh", 0o755)
    shutil.copy("/verif/tools/seed/Cargo.toml.in", d); shutil.copy("/verif/harness/Cargo.lock", d + "/Cargo.lock.demo")
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
def confirm(i):
    w = os.environ.get("SEEDW", "/tmp/seedw"); os.makedirs(w, exist_ok=True); d = w + "/repo"
    copy(d)
    a = sh("bash %s/%s/demo.sh" % (V, i), d)
    g = sh("git apply %s/%s/patch.diff" % (V, i), d)
    b = sh("bash %s/%s/demo.sh" % (V, i), d)
    t = sh("cargo test --workspace --no-fail-fast --offline 2>&1 | grep -E '^test |^error' | sort", d, env=dict(os.environ, CARGO_TARGET_DIR=w + "/t"))
    ok = [l for l in t.stdout.split("\n") if l.endswith("... ok")]; bad = [l for l in t.stdout.split("\n") if "FAILED" in l or l.startswith("error")]
    good = a.returncode == 0 and g.returncode == 0 and b.returncode not in (0, 2, 3) and not bad and len(ok) >= 22
    print(i, "GOOD" if good else "BAD", "clean=%s apply=%s patched=%s tests ok=%d bad=%d" % (a.returncode, g.returncode, b.returncode, len(ok), len(bad)), flush=True)
    if not good: print(a.stdout[-800:], g.stdout, b.stdout[-800:], bad)
    else: print("   ", [l for l in b.stdout.strip().split("\n") if l][:2])
def checks(i, props):
    w = os.environ.get("SEEDW", "/tmp/seedw"); os.makedirs(w, exist_ok=True); d = w + "/repo"
    copy(d); assert sh("git apply %s/%s/patch.diff" % (V, i), d).returncode == 0
    h = w + "/harness"
    if os.path.isdir(h): shutil.rmtree(h)
    shutil.copytree("/verif/harness", h)
    c = open(h + "/Cargo.toml").read().replace('"/repo', '"%s' % d); open(h + "/Cargo.toml", "w").write(c)
    e = dict(os.environ, CARGO_TARGET_DIR=w + "/ht")
    r = sh("cargo build --offline --quiet", h, env=e)
    if r.returncode: print(i, "HARNESS DOES NOT BUILD", r.stdout[-1500:]); return
    b = w + "/ht/debug/vh"; want = json.load(open("%s/%s/meta.json" % (V, i)))["property"]; hit = []
    for p in props or sh(b + " list", w).stdout.split():
        r = sh("bash -c 'ulimit -v 16000000; exec timeout 800 %s run %s --seed 1 --tier quick --out /dev/null --journal %s/j'" % (b, p, w), w)
        if r.returncode == 1: hit.append(p)
        elif r.returncode != 0: hit.append("%s(rc=%s)" % (p, r.returncode))
    print(i, "property", want, "CAUGHT" if want in hit else "** NOT CAUGHT BY OWN **", "by", hit, flush=True)
def own(i):
    """The property's own check against /repo with the bug in it, which is undone straight after."""
    p = json.load(open("%s/%s/meta.json" % (V, i)))["property"]
    assert sh("git apply %s/%s/patch.diff" % (V, i), "/repo").returncode == 0
    try: r = sh("python3 /verif/check.py %s" % p, "/verif")
    finally: sh("git checkout -- .", "/repo")
    print(i, p, "CAUGHT" if r.returncode == 1 and "VIOLATION property=%s" % p in r.stdout else "** NOT CAUGHT (%s)" % r.returncode, "|".join(r.stdout.strip().split("\n")[-2:])[:400], flush=True)
if __name__ == "__main__":
    if sys.argv[1] == "own":
        for i in sys.argv[2:]: own(i)
        sys.exit(0)
    if sys.argv[1] == "make": make(*sys.argv[2:8])
    elif sys.argv[1] == "confirm":
        for i in sys.argv[2:] or sorted(os.listdir(V)): confirm(i)
    elif sys.argv[1] == "checks": checks(sys.argv[2], sys.argv[3:])
