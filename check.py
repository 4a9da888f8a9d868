#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] | check.py --build

Builds the harness from /repo's working tree, runs the property's monitor, rewrites
/verif/evidence/<property>.json. Exit 0: held; 1: violation (with a VIOLATION line);
anything else: the check itself could not decide."""
import fcntl, hashlib, json, os, resource, struct, subprocess, sys, time
sys.dont_write_bytecode = True
import hosts

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
CRATES = {"vh": ("harness", "target"), "vh-nostd": ("harness_nostd", "target-nostd"), "vh-host": ("harness_host", "target-host")}
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
ENV.pop("RUSTFLAGS", None)

def say(*a): print(*a, flush=True)

def source_hash():
    h = hashlib.sha256()
    files = []
    for base, dirs, names in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
        files += [os.path.join(base, n) for n in names if n.endswith((".rs", ".toml", ".lock"))]
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh: h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()

def build(name):
    crate, target = CRATES[name]
    src, target = os.path.join(VERIF, crate), os.path.join(VERIF, target)
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, ".verif-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        env = dict(ENV, CARGO_TARGET_DIR=target)
        stamp, want = os.path.join(target, ".verif-stamp"), source_hash()
        have = open(stamp).read() if os.path.exists(stamp) else ""
        if have != want:
            # file times need not tell that the sources changed: drop what was built from them
            subprocess.run(["cargo", "clean", "--offline", "-p", "bm", "-p", "bm-le", "-p", "bm-le-derive"], cwd=src, env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            say(r.stdout[-6000:])
            say("ERROR: the harness does not build")
            if name == "vh-nostd":
                # do the libraries themselves build without their standard-library feature?
                r = subprocess.run(["cargo", "build", "--offline", "--quiet", "-p", "bm", "-p", "bm-le"], cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode != 0 and "--> /repo/" in r.stdout and "error" in r.stdout: return r.stdout[-4000:].splitlines()
            sys.exit(2)
        with open(stamp, "w") as f: f.write(want)
    return os.path.join(target, "debug", name)

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def run(cmd, timeout):
    try:
        p = subprocess.run(cmd, cwd=VERIF, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, preexec_fn=limits)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        out = e.stdout or b""
        return None, out.decode(errors="replace") if isinstance(out, bytes) else out

def lines(out, key): return [l for l in out.splitlines() if l.startswith(key + " ")]

def known():
    with open(os.path.join(VERIF, "known_findings.json")) as f: return json.load(f)["findings"]

def violation(prop, info):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-seed%s-case%s.json" % (prop, info["seed"], info["case"]))
    with open(path, "w") as f: json.dump(dict(property=prop, **info), f, indent=1)
    say("what: %s" % info["what"][:2000])
    say("VIOLATION property=%s replay=%s" % (prop, path))
    sys.exit(1)

def evidence(prop, tier, seed, out, extra=None):
    with open(out) as f: e = json.load(f)
    if extra: e["coverage"].setdefault("observed", {}).update(extra)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f: json.dump(e, f, indent=1)
    os.replace(p + ".tmp", p)
    return e

def once(binary, prop, tier, seed, tag=""):
    """One run of the binary: returns its output, with a crash or a runaway case turned into what it proves."""
    tmp = os.path.join(TARGET, "run-%s%s-%d" % (prop, tag, os.getpid()))
    out, journal = tmp + ".json", tmp + ".journal"
    args = ["--seed", str(seed), "--tier", tier]
    try:
        code, text = run([binary, "run", prop] + args + ["--out", out, "--journal", journal] + (["--digests", tmp + ".digests"] if prop == "C21" else []), 3500 if tier == "thorough" else 600)
        if code is None:
            say(text[-2000:]); say("ERROR: the run did not end in its wall-clock time"); sys.exit(2)
        replay = lambda c: "%s case %s --seed %s --tier %s --case %s" % (binary, prop, seed, tier, c)
        for l in lines(text, "FOUND"):
            c, what = l.split(" what=", 1)
            c = c.split("case=")[1]
            _, trace = run([binary, "case", prop] + args + ["--case", c], 300)
            violation(prop, dict(seed=seed, tier=tier, case=c, what=what, command=replay(c), trace=trace.splitlines()[-80:]))
        if code == 0 or code == 2: return code, text, out
        # crash (signal), or a case past its CPU limit: does a case do so on its own?
        cases = [int(l.split("case=")[1].split()[0]) for l in lines(text, "CPULIMIT")]
        if not cases and os.path.exists(journal):
            raw = open(journal, "rb").read()
            cases = [x - 1 for (x,) in struct.iter_unpack("<Q", raw[:len(raw) // 8 * 8]) if x]
        for c in cases:
            code2, text2 = run([binary, "case", prop] + args + ["--case", str(c), "--limit", "120"], 600)
            if code2 is None or code2 in (0, 2): continue
            what = "the process was ended by signal %d" % -code2 if code2 < 0 else "the case did not end within its CPU limit" if code2 == 3 else "exit code %d" % code2
            tail = [l for l in text2.splitlines()][-30:]
            violation(prop, dict(seed=seed, tier=tier, case=c, what=what + ": " + " | ".join(tail)[-600:], command=replay(c), trace=tail))
        say(text[-3000:])
        say("ERROR: the run ended with %s and no single case reproduces it" % code)
        sys.exit(2)
    finally:
        if os.path.exists(journal): os.unlink(journal)

def build_hosts():
    """For the interpreter: the harness as on other hosts. None, or the host it does not build for and why."""
    target = os.path.join(VERIF, "target-miri")
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, ".verif-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp, want = os.path.join(target, ".verif-stamp"), source_hash()
        have = open(stamp).read() if os.path.exists(stamp) else ""
        crate = os.path.join(VERIF, "harness_host")
        if have != want:
            for h in hosts.HOSTS:
                subprocess.run(["cargo", "+nightly", "clean", "--offline", "--profile", "dev", "--target", h, "-p", "bm", "-p", "bm-le", "-p", "bm-le-derive"], cwd=crate, env=hosts.env(ENV, VERIF), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        try: r = hosts.prepare(say, ENV, VERIF, crate)
        except subprocess.TimeoutExpired: r = ("", "building for the interpreter did not end")
        if r is None:
            with open(stamp, "w") as f: f.write(want)
        return r

def on_hosts(prop, tier, seed):
    start = time.time()
    binary = build("vh-host")
    r = build_hosts()
    if r:
        host, out = r
        say(out[-4000:])
        if "error" in out and "--> /repo/" in out.split("error", 1)[1]:
            violation(prop, dict(seed=seed, tier=tier, case="build", what="the libraries do not build, or do not start, for %s" % host, command="cargo +nightly miri run --target %s" % host, trace=out.splitlines()[-40:]))
        say("ERROR: the harness does not build for the interpreter (%s)" % host)
        return 2
    verdict, info, cov = hosts.check(say, ENV, VERIF, os.path.join(VERIF, "harness_host"), binary, tier, seed, limits)
    if verdict == "violation": violation(prop, dict(info, seed=seed, tier=tier))
    if verdict != "held": say("ERROR: no verdict: %s" % info["what"]); return 2
    e = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, wall_s=round(time.time() - start, 3), violations=0,
             assumptions=["the toy digest has no collisions among the nodes met", "Miri interprets programs as the hosts it is asked for would run them; its checks of initialized values and aliasing are off (generic-array 0.12 uses mem::uninitialized)", "primitive-types and generic-array are trusted"])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f: json.dump(e, f, indent=1)
    os.replace(p + ".tmp", p)
    say("HELD property=%s evaluations=%d distinct=%d %s" % (prop, cov["evaluations"], cov["distinct_nontrivial"], cov["observed"]["interpreted"]))
    return 0

def main():
    a = sys.argv[1:]
    if a and a[0] == "--build":
        for n in CRATES:
            try: build(n)
            except SystemExit:
                if n == "vh": raise
        build_hosts()
        return 0
    prop = a[0]
    opt = lambda k, d: a[a.index(k) + 1] if k in a else d
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    tier = tier if tier in ("quick", "thorough") else "quick"
    try: seed = int(opt("--seed", os.environ.get("VERIF_SEED", "1"))) & 0xffffffff
    except ValueError: seed = 1
    if prop == "C22": return on_hosts(prop, tier, seed)
    binary = build("vh")
    code, text, out = once(binary, prop, tier, seed)
    seen = [(l.split("sig=")[1].split()[0], l.split(" what=", 1)[1]) for l in lines(text, "KNOWN")]
    listed = {(k["property"], k["sig"]): k for k in known()}
    for sig, what in seen:
        if (prop, sig) not in listed:
            violation(prop, dict(seed=seed, tier=tier, case="probe-" + sig, what=what, command="%s run %s" % (binary, prop), trace=[]))
        say("KNOWN-FINDING: property=%s %s: %s" % (prop, sig, what))
    if code != 0:
        say(text[-3000:]); say("ERROR: no verdict"); os.path.exists(out) and os.unlink(out)
        return 2
    extra = {}
    if prop == "C21":
        other = build("vh-nostd")
        if isinstance(other, list): violation(prop, dict(seed=seed, tier=tier, case="build", what="the libraries do not build without their standard-library feature", command="cargo build --no-default-features", trace=other))
        code2, text2, out2 = once(other, prop, tier, seed, "-nostd")
        if code2 != 0:
            say(text2[-3000:]); say("ERROR: no verdict from the build without std"); return 2
        compare(prop, tier, seed, binary, other, out, out2, extra)
        os.unlink(out2)
    e = evidence(prop, tier, seed, out, extra)
    os.unlink(out)
    for l in lines(text, "SUMMARY"): say(l)
    say("HELD property=%s evaluations=%d distinct=%d" % (prop, e["coverage"]["evaluations"], e["coverage"]["distinct_nontrivial"]))
    return 0

def compare(prop, tier, seed, a, b, outa, outb, extra):
    """What the two builds saw, case by case."""
    da, db = [open(o.replace(".json", ".digests"), "rb").read() for o in (outa, outb)]
    for o in (outa, outb): os.unlink(o.replace(".json", ".digests"))
    if len(da) != len(db): say("ERROR: the two builds ran different numbers of cases"); sys.exit(2)
    unsure = []
    for c in (c for c in range(len(da) // 8) if da[8 * c:8 * c + 8] != db[8 * c:8 * c + 8]):
        args = ["--seed", str(seed), "--tier", tier, "--case", str(c)]
        ta, tb = [[l for l in run([x, "case", prop] + args, 300)[1].splitlines()] for x in (a, b)]
        diff = [(x, y) for x, y in zip(ta, tb) if x != y] or ([("", "")] if len(ta) != len(tb) else [])
        # a build that differs from itself depends on its map's order: that, too, is a difference between builds
        if not diff: unsure.append(c); continue
        violation(prop, dict(seed=seed, tier=tier, case=c, what="with the standard library: %.500s -- without: %.500s" % diff[0], command="%s case C21 %s; the same with %s" % (a, " ".join(args), b), trace=ta[-60:] + ["---- without the standard library"] + tb[-60:]))
    if unsure:
        violation(prop, dict(seed=seed, tier=tier, case=unsure[0], what="%d cases saw different things in the two builds (first: case %d), though not when run again" % (len(unsure), unsure[0]), command="%s run C21 --seed %s" % (a, seed), trace=[]))
    extra["cases_compared_between_builds"] = len(da) // 8

if __name__ == "__main__": sys.exit(main())
