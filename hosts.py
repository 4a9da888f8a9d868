"""C22: the same cases on hosts of other word size and byte order.

The harness built for this host gives, case by case, a digest of everything observed; the
interpreter (Miri) runs the same cases as on a 64-bit big-endian and on a 32-bit little-endian
host. Any difference, any case failing, crashing or not ending on one host only, is a violation."""
import os, queue, random, resource, signal, subprocess, threading, time

HOSTS = {"s390x-unknown-linux-gnu": "64-bit big-endian", "i686-unknown-linux-gnu": "32-bit little-endian"}
# The interpreter checks accesses; what it says of values being initialized and of aliasing is off,
# since generic-array 0.12 (a dependency) uses mem::uninitialized.
FLAGS = "-Zmiri-disable-isolation -Zmiri-permissive-provenance -Zmiri-disable-validation -Zmiri-disable-stacked-borrows"
CHEAP = 1500      # work of a case worth interpreting
WORKERS = 8

def env(base, verif):
    t = os.path.join(verif, "target-miri")
    os.makedirs(os.path.join(t, "cache"), exist_ok=True)
    return dict(base, XDG_CACHE_HOME=os.path.join(t, "cache"), MIRIFLAGS=FLAGS, CARGO_TARGET_DIR=t)

def command(host, *args): return ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--target", host, "--"] + list(args)

def prepare(say, base, verif, crate):
    """Builds the interpreter's standard libraries and the harness for every host; the first host that fails, with what was said."""
    got = {}
    def one(host):
        for _ in range(2):
            p = subprocess.run(command(host, "list"), cwd=crate, env=env(base, verif), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=800)
            got[host] = (p.returncode == 0 and "C22" in p.stdout.split(), p.stdout)
            if got[host][0]: return
    for h in HOSTS: one(h)
    for h, (ok, out) in got.items():
        if not ok: return h, out
    return None

def parse(lines):
    """CASE, SEEN and DONE lines of one case."""
    r = {"seen": []}
    for l in lines:
        p = l.split(" ", 5)
        if p[0] == "CASE": r.update(case=int(p[1]), work=int(p[2]), digest=p[3], label=p[4], outcome=p[5].strip())
        elif p[0] == "SEEN": r["seen"].append(l.split(" ", 2)[2])
        elif p[0] == "DONE": r["counts"] = {k: int(v) for k, v in (x.split("=") for x in l.split(" ", 2)[2].split())} if l.count(" ") > 1 else {}
    return r

def plan(binary, seed, n, limits, wall):
    """All cases on this host. A case that ends the process is left out: that is for other checks to report."""
    ref, first, died, end = {}, 0, 0, time.time() + wall
    while first < n and time.time() < end and died < 20:
        p = subprocess.Popen([binary, "some", "C22", "--seed", str(seed), "--list", "-"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", preexec_fn=limits)
        watch = threading.Timer(max(1, end - time.time()), p.kill)
        watch.start()
        def feed(lo=first):
            try:
                for lo in range(lo, n, 512): p.stdin.write("".join("%d\n" % c for c in range(lo, min(n, lo + 512)))); p.stdin.flush()
                p.stdin.close()
            except (OSError, ValueError): pass
        t = threading.Thread(target=feed, daemon=True); t.start()
        buf, at = [], first
        for l in p.stdout:
            if l.startswith("BEGIN"): buf, at = [], int(l.split()[1])
            buf.append(l)
            if l.startswith("DONE"): r = parse(buf); ref[r["case"]] = r; first = r["case"] + 1
        p.wait(); watch.cancel()
        if first < n: first = at + 1; died += 1
    return ref

class Host:
    """Interprets cases from a queue in several processes."""
    def __init__(self, host, base, verif, crate, seed, deadline, each):
        self.host, self.env, self.crate, self.seed, self.deadline, self.each = host, env(base, verif), crate, seed, deadline, each
        self.q, self.done, self.odd, self.lock = queue.Queue(), {}, [], threading.Lock()
    def start(self, errors=False):
        return subprocess.Popen(command(self.host, "some", "C22", "--seed", str(self.seed), "--list", "-"), cwd=self.crate, env=self.env, stdin=subprocess.PIPE,
                                stdout=subprocess.PIPE, stderr=subprocess.PIPE if errors else subprocess.DEVNULL, text=True, errors="replace", start_new_session=True)
    def kill(self, p):
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        p.wait()
    def worker(self, stop):
        while time.time() < self.deadline and not self.q.empty() and not stop.is_set():
            p = self.start()
            now = {"case": None, "since": time.time()}
            gone = threading.Event()
            def guard():
                while not gone.wait(0.5):
                    t = time.time()
                    if t > self.deadline or stop.is_set(): now["why"] = "time"; self.kill(p); return
                    if now["case"] is not None and t - now["since"] > self.each: now["why"] = "slow"; self.kill(p); return
            g = threading.Thread(target=guard, daemon=True); g.start()
            def feed():
                try: c = self.q.get_nowait()
                except queue.Empty: c = None
                try:
                    if c is None: p.stdin.close()
                    else: now["case"], now["since"] = c, time.time(); p.stdin.write("%d\n" % c); p.stdin.flush()
                except (OSError, ValueError): pass
            buf = []
            for l in p.stdout:
                if l.startswith("READY"): feed()
                elif l.startswith("BEGIN"): buf = [l]
                elif l.startswith("DONE"):
                    r = parse(buf + [l]); now["case"] = None
                    with self.lock: self.done[r["case"]] = r
                    if time.time() < self.deadline: feed()
                    else: p.stdin.close()
                else: buf.append(l)
            gone.set(); self.kill(p)
            if now["case"] is not None and now.get("why") != "time":
                with self.lock: self.odd.append((now["case"], now.get("why", "died")))
    def alone(self, case, limit):
        """One case in a process of its own: ('done', r), ('died', text) or ('slow', '')."""
        p = self.start(errors=True)
        try: out, err = p.communicate("%d\n" % case, timeout=limit)
        except subprocess.TimeoutExpired: self.kill(p); return "slow", ""
        if any(l.startswith("DONE") for l in out.splitlines()): return "done", parse(out.splitlines())
        return "died", err

def check(say, base, verif, crate, binary, tier, seed, limits):
    """(verdict, info, coverage): verdict 'held', 'violation' or 'unsure'."""
    began = time.time()
    thorough = tier == "thorough"
    n, wall, per_label = (60000, 2400, 120) if thorough else (12000, 170, 9)
    ref = plan(binary, seed, n, limits, 600 if thorough else 150)
    for c in sorted(ref):
        r = ref[c]
        if r["label"] == "edges" and r["outcome"] != "held":
            return "violation", dict(case=c, what="on this host: " + r["outcome"], command="%s case C22 --seed %d --case %d" % (binary, seed, c), trace=r["seen"]), None
    rng, labels = random.Random(seed), {}
    for c, r in ref.items():
        if r["work"] <= CHEAP and not r["outcome"].startswith("harness"): labels.setdefault(r["label"], []).append(c)
    order = []
    for l in sorted(labels): rng.shuffle(labels[l])
    for k in range(per_label):
        for l in sorted(labels):
            # the workloads made for this property, and the borrowed ones
            m = 3 if l in ("session", "partial", "edges") else 1
            order += labels[l][k * m:k * m + m]
    deadline = time.time() + wall
    stop, hosts, threads = threading.Event(), [], []
    for h in HOSTS:
        x = Host(h, base, verif, crate, seed, deadline, 200 if thorough else 120)
        for c in order: x.q.put(c)
        hosts.append(x)
        threads += [threading.Thread(target=x.worker, args=(stop,), daemon=True) for _ in range(WORKERS // len(HOSTS))]
    for t in threads: t.start()
    bad = None
    while any(t.is_alive() for t in threads):
        time.sleep(0.5)
        for x in hosts:
            with x.lock: done = dict(x.done)
            for c, r in done.items():
                if r["digest"] != ref[c]["digest"] or (r["outcome"] == "held") != (ref[c]["outcome"] == "held"): bad = bad or (x, c, r)
        if bad: stop.set()
    for t in threads: t.join()
    for x in hosts:
        for c, r in x.done.items():
            if r["digest"] != ref[c]["digest"] or (r["outcome"] == "held") != (ref[c]["outcome"] == "held"): bad = bad or (x, c, r)
    def found(x, c, what, trace):
        cmd = "cd %s && XDG_CACHE_HOME=%s MIRIFLAGS='%s' CARGO_TARGET_DIR=%s %s; on this host: %s case C22 --seed %d --case %d" % (crate, x.env["XDG_CACHE_HOME"], FLAGS, x.env["CARGO_TARGET_DIR"], " ".join(command(x.host, "case", "C22", "--seed", str(seed), "--case", str(c))), binary, seed, c)
        return "violation", dict(case=c, what="case %d (%s) on a %s host (%s): %s" % (c, ref[c]["label"], HOSTS[x.host], x.host, what), command=cmd, trace=trace), None
    if bad:
        x, c, r = bad
        again = subprocess.run([binary, "some", "C22", "--seed", str(seed), "--list", str(c)], stdout=subprocess.PIPE, text=True, errors="replace").stdout
        here = parse(again.splitlines())
        if here.get("digest") != ref[c]["digest"]: return "unsure", dict(what="case %d differs from itself on this host" % c), None
        return found(x, c, "%s, saw %s (digest %s); here: %s, saw %s (digest %s)" % (r["outcome"], r["seen"][-2:], r["digest"], ref[c]["outcome"], ref[c]["seen"][-2:], ref[c]["digest"]), r["seen"] + ["---- here"] + ref[c]["seen"])
    unsupported = 0
    for x in hosts:
        for c, why in x.odd[:3]:
            limit = 240 if thorough else min(240, began + 620 - time.time())
            if limit < 60: break
            got, info = x.alone(c, limit)
            if got == "done":
                if info["digest"] != ref[c]["digest"]: return found(x, c, "%s, saw %s; here: %s, saw %s" % (info["outcome"], info["seen"][-2:], ref[c]["outcome"], ref[c]["seen"][-2:]), info["seen"])
                x.done[c] = info
            elif got == "died":
                errs = [l for l in info.splitlines() if l.startswith("error")]
                if any("unsupported operation" in l or "resource exhaustion" in l for l in errs): unsupported += 1; continue
                return found(x, c, "the process ends: " + " | ".join(errs)[:600], info.splitlines()[-60:])
            elif limit >= 200: return found(x, c, "does not end (here it does %d units of work)" % ref[c]["work"], [])
    counts = {}
    for x in hosts:
        for r in x.done.values():
            for k, v in r["counts"].items(): counts[k] = max(counts.get(k, 0), v) if k.startswith("max_") else counts.get(k, 0) + v
    per = {x.host: len(x.done) for x in hosts}
    by = {}
    for x in hosts:
        for c in x.done: by[ref[c]["label"]] = by.get(ref[c]["label"], 0) + 1
    cov = dict(evaluations=sum(per.values()), distinct_nontrivial=len({(x.host, r["digest"]) for x in hosts for r in x.done.values()}),
               rule="one case: a session, a partial flush or a workload of another property (toy digests, quantities that fit the narrowest word, ordered maps), run natively and by the interpreter as on each of two other hosts, all its observations (results, roots, stores, proofs, backend calls) digested and compared; or lengths and maxima around what the host's own words hold, judged by their width. Cases are drawn in turn from each workload among those of little work. Non-trivial always; distinct by host and digest",
               samples=[dict(host=x.host, case=c, workload=ref[c]["label"], work=ref[c]["work"], digest=r["digest"], seen=[s[:300] for s in r["seen"]]) for x in hosts for c, r in list(sorted(x.done.items()))[:3]],
               observed=dict(counts, interpreted={HOSTS[h]: k for h, k in per.items()}, by_workload=by, cases_planned_on_this_host=len(ref), died_unsupported=unsupported), cases_planned=len(order) * len(hosts))
    if min(per.values()) < 12: return "unsure", dict(what="only %s cases interpreted" % per), cov
    return "held", dict(wall=time.time() - began), cov
