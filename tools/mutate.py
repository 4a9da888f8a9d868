#!/usr/bin/env python3
"""Mutation sweep over scratch copies of /repo: which changes that pass the tests do the monitors miss?
   mutate.py gen OUT.json [seed]      list textual mutants of /repo's non-test sources
   mutate.py run IN.json W N OUT.jsonl  worker W of N: test, then run the checks
Nothing here is part of a check."""
import json, os, random, re, subprocess, sys, shutil
FILES = ["src/index.rs","src/raw.rs","src/vector.rs","src/list.rs","src/packed.rs","src/length.rs","src/memory.rs","src/proving.rs","src/traits.rs","src/utils.rs",
         "le/src/basic.rs","le/src/elemental_fixed.rs","le/src/elemental_variable.rs","le/src/fixed.rs","le/src/variable.rs","le/src/partial.rs","le/src/utils.rs","le/src/lib.rs","le/derive/src/lib.rs"]
OPS = [(r'==','!='),(r'!=','=='),(r' <= ',' < '),(r' >= ',' > '),(r' < ',' <= '),(r' > ',' >= '),(r'&&','||'),(r'\|\|','&&'),(r' \+ ',' - '),(r' - ',' + '),(r' \* ',' + '),(r' / ',' * '),(r' % ',' / '),
       (r' \+= ',' -= '),(r' -= ',' += '),(r' \*= ',' += '),(r'<<','>>'),(r'>>','<<'),(r'\b0\b','1'),(r'\b1\b','0'),(r'\b1\b','2'),(r'\b2\b','1'),(r'\b2\b','3'),(r'\b8\b','7'),(r'\b32\b','31'),(r'\b256\b','255'),(r'\btrue\b','false'),(r'\bfalse\b','true'),
       (r'\bleft\b','right'),(r'\bright\b','left'),(r'\.0\b','.1'),(r'\.1\b','.0'),(r'\.rev\(\)',''),(r'is_owned','is_dangling'),(r'is_dangling','is_owned'),(r'is_unit','is_inherited'),(r'is_inherited','is_unit'),
       (r'CorruptedDatabase','AccessOverflowed'),(r'AccessOverflowed','CorruptedDatabase'),(r'\bif ([^{}]*[^ {}]) \{','if true {'),(r'\bif (?!let)([^{}]*[^ {}]) \{','if false {'),(r'\bif !','if '),(r'\bmax\(','min('),(r'\bmin\(','max('),
       (r'from_le_bytes','from_be_bytes'),(r'to_le_bytes','to_be_bytes'),(r'Left','Right'),(r'Right','Left'),(r'Some\(0\)','None'),(r'\.skip\(1\)',''),(r'saturating_sub','wrapping_add'),(r'None','Some(Default::default())'),(r'\.clone\(\)\)',')')
       ,(r'rootify','unrootify'),(r'unrootify','rootify'),(r'\?;',';'),(r'len\(\)','len() + 1'),(r'max_len','len'),(r'depth','depth + 1'),(r'&mut ','& '),(r'next_power_of_two\(\)','clone()'),(r'or_insert','insert')]
def gen(out, seed=1):
    ms = []
    for f in FILES:
        lines = open("/repo/" + f).read().split("\n")
        for i, l in enumerate(lines):
            if "#[cfg(test)]" in l: break
            st = l.strip()
            if not st or st.startswith(("//", "#", "use ", "pub use", "extern", "mod ", "impl", "where", "type ", "pub type", "pub struct", "pub trait", "trait")): continue
            for pat, rep in OPS:
                for m in re.finditer(pat, l):
                    n = l[:m.start()] + m.expand(rep) + l[m.end():]
                    if n != l: ms.append(dict(file=f, line=i, old=l, new=n))
            # drop a statement
            if st.endswith(";") and not st.startswith(("let ", "return", "}", ")", ".")) and l.count("(") == l.count(")"):
                ms.append(dict(file=f, line=i, old=l, new=re.match(r"\s*", l).group(0) + "();"))
            # swap with next statement
            if i + 1 < len(lines) and st.endswith(";") and lines[i + 1].strip().endswith(";") and st.count("(") == st.count(")") and st != lines[i+1].strip():
                ms.append(dict(file=f, line=i, old=l + "\n" + lines[i + 1], new=lines[i + 1] + "\n" + l))
    seen, u = set(), []
    for m in ms:
        k = (m["file"], m["line"], m["new"])
        if k not in seen: seen.add(k); u.append(m)
    random.Random(seed).shuffle(u)
    json.dump(u, open(out, "w"), indent=0)
    print(len(u))
def sh(cmd, cwd, env, t):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired: return None, ""
def run(inp, w, n, out):
    ms = json.load(open(inp))
    root = "/tmp/mut/w%d" % w
    if os.path.isdir(root): shutil.rmtree(root)
    os.makedirs(root)
    subprocess.run(["cp", "-a", "/repo", root + "/repo"], check=True)
    subprocess.run(["cp", "-a", "/verif/harness", root + "/harness"], check=True)
    c = open(root + "/harness/Cargo.toml").read().replace('"/repo', '"%s/repo' % root).replace("opt-level = 2", "opt-level = 1").replace('debug = "line-tables-only"', "debug = false")
    open(root + "/harness/Cargo.toml", "w").write(c)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_BUILD_JOBS="2")
    done = set()
    if os.path.exists(out): done = {json.loads(l)["k"] for l in open(out)}
    for k, m in enumerate(ms):
        if k % n != w or k in done: continue
        p = root + "/repo/" + m["file"]
        src = open("/repo/" + m["file"]).read().split("\n")
        x = list(src)
        if m["old"].count("\n"): x[m["line"]:m["line"] + 2] = m["new"].split("\n")
        else: x[m["line"]] = m["new"]
        open(p, "w").write("\n".join(x))
        res = dict(k=k, **m)
        c, o = sh(["cargo", "build", "--offline", "--quiet", "--workspace"], root + "/repo", dict(env, CARGO_TARGET_DIR=root + "/rt"), 300)
        if c != 0: res["r"] = "nobuild"
        else:
            c, o = sh(["timeout", "-s", "KILL", "120", "cargo", "test", "--workspace", "--offline", "--quiet"], root + "/repo", dict(env, CARGO_TARGET_DIR=root + "/rt"), 300)
            if c != 0: res["r"] = "tests"
            else:
                c, o = sh(["cargo", "build", "--offline", "--quiet"], root + "/harness", dict(env, CARGO_TARGET_DIR=root + "/ht"), 600)
                if c != 0: res["r"] = "harness-nobuild"; res["o"] = o[-500:]
                else:
                    res["r"] = "MISSED"
                    caught = []
                    b = root + "/ht/debug/vh"
                    for pr in sh([b, "list"], root, env, 10)[1].split():
                        if pr == "C21": continue
                        c, o = sh(["bash", "-c", "ulimit -v 12000000; exec %s run %s --seed 1 --cases 2500 --out /dev/null --journal %s/j" % (b, pr, root)], root, env, 300)
                        kn = sorted(set(re.findall(r"KNOWN sig=(\S+)", o)))
                        if c != 0: caught.append("%s:%s:%s" % (pr, c, (re.findall(r"(?:FOUND|HARNESS|CPULIMIT|INCONCLUSIVE).*", o) or [""])[0][:160]))
                        else: res.setdefault("known", []).extend(kn)
                        if len(caught) >= 4: break
                    if caught: res["r"] = "caught"; res["by"] = caught
        open(p, "w").write("\n".join(src))
        with open(out, "a") as f: f.write(json.dumps(res) + "\n")
if sys.argv[1] == "gen": gen(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 1)
else: run(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5])
