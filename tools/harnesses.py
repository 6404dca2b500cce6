"""Building and running the concrete search (/verif/harness), and the vacuity probe."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = f"{HERE}/build/harness"
RULE = ("A case is one operation (or view, comparison, conversion) on a string of one capacity holding one text, with what the buffer held before, compared with an "
        "independent model built on std::str; exhaustive over small texts and arguments at capacities 1-3 (1-4 deep), then seeded random at all listed capacities with "
        "short histories. Non-trivial: the text is not empty before or after; distinct: by capacity, text and operation.")
BINS = ["harness"] + [f"part{k}" for k in range(8)]

def fresh(target):
    """cargo judges by modification times; a tree that was swapped for another with older ones must not pass as built"""
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk("/repo/src")):
        for f in sorted(fs):
            h.update(f.encode() + b"\0" + open(f"{d}/{f}", "rb").read() + b"\0")
    h.update(open("/repo/Cargo.toml", "rb").read())
    mark = f"{target}/built-of"
    if os.path.exists(target) and (not os.path.exists(mark) or open(mark).read() != h.hexdigest()):
        for x in glob.glob(f"{target}/**/.fingerprint/arraystring-*", recursive=True, include_hidden=True):
            shutil.rmtree(x, ignore_errors=True)
        for x in glob.glob(f"{target}/**/deps/libarraystring-*", recursive=True):
            os.remove(x)
    os.makedirs(target, exist_ok=True)
    open(mark, "w").write(h.hexdigest())

def start_build(wd, bins=("harness",), config=None):
    if not config:
        fresh(TARGET)
    log = open(f"{wd}/build-{bins[0]}{where(config)[1]}.log", "w")
    env = dict(os.environ, CARGO_TERM_COLOR="never")
    cmd = ["cargo", "build", "--offline", "--manifest-path", f"{HERE}/harness/Cargo.toml", "--target-dir", where(config)[0]]
    if config:
        on = [f for k, f in (("std", "std"), ("logs", "logs"), ("serde", "serde-traits"), ("diesel", "diesel-traits"), ("nopanic", "nopanic")) if config[k]]
        cmd += ["--no-default-features", "--features", ",".join(on)] + ([] if config["debug"] else ["--release"])
        subprocess.run(["rm", "-rf", where(config)[0]])
    for b in bins:
        cmd += ["--bin", b]
    return subprocess.Popen(cmd, stdout=log, stderr=log, env=env), log.name

def where(config):
    """the target directory of a build configuration other than the usual one, and its name in file names"""
    n = "-".join(k for k in sorted(config) if config[k]) or "none" if config else ""
    return (f"{HERE}/build/harness-{n}", "-" + n) if config else (TARGET, "")

def program(b, config=None):
    return f"{where(config)[0]}/{'debug' if not config or config['debug'] else 'release'}/{b}"

def wait(build, timeout=600):
    p, log = build
    try:
        rc = p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        return f"build timed out after {timeout} s"
    if rc != 0:
        t = open(log).read()
        return "the search does not build against this tree: " + "\n".join(re.findall(r"^error.*", t, re.M)[:5])
    return None

def run_many(jobs, ms, wd, config=None):
    """jobs: list of (bin, args); returns merged results"""
    ps = []
    for n, (b, args) in enumerate(jobs):
        at = f"{wd}/at{b}{n}"
        o, e = open(f"{wd}/out{n}", "w+"), open(f"{wd}/err{n}", "w+")
        cmd = [program(b, config), *args, "--ms", str(ms), "--at", at]
        ps.append((b, args, at, o, e, subprocess.Popen(cmd, stdout=o, stderr=e)))
    res = []
    end = time.time() + ms / 1000 * 3 + 60
    for b, args, at, o, e, p in ps:
        hung = False
        try:
            rc = p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc, hung = -9, True
        o.seek(0)
        e.seek(0)
        out, err = o.read(), e.read()[-2000:]
        d = None
        if rc == 0:
            try:
                d = json.loads(out)
            except ValueError:
                pass
        if d is None:
            case = open(at).read().strip() if os.path.exists(at) else ""
            what = "did not come back" if hung else f"the process ended abnormally (status {rc}) {err.strip()[-400:]}"
            d = {"evaluations": 0, "distinct_nontrivial": 0, "capacities": 0, "samples": [], "phases": [], "crashed": True, "hung": hung,
                 "fails": [{"case": case, "input": f"case {case} of {b} {' '.join(args)}", "got": what, "want": "an answer"}]}
        d["bin"], d["args"] = b, args
        for f in d["fails"]:
            f["replay"] = f"{program(b, config)} {' '.join(a for a in args)} --only {f['case']}"
        if d.get("crashed"):
            confirm(d, ms)
        res.append(d)
    return res

def confirm(d, ms):
    """a crash counts only if the case it happened in crashes again by itself; its input is then printed"""
    f = d["fails"][0]
    if not f["case"]:
        d["fails"] = []
        return
    try:
        p = subprocess.run(f["replay"].split() + ["--ms", "1000"], capture_output=True, text=True, timeout=60)
        rc, err = p.returncode, p.stderr
    except subprocess.TimeoutExpired as e:
        rc, err = -9, (e.stderr or b"").decode(errors="replace") if isinstance(e.stderr, bytes) else str(e.stderr or "")
    if rc == 0:
        d["fails"] = []
        return
    m = re.findall(r"^CASE (.*)", err, re.M)
    if m:
        f["input"] = m[-1][:1500]

def merge(s, rs):
    for d in rs:
        s["evaluations"] += d["evaluations"]
        s["distinct_nontrivial"] += d["distinct_nontrivial"]
        s["fails"] += d["fails"]
        s["samples"] += [x for x in d["samples"][:8] if len(s["samples"]) < 12]
        s["runs"] += 1
        for p in d["phases"]:
            if p not in s["phases"]:
                s["phases"].append(p)

def brief(prop, seed, wd, build, dic, deep, others=()):
    s = {"evaluations": 0, "distinct_nontrivial": 0, "fails": [], "samples": [], "runs": 0, "phases": [], "capacities": "20 of 255 and CacheString", "problem": None}
    err = wait(build)
    dargs = []
    if dic:
        open(f"{wd}/dict", "w").write(dic)
        dargs = ["--dict", f"{wd}/dict"]
    if err:
        s["problem"] = err
        rest(s, prop, seed, wd, dargs, deep)
        return s
    merge(s, run_many([("harness", [prop, "--seed", str(seed), *dargs])], 6000 if not deep else 20000, wd))
    # the code asks how it is built: the other builds of it are run as well
    for c in others:
        if s["fails"]:
            break
        err = wait(start_build(wd, ("harness",), c), 400)
        if err:
            s["problem"] = err
            continue
        merge(s, run_many([("harness", [prop, "--seed", str(seed * 100 + k), *dargs]) for k in range(2)], 6000 if not deep else 20000, wd, c))
    return s

def rest(s, prop, seed, wd, dargs, deep):
    """a type or a method the search uses is gone: what of it still builds is run"""
    bins = [*BINS, "layout"]
    for b in bins:
        if os.path.exists(program(b)):
            os.remove(program(b))
    log = f"{wd}/build-rest.log"
    cmd = ["cargo", "build", "--offline", "--manifest-path", f"{HERE}/harness/Cargo.toml", "--target-dir", TARGET, "--keep-going", "--features", "lost"]
    for b in bins:
        cmd += ["--bin", b]
    wait((subprocess.Popen(cmd, stdout=open(log, "w"), stderr=subprocess.STDOUT, env=dict(os.environ, CARGO_TERM_COLOR="never")), log), 500)
    left = [b for b in bins if os.path.exists(program(b))]
    merge(s, run_many([(b, [prop, "--seed", str(seed * 1000 + 17), *dargs]) for b in left], 10000 if not deep else 60000, wd))
    s["capacities"] = f"those of {', '.join(left) or 'no program'}"

def long(s, prop, seed, wd, dic, deep):
    """eight at a time, first at the usual capacities with other seeds, then at all the others"""
    dargs = ["--dict", f"{wd}/dict"] if dic else []
    if s["problem"]:
        return
    parts = start_build(wd, BINS[1:])
    merge(s, run_many([("harness", [prop, "--seed", str(seed * 1000 + k), "--deep", *dargs]) for k in range(7)], 30000 if not deep else 90000, wd))
    if s["fails"]:
        parts[0].kill()
        return
    err = wait(parts)
    if err:
        s["problem"] = err
        return
    merge(s, run_many([(b, [prop, "--seed", str(seed * 1000 + 17), "--deep", *dargs]) for b in BINS[1:]], 25000 if not deep else 90000, wd))
    s["capacities"] = "all of 1 to 255 and CacheString"

def literals(src):
    """integer, character and string literals of the code (not of comments, attributes or tests)"""
    sys.path.insert(0, f"{HERE}/tools")
    import rustlex as rl
    tk, _ = rl.lex(src)
    out = set()
    end = len(tk)
    k = 0
    while k < end:
        t = tk[k]
        if t.s == "#" and k + 1 < end and tk[k + 1].s == "[":
            e = tk[k + 1].m
            if "".join(x.s for x in tk[k + 1:e + 1]) == "[cfg(test)]":
                break
            k = e + 1
            continue
        if t.k == "lit":
            out.add(t.s)
        k += 1
    return out

def dictionary(repo, here):
    """literals that this tree mentions and the original did not: values the search should try"""
    try:
        base = set(json.load(open(f"{here}/contracts/literals.json")))
        lits = set()
        for n in sorted(os.listdir(f"{repo}/src")):
            if n.endswith(".rs"):
                lits |= literals(open(f"{repo}/src/{n}").read())
        out = []
        for x in sorted(lits - base):
            m = re.fullmatch(r"(0[xX][0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)(?:[ui](?:8|16|32|64|128|size))?", x)
            if m:
                v = int(m.group(1).replace("_", ""), 0) if not re.fullmatch(r"0\d+", m.group(1)) else int(m.group(1))
                if v < 2 ** 64:
                    out.append(f"i {v}")
                if v < 0x110000 and not 0xD800 <= v < 0xE000:
                    out.append(f"c {v}")
            elif x.startswith(("'", "b'")):
                try:
                    c = eval(re.sub(r"\\u\{([0-9a-fA-F_]+)\}", lambda m: "\\U%08x" % int(m.group(1), 16), x.lstrip("b")))
                    out.append(f"c {ord(c)}")
                except Exception:
                    pass
            elif x.startswith(('"', 'b"')) and "{" not in x.replace("\\u{", "") and len(x) < 200:
                try:
                    c = eval(re.sub(r"\\u\{([0-9a-fA-F_]+)\}", lambda m: "\\U%08x" % int(m.group(1), 16), x.lstrip("b").replace("\n", " ")))
                    out.append("s " + json.dumps(c))
                except Exception:
                    pass
        return "\n".join(out)
    except Exception:
        return ""

if __name__ == "__main__":
    if sys.argv[1] == "literals":
        lits = set()
        for n in os.listdir("/repo/src"):
            if n.endswith(".rs"):
                lits |= literals(open(f"/repo/src/{n}").read())
        json.dump(sorted(lits), open(f"{HERE}/contracts/literals.json", "w"), indent=0)
    elif sys.argv[1] == "build":
        os.makedirs(f"{HERE}/build", exist_ok=True)
        err = wait(start_build(f"{HERE}/build", tuple(BINS)), 1500)
        import stdcheck
        stdcheck.run(f"{HERE}/build")
        print(err or "built")
        sys.exit(1 if err else 0)
