"""Extracts /repo's functions with their contracts, runs Verus on them, and says for every function
whether every obligation of it was discharged, some named obligation failed, or nothing can be said."""
import json, os, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import extract, configs
import concurrent.futures

# a failed obligation of one of these kinds is a failure of what the code does; anything else
# (an rlimit, a construct Verus does not support, a lost anchor) leaves the function undecided
KINDS = {
    "postcondition not satisfied": "postcondition",
    "precondition not satisfied": "precondition",
    "possible arithmetic underflow/overflow": "arithmetic",
    "possible division by zero": "arithmetic",
    "possible bit shift underflow/overflow": "arithmetic",
    "assertion failed": "assertion",
    "invariant not satisfied before loop": "invariant",
    "invariant not satisfied at end of loop body": "invariant",
    "loop invariant not satisfied": "invariant",
    "loop ensures not satisfied": "invariant",
    "decreases not satisfied at end of loop": "termination",
    "unreachable code reached": "precondition",
}

CORE = ("error", "utils", "arraystring", "drain", "implementations")

class Result:
    pass

def call_verus(path, wd, extra=(), timeout=200):
    env = {k: v for k, v in os.environ.items() if k != "RUSTUP_TOOLCHAIN"}
    cmd = ["verus", path, "--error-format=json", "--output-json", "--time-expanded", "--num-threads", "8", *extra]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=wd, env=env, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, [], time.time() - t, "timeout"
    diags = []
    for l in p.stderr.splitlines():
        try:
            d = json.loads(l)
            if d.get("$message_type") == "diagnostic":
                diags.append(d)
        except ValueError:
            pass
    try:
        out = json.loads(p.stdout[p.stdout.index("{"):])
    except ValueError:
        out = None
    return out, diags, time.time() - t, p.stderr

def owner(ex, line):
    for f in ex.fns:
        if f["line0"] is not None and f["line0"] <= line < f["line1"]:
            return f
    return None

def air_counts(logdir, ex):
    """obligations (labelled asserts) per function, by kind, read off the verifier's own queries"""
    out, other = {}, {}
    for n in os.listdir(logdir):
        if not n.endswith(".air"):
            continue
        cur, want = None, False
        for l in open(os.path.join(logdir, n), errors="replace"):
            if l.startswith(";; Function-"):
                name = l.split(None, 2)[2].strip() if len(l.split(None, 2)) > 2 else "?"
                cur, want, pend = None, False, True
                isdef = l.startswith((";; Function-Def", ";; Function-Termination", ";; Function-Decl-Check-Recommends"))
                continue
            m = re.match(r";; \S*?\.rs:(\d+):\d+", l)
            if m and cur is None:
                f = owner(ex, int(m.group(1)))
                cur = out.setdefault(f["key"], {}) if f else other.setdefault(name, {})
                continue
            s = l.strip()
            if s == "(assert":
                want = True
            elif want:
                m = re.match(r'\(\s*"([^"]*)"', s)
                if m and cur is not None:
                    cur[m.group(1)] = cur.get(m.group(1), 0) + 1
                want = False
    return out, other

RANK = {"verified": 0, "undecided": 1, "failed": 2}

def verify(repo, cdir, wd, **kw):
    """the crate in each of the build configurations in which its text differs"""
    cs = configs.distinct(repo)
    if len(cs) == 1:
        r = one(repo, cdir, wd, config=cs[0], **kw)
        r.configs = [configs.name(cs[0])]
        return r
    with concurrent.futures.ThreadPoolExecutor(3) as pool:
        rs = list(pool.map(lambda x: one(repo, cdir, f"{wd}/c{x[0]}", config=x[1], **kw), enumerate(cs)))
    r = rs[0]
    r.configs = [configs.name(c) for c in cs]
    for c, q in zip(cs[1:], rs[1:]):
        n = configs.name(c)
        for k, f in q.fns.items():
            g = r.fns.setdefault(k, f)
            for ob in f["failed"]:
                ob["message"] += f" (in a {n} build)"
            if g is not f:
                g["failed"] += f["failed"]
                if RANK[f["status"]] > RANK[g["status"]]:
                    g["status"], g["why"] = f["status"], f["why"] and f"in a {n} build: {f['why']}"
        if q.undecided_all and not r.undecided_all:
            r.undecided_all = f"in a {n} build: {q.undecided_all}"
        r.lemma_failures += q.lemma_failures
        r.compile_errors += q.compile_errors
        if r.ex and q.ex:
            r.ex.missing = sorted(set(r.ex.missing) | set(q.ex.missing))
            r.ex.problems += q.ex.problems
            if sorted(q.ex.caps) != sorted(r.ex.caps):
                r.ex.caps = []
        r.diags += q.diags
    r.wall = max(q.wall for q in rs)
    return r

# functions no user can call: what they do matters only through those that call them
PRIVATE = ("is_inside_boundary", "is_char_boundary", "truncate_str")

def one(repo, cdir, wd, **kw):
    r = attempt(repo, cdir, wd, **kw)
    gone = [k for k in PRIVATE if r.fns.get(k, {"status": "verified"})["status"] != "verified"]
    if gone and not r.undecided_all and not kw.get("probe"):
        q = attempt(repo, cdir, wd, without=gone, **kw)
        if q.fns and not q.undecided_all and not q.lemma_failures and not q.ex.missing and all(f["status"] == "verified" and f["contract"] for f in q.fns.values()):
            q.ex.problems.append(f"{gone} do something else now, which their callers' contracts allow: written out where they are called")
            return q
    return r

def attempt(repo, cdir, wd, config=None, without=(), count=False, only_contracted=False, expand=True, errors=6, probe=frozenset()):
    r = Result()
    r.skip, r.compile_errors, r.runs = {}, [], 0
    r.undecided_all = None
    dropmods, nolog = set(), set()
    t0 = time.time()
    os.makedirs(wd, exist_ok=True)
    while True:
        try:
            text, ex = extract.build(repo, cdir, r.skip, only_contracted, probe, dropmods, config, nolog, without)
        except Exception as e:                      # the source no longer parses the way this check reads it
            r.undecided_all = f"extraction failed: {type(e).__name__}: {e}"
            r.ex, r.out, r.diags, r.fns, r.counts, r.other_counts, r.lemma_failures, r.notes = None, None, [], {}, {}, {}, [], []
            r.wall = time.time() - t0
            return r
        path = os.path.join(wd, "extracted.rs")
        open(path, "w").write(text)
        r.ex, r.path, r.text = ex, path, text
        extra = ["--multiple-errors", str(errors)]
        logdir = os.path.join(wd, "log")
        if count:
            subprocess.run(["rm", "-rf", logdir])
            extra += ["--log", "air", "--log-dir", logdir]
        out, diags, _, err = call_verus(path, wd, extra)
        r.runs += 1
        r.out, r.diags = out, diags
        vr = (out or {}).get("verification-results")
        ran = bool(vr) and "verified" in vr and not vr.get("encountered-vir-error") and (vr["verified"] or vr["errors"])
        if ran:
            break
        if err == "timeout":
            r.undecided_all = "the verifier timed out"
            break
        # Verus or rustc rejected the text: set the functions it names aside and try again
        bad, unknown, dropped = {}, [], False
        for d in diags:
            if d["level"] != "error" or d["message"].startswith(("aborting due", "could not compile")):
                continue
            sp = [s for s in d["spans"]] + [s for c in d["children"] for s in c["spans"]]
            f = next((o for o in (owner(ex, s["line_start"]) for s in sorted(sp, key=lambda s: not s["is_primary"])) if o), None)
            if f:
                bad[f["key"]] = d["message"]
                continue
            # outside every function: a module the others can do without is left out
            m = next((n for s in sp for n, a, b in ex.mods if a <= s["line_start"] < b and n not in CORE), None)
            if m:
                dropmods.add(m)
                r.compile_errors.append(f"module {m}: {d['message']}")
                dropped = True
            else:
                unknown.append(d["message"])
        if dropped and r.runs <= 12 and not bad:
            continue
        if not bad or r.runs > 12:
            r.undecided_all = "the verifier rejected the text: " + "; ".join(unknown[:3] or [str(err)[-300:]])
            break
        for k, m in bad.items():
            if k not in nolog and any(f["key"] == k and f.get("logs") for f in ex.fns):
                nolog.add(k)                        # what it logs may be what the verifier has no contract for
                continue
            n = r.skip.get(k, 0) + 1
            if n > 3:
                r.undecided_all = f"{k}: {m}"
            r.skip[k] = n
            r.compile_errors.append(f"{k}: {m}")
        if r.undecided_all:
            break
    r.fns = {}
    for f in r.ex.fns:
        st = "verified" if not f["skipped"] else "undecided"
        r.fns[f["key"]] = {"status": st, "why": f.get("problem") or next((e for e in r.compile_errors if e.startswith(f["key"] + ": ")), None), "failed": [], "contract": f["contract"], "rec": f}
    r.lemma_failures = []
    if r.undecided_all:
        for f in r.fns.values():
            f["status"], f["why"] = "undecided", f["why"] or r.undecided_all
    else:
        lines = r.text.split("\n")
        errs = [d for d in diags if d["level"] == "error" and not d["message"].startswith("aborting due")]
        notes = []
        if errs and expand:
            _, d2, _, _ = call_verus(path, wd, ["--multiple-errors", "6", "--expand-errors"], timeout=120)
            for d in d2:
                if d["level"] == "note" and "diagnostics via expansion" in d["message"]:
                    notes.append(d)
        for d in errs:
            spans = d["spans"] + [s for c in d["children"] for s in c["spans"]]
            # the function whose obligation it is: the place of the error, then the exit, never the callee's contract
            cand = [s for s in spans if not (s["label"] or "").startswith("failed precondition")]
            f = next((o for o in (owner(r.ex, s["line_start"]) for s in sorted(cand, key=lambda s: not s["is_primary"])) if o), None)
            kind = KINDS.get(d["message"])
            rec = {"message": d["message"], "kind": kind or "other", "spans": [{"line": s["line_start"], "label": s["label"], "text": " ".join(t["text"].strip() for t in s["text"])[:600]} for s in spans]}
            rec["inside"] = any((s["label"] or "").startswith("failed precondition") and owner(r.ex, s["line_start"]) for s in spans)
            clauses = []
            for s in spans:
                if (s["label"] or "") in ("failed this postcondition", "failed precondition"):
                    c = [lines[i - 1].strip() for i in range(s["line_start"], s["line_end"] + 1)]
                    if len(c) > 1:
                        sub = sorted({x["line_start"] for n in notes for x in n["spans"] if s["line_start"] <= x["line_start"] <= s["line_end"]})
                        c = [lines[i - 1].strip() for i in sub] or c
                    clauses += c
            rec["clauses"] = clauses
            if not f:
                r.lemma_failures.append(rec)
                continue
            g = r.fns[f["key"]]
            if kind is None:
                if g["status"] == "verified":
                    g["status"] = "undecided"
                g["why"] = d["message"]
            else:
                g["failed"].append(rec)
                g["status"] = "failed"
        r.notes = [n["message"] for n in notes]
        vr = out["verification-results"]
        if vr["errors"] and not errs:
            r.undecided_all = "errors without diagnostics"
    if count and not r.undecided_all:
        r.counts, r.other_counts = air_counts(os.path.join(wd, "log"), r.ex)
        subprocess.run(["rm", "-rf", os.path.join(wd, "log")])
    else:
        r.counts, r.other_counts = {}, {}
    r.wall = time.time() - t0
    return r

def smt_ms(out):
    try:
        return out["times-ms"]["smt"]["total"]
    except (KeyError, TypeError):
        return None

if __name__ == "__main__":
    r = verify(sys.argv[1], "/verif/contracts", "/tmp/v/wd", count=True)
    print(r.undecided_all, r.wall, r.runs, r.compile_errors)
    for k, f in r.fns.items():
        if f["status"] != "verified":
            print(k, f["status"], f["why"], [(x["kind"], x["clauses"], x["spans"]) for x in f["failed"]])
    print(sum(sum(c.values()) for c in r.counts.values()), len(r.counts), sum(sum(c.values()) for c in r.other_counts.values()), len(r.other_counts))
    tot = {}
    for c in r.counts.values():
        for k, v in c.items():
            tot[k] = tot.get(k, 0) + v
    print(tot, smt_ms(r.out))
