#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property of /repo's current working tree.
 1 extracts the crate's functions with their contracts and has Verus discharge every obligation;
 2 searches for an input on which the real crate breaks the property (briefly when 1 succeeded,
   at length when an obligation the property rests on was not discharged);
 3 exit 1 with a VIOLATION line for a failing input, or for a named obligation of the property that the
   verifier rejects; exit 0 otherwise.  Writes evidence/PROPERTY.json."""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.dont_write_bytecode = True
import extract, verify, harnesses, undefined, stdcheck

T0 = time.time()
PROPS = json.load(open(f"{HERE}/contracts/props.json"))

# what each function called when its contract and hints were written, and what never needs a hint
KNOWN_CALLS = json.load(open(f"{HERE}/contracts/calls.json"))
PLAIN_CALLS = {"wrapping_add", "wrapping_sub", "saturating_sub", "saturating_add", "checked_add", "checked_sub", "assert", "min", "max", "len", "capacity", "as_str",
               "is_empty", "Ok", "Err", "Some", "OutOfBounds", "unwrap_or", "is_ok", "is_err", "is_some", "is_none", "is_inside_boundary", "is_char_boundary",
               "truncate_str", "debug", "trace", "debug_assert", "if", "while", "for", "matches", "into_lossy"}

def rx(pats):
    return [re.compile(re.sub(r"\bT\b", "(ArrayString|CacheString)", p) + "$") for p in pats]

def matches(key, pats):
    key = re.sub(r" #\d+$", "", key)
    return any(p.match(key) for p in rx(pats))

def main_props(key):
    return [p for p, d in PROPS.items() if matches(key, d.get("main", []))]

UNSAFE = re.compile(r"unchecked|spec::ptr::|deref_raw|from_raw_parts|unreachable_unchecked")

def owners(key, ob, ex):
    """the properties that the failed obligation `ob` of function `key` states"""
    kind = ob["kind"]
    mains = main_props(key)
    out = set()
    if kind == "postcondition":
        cl = ob["clauses"] or [""]
        for c in cl:
            c = c.rstrip(",").strip()
            if re.fullmatch(r"(ensures )?[\w().>\-]*\.wf\(\)", c):
                out.add("P01")
            elif re.search(r"is (Err|None) ==> final\(self\)\.bytes\(\) ==", c):
                out |= {"P12", *mains}
            else:
                out |= set(mains)
                if "wf()" in c:
                    out.add("P01")
    elif kind == "precondition":
        callee = [s for s in ob["spans"] if (s["label"] or "").startswith("failed precondition")]
        call = " ".join(s["text"] for s in ob["spans"] if s not in callee)
        inside = ob["inside"]
        if UNSAFE.search(call):
            out |= {"P14"}
        elif inside:
            out |= {"P01", *mains}
        else:
            out |= {"P13"}
            if matches(key, PROPS["P16"]["main"]):
                out.add("P16")
    elif kind in ("arithmetic", "termination"):
        out |= {"P13"}
    elif kind in ("invariant", "assertion"):
        out |= set(mains)
    return out

def closure(prop, r):
    """functions whose contracts the property rests on: its own and, transitively, those they call"""
    d = PROPS[prop]
    fns = {k: f for k, f in r.fns.items()}
    byname = {}
    for k in fns:
        byname.setdefault(re.sub(r" #\d+$", "", k).split("::")[-1], []).append(k)
    todo = [k for k in fns if matches(k, d.get("main", []) + d.get("own", []))]
    seen = set(todo)
    while todo:
        k = todo.pop()
        for i in fns[k]["rec"]["idents"]:
            for c in byname.get(i, []):
                if c not in seen and not (c.startswith("CacheString") and not k.startswith("CacheString")):
                    seen.add(c)
                    todo.append(c)
    own = [k for k in seen if matches(k, d.get("main", []) + d.get("own", []))]
    return sorted(own), sorted(seen)

def trusted_base():
    """mechanical scan of the specification file for what is taken without proof"""
    out = []
    src = open(f"{HERE}/contracts/prelude.rs").read()
    ext = open(f"{HERE}/contracts/integration.rs").read() if os.path.exists(f"{HERE}/contracts/integration.rs") else ""
    more = extract.Extractor(REPO, {}).more_of_std(f"{HERE}/contracts/std_more.rs")
    for s in (src, ext, more):
        out += ["axiom: " + m.group(1) for m in re.finditer(r"\baxiom fn (\w+)", s)]
        for m in re.finditer(r"\bassume_specification\b", s):
            i, d = m.end(), 0
            while not (s[i] == "[" and d == 0):         # past the generics
                d += (s[i] == "<") - (s[i] == ">" and s[i - 1] != "-")
                i += 1
            j, d = i, 0
            while True:
                d += (s[j] == "[") - (s[j] == "]")
                j += 1
                if d == 0:
                    break
            out.append("assumed contract: " + re.sub(r"\s+", " ", s[i + 1:j - 1]).strip())
        out += ["trusted body: " + m.group(1) for m in re.finditer(r"external_body\][^{]*?\b(?:fn|struct) (\w+)", s)]
        out += ["external trait contract: " + m.group(1) for m in re.finditer(r"type ExternalTraitSpecificationFor\s*:\s*([^;]+);", s)]
        out += ["stand-in trait (its methods' contracts are assumed of every implementation a caller brings): " + m.group(1) for m in re.finditer(r"^\s*pub trait (\w+)", s, re.M) if s is ext]
        out += ["external type: " + re.sub(r"\s+", " ", m.group(1)) for m in re.finditer(r"external_type_specification\][^;]*?struct \w+[^(]*\(([^;]*)\);", s)]
    bad = re.findall(r"\b(assume|admit)\s*\(", src + ext + more)
    return out, len(bad)

def known():
    out = []
    p = f"{HERE}/known_findings.txt"
    for l in open(p) if os.path.exists(p) else []:
        l = l.strip()
        if l and not l.startswith("#") and not l.startswith("fixed:"):
            out.append(l)
    return out

def vacuity(prop, wd):
    """every contract the property rests on gets an impossible postcondition: each of these functions must
    now fail, or its preconditions (or what it is told of its callees) contradict each other"""
    try:
        text, ex = extract.build(REPO, f"{HERE}/contracts")
        r = verify.Result()
        r.fns = {f["key"]: {"rec": f} for f in ex.fns}
        _, clo = closure(prop, r)
    except Exception as e:
        return {"ran": False, "why": str(e)[:200]}
    r = verify.verify(REPO, f"{HERE}/contracts", f"{wd}/p", expand=False, errors=0, probe=frozenset(clo))
    if r.undecided_all:
        return {"ran": False, "why": r.undecided_all[:200]}
    probed = [k for k in clo if k in r.ex.probed]
    vac = [k for k in probed if r.fns[k]["status"] == "verified"]
    return {"ran": True, "functions_probed": len(probed), "failed_as_they_must": len(probed) - len(vac), "vacuous": vac}

def main():
    prop = sys.argv[1]
    tier = sys.argv[sys.argv.index("--tier") + 1] if "--tier" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    wd = tempfile.mkdtemp(prefix=f"check-{prop}-")
    try:
        return decide(prop, tier, seed, wd)
    except Exception as e:
        traceback.print_exc()
        return fallback(prop, tier, seed, wd, e)
    finally:
        shutil.rmtree(wd, ignore_errors=True)

def fallback(prop, tier, seed, wd, e):
    """the machinery itself failed: nothing is proved, and the search alone answers"""
    dic = harnesses.dictionary(REPO, HERE)
    s = harnesses.brief(prop, seed, wd, harnesses.start_build(wd), dic, False, verify.configs.distinct(REPO)[1:])
    if not s["fails"]:
        harnesses.long(s, prop, seed, wd, dic, False)
    r = verify.Result()
    r.fns, r.counts, r.other_counts, r.diags, r.ex, r.out, r.wall, r.compile_errors, r.lemma_failures = {}, {}, {}, [], None, None, 0, [], []
    r.undecided_all = f"internal error: {type(e).__name__}: {e}"
    fails = [f for f in s["fails"] if not any(f["input"] in x for x in known())]
    rep = replay(prop, fails, {}, r, s) if fails else None
    evidence(prop, tier, seed, r, [], [], {}, False, {}, [], {"ran": False}, s, rep, False)
    if rep:
        print(f"VIOLATION property={prop} replay={rep}")
        return 1
    print(f"{prop}: UNDECIDED by proof ({r.undecided_all[:200]}); no failing input in the bounded search; {s['evaluations']} concrete evaluations agree")
    return 0

def decide(prop, tier, seed, wd):
    deep = tier == "thorough"
    build = harnesses.start_build(wd)
    dic = harnesses.dictionary(REPO, HERE)
    with concurrent.futures.ThreadPoolExecutor() as pool:
        brief = pool.submit(harnesses.brief, prop, seed, wd, build, dic, deep, verify.configs.distinct(REPO)[1:])
        proof = pool.submit(verify.verify, REPO, f"{HERE}/contracts", f"{wd}/v", count=True)
        probe = pool.submit(vacuity, prop, wd)
        std = pool.submit(stdcheck.run, wd)
        r, vac, s, std = proof.result(), probe.result(), brief.result(), std.result()
    own, clo = closure(prop, r) if r.ex else ([], [])
    status = {k: r.fns[k]["status"] for k in clo}
    not_ok = [k for k in clo if status[k] != "verified"]
    failed = {}
    for k in r.fns:
        for ob in r.fns[k]["failed"]:
            if prop in owners(k, ob, r.ex):
                failed.setdefault(k, []).append(ob)
    lost = []
    if r.ex:
        if r.ex.missing:
            lost += [k for k in r.ex.missing if matches(k.removeprefix("inject:"), PROPS[prop].get("main", []))]
        if prop == "P20" and sorted(r.ex.caps) != sorted(f"ArrayString<{n}>" for n in range(1, 256)):
            lost.append("the impls of ValidCapacity are not those for 1..=255")
    new = [k for k, f in r.fns.items() if not f["contract"]]
    # a new function that the property speaks of (an overridden default method, say) says nothing without a contract
    lost += [f"no contract for {k}" for k in new if matches(k, PROPS[prop].get("main", []) + PROPS[prop].get("own", []))]
    if vac.get("vacuous"):
        lost.append(f"vacuous: {vac['vacuous'][:3]}")
    if std.get("wrong"):
        lost.append(f"an assumed contract on the standard library is wrong: {std['wrong'][:2]}")
    vac["assumed_std_contracts_executed"] = std
    proved = bool(clo) and not not_ok and not lost and not r.undecided_all and not r.lemma_failures
    # ---- concrete inputs
    doubt = not proved and (failed or not_ok or lost or r.undecided_all or r.lemma_failures or not clo)
    if not s["fails"] and (deep or doubt):
        harnesses.long(s, prop, seed, wd, dic, deep)
    if prop == "P14" and not s["fails"] and (deep or doubt):
        # what happens inside the buffer's allocation is not visible from outside: the real code under Miri
        u = undefined.run(150000 if deep else 60000, 1 if deep else 4, budget=max(30, 550 - (time.time() - T0)))
        s["fails"] += u.pop("fails")
        s["evaluations"] += u["cases"]
        s["under_miri"] = u
    for kf in known():
        if f"property={prop} " in kf:
            print("KNOWN-FINDING:", kf)
    kf = [x for x in known() if f"property={prop} " in x]
    fails = [f for f in s["fails"] if not any(f["input"] in x for x in kf)]
    rep = None
    nfif = False
    if fails:
        rep = replay(prop, fails, failed, r, s)
    elif failed and not s["fails"]:
        # an obligation that was discharged on the original tree and is refuted now; said only when nothing
        # about the function escapes the verifier (no new function without a contract is called)
        sure = {}
        for k, obs in failed.items():
            ids = set(r.fns[k]["rec"]["idents"])
            if k in new or r.fns[k]["rec"].get("weak") or any(re.sub(r" #\d+$", "", n).split("::")[-1] in ids for n in new):
                continue
            if set(r.fns[k]["rec"].get("calls", [])) - PLAIN_CALLS - set(KNOWN_CALLS.get(re.sub(r" #\d+$", "", k), [])):
                continue                            # the hints and callees' contracts may be too weak for what the code is now
            obs = [o for o in obs if o["kind"] in ("postcondition", "precondition", "arithmetic") or r.fns[k]["rec"]["loops"] == 0]
            if obs and not any(r.fns[c]["status"] == "undecided" for c in direct_callees(k, r)):
                sure[k] = obs
        if sure:
            rep = replay(prop, [], sure, r, s)
            nfif = True
    evidence(prop, tier, seed, r, own, clo, status, proved, failed, lost, vac, s, rep, nfif)
    if rep:
        print(f"VIOLATION property={prop} replay={rep}" + (" no-failing-input-found" if nfif else ""))
        return 1
    n = sum(sum(v for k2, v in r.counts.get(k, {}).items() if k2 in verify.KINDS) for k in clo)
    print(f"{prop}: " + (f"{n} obligations of {len(clo)} functions discharged" if proved else f"UNDECIDED by proof ({describe(not_ok, r, lost)}); no failing input in the bounded search")
          + f"; {s['evaluations']} concrete evaluations agree; {time.time() - T0:.1f} s")
    return 0

def direct_callees(k, r):
    ids = set(r.fns[k]["rec"]["idents"])
    return [c for c in r.fns if c != k and c.split("::")[-1] in ids and not (c.startswith("CacheString") and not k.startswith("CacheString"))]

def describe(not_ok, r, lost):
    if r.undecided_all:
        return r.undecided_all[:300]
    return "; ".join([f"{k}: {r.fns[k]['why'] or 'obligation not discharged'}" for k in not_ok[:4]] + lost[:3] + [f"lemma: {l['message']}" for l in r.lemma_failures[:2]])[:600]

def replay(prop, fails, failed, r, s):
    d = f"{HERE}/build/replay"
    os.makedirs(d, exist_ok=True)
    p = f"{d}/{prop}.json"
    obs = [{"function": k, "source": f"{r.fns[k]['rec']['file']}:{r.fns[k]['rec']['src_line']}", "obligations": v} for k, v in failed.items()]
    json.dump({"property": prop, "failing_inputs": fails, "failed_obligations": obs,
               "verifier_output": [d.get("rendered", "") for d in r.diags if d["level"] == "error"][:20] + getattr(r, "notes", [])[:5],
               "replay": [f.get("replay") for f in fails]}, open(p, "w"), indent=1, ensure_ascii=False)
    plain = lambda x, n: "".join(c if c.isprintable() else ascii(c)[1:-1] for c in x[:n])
    for f in fails[:3]:
        print(f"  input:    {plain(f['input'], 600)}\n  got:      {plain(f['got'], 300)}\n  expected: {plain(f['want'], 300)}")
    for o in obs[:5]:
        for b in o["obligations"][:3]:
            print(f"  obligation not discharged: {o['function']} ({o['source']}): {b['message']}: {' '.join(b['clauses'])[:300] or ' / '.join(x['text'] for x in b['spans'])[:300]}")
    return p

ASSUME = [
    "The assumed contracts and axioms listed in trusted_base describe the Rust standard library and vstd correctly.",
    "Raw pointers into the string's own array are modelled as (buffer, offset): ptr::copy and copy_nonoverlapping carry bounds obligations and a contract on the array's contents; the argument of an insertion cannot alias the receiver because Rust lends it separately.",
    "Termination is proved for while loops; a loop over a caller's iterator ends when the iterator does (each pass calls it once), so it terminates for finite iterators only.",
    "What an operation does with a caller's AsRef or RangeBounds argument is stated for arguments that answer the same each time they are asked within one call; that the string stays valid, that an error leaves it unchanged and that no access goes astray is proved for arguments that do not, too.",
    "Machine integers are checked for overflow at their own width; nothing is treated as mathematical except in specifications.",
    "A log macro is verified as the evaluation of its arguments, or not, depending on a value nothing is known of (a logger may be absent); how the log crate formats and stores the message is outside.",
]

def evidence(prop, tier, seed, r, own, clo, status, proved, failed, lost, vac, s, rep, nfif):
    K = verify.KINDS
    cnt = {k: {a: b for a, b in r.counts.get(k, {}).items() if a in K} for k in clo}
    obligations = sum(sum(c.values()) for c in cnt.values())
    bad = sum(len(r.fns[k]["failed"]) for k in clo) if r.ex else 0
    und = sum(sum(cnt[k].values()) for k in clo if status[k] == "undecided")
    lemma = sum(sum(v for a, v in c.items() if a in K) for c in r.other_counts.values())
    kinds = {}
    for c in cnt.values():
        for a, b in c.items():
            kinds[a] = kinds.get(a, 0) + b
    tb, assumed = trusted_base()
    ce = {"functions_under_contract": [k for k in clo if r.fns[k]["contract"]],
          "functions_of_the_property": own,
          "obligations_by_kind": kinds,
          "lemma_obligations_discharged_in_the_same_run": lemma,
          "back_end": "Verus 0.2026.09.13 with Z3",
          "solver_time_ms_whole_run": verify.smt_ms(r.out),
          "verifier_wall_s": round(r.wall, 2),
          "assume_or_admit_in_specifications": assumed,
          "extraction_edits": r.ex.counts if r.ex else {},
          "dropped_from_extraction": r.ex.dropped if r.ex else [],
          "problems": (r.ex.problems if r.ex else []) + r.compile_errors + lost,
          "not_discharged": [{"function": k, "status": status[k], "why": r.fns[k]["why"]} for k in clo if status[k] != "verified"],
          "assumed_std_contracts_executed": vac.pop("assumed_std_contracts_executed", {"ran": False}),
          "vacuity_probe": vac,
          "obligations": obligations, "discharged": max(0, obligations - bad - und) if not r.undecided_all else 0,
          "checker_cmd": f"python3 {HERE}/check.py {prop} --tier {tier}  (verus extracted.rs --multiple-errors 6 --log air)",
          "trusted_base": tb,
          "bounded_search_beside_the_proof": {k: v for k, v in s.items() if k != "fails"}}
    lev = "proof"
    if not proved and not rep:
        lev = "exploration"
        ce.update(evaluations=s["evaluations"], distinct_nontrivial=s["distinct_nontrivial"], rule=harnesses.RULE, samples=s["samples"][:8])
    d = {"property": prop, "tier": tier, "seed": seed, "level": lev, "coverage": ce, "assumptions": ASSUME, "wall_s": round(time.time() - T0, 2), "violations": 1 if rep else 0}
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    t = json.dumps(d, indent=1, ensure_ascii=False)
    if len(t.encode()) > 60000:
        for k in ("samples",):
            s[k] = s[k][:2]
        ce["trusted_base"] = tb[:60] + [f"... and {len(tb) - 60} more, by the same scan"] if len(tb) > 60 else tb
        t = json.dumps(d, indent=1, ensure_ascii=False)
    open(f"{HERE}/evidence/{prop}.json", "w").write(t)

if __name__ == "__main__":
    sys.exit(main())
