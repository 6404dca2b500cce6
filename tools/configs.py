"""The crate under each build configuration its own text depends on: debug assertions on and off, the `std` and
`logs` features on and off.  Conditional compilation is resolved in the text before anything is extracted, and the
configurations whose text differs are all verified (the original tree has one: what its cfgs decide is imports,
the tests and the Error impls of std, which are left to the extraction as they were)."""
import itertools, os, re
import rustlex as rl

# what a debug_assert! may call and still be no more than a check
PURE = {"len", "is_ok", "is_err", "is_some", "is_none", "is_empty", "is_null", "is_char_boundary", "as_str", "as_ref", "as_bytes", "from_utf8", "capacity",
        "deref", "eq", "ne", "le", "lt", "ge", "gt", "cmp", "min", "max", "starts_with", "ends_with", "contains", "clone", "get", "is_whitespace", "is_ascii",
        "len_utf8", "chars", "all", "any", "as_ptr", "as_slice", "str", "core", "std", "borrow", "map_or", "is_some_and", "is_ok_and", "matches", "chars", "count"}
USUAL = dict(debug=True, std=True, logs=True, serde=True, diesel=True, nopanic=False)
# the usual one first, then by how much they differ from it; no-panic is for whole-program optimized builds only, which
# nothing here makes, so it is seen in debug builds
ALL = sorted((dict(zip(USUAL, v)) for v in itertools.product((True, False), repeat=6) if not (v[5] and not v[0])), key=lambda c: sum(c[k] != USUAL[k] for k in c))

def name(c):
    return ("debug" if c["debug"] else "release") + "".join(f", no {k}" for k in ("std", "logs", "serde", "diesel") if not c[k]) + (", no-panic" if c["nopanic"] else "")

def value(tk, i, j, c):
    """the predicate in tokens [i, j)"""
    w = tk[i].s
    if w in ("all", "any", "not") and tk[i + 1].s == "(":
        args, a, k, e = [], i + 2, i + 2, tk[i + 1].m
        while k <= e:
            if k == e or tk[k].s == ",":
                if k > a:
                    args.append(value(tk, a, k, c))
                a = k + 1
            elif tk[k].s in rl.OPEN:
                k = tk[k].m
            k += 1
        return all(args) if w == "all" else any(args) if w == "any" else not args[0]
    if j == i + 1:
        return {"debug_assertions": c["debug"], "unix": True, "true": True, "overflow_checks": c["debug"]}.get(w, False)
    if tk[i + 1].s == "=":
        v = tk[i + 2].s.strip('"')
        if w == "feature":
            return {"std": c["std"], "default": c["std"], "logs": c["logs"], "log": c["logs"], "serde-traits": c["serde"], "serde": c["serde"],
                    "diesel-traits": c["diesel"], "diesel": c["diesel"], "no-panic": c["nopanic"]}.get(v, False)
        return v == {"target_pointer_width": "64", "target_endian": "little", "target_arch": "x86_64", "target_os": "linux", "target_family": "unix", "panic": "unwind", "target_env": "gnu"}.get(w)
    raise rl.LexError("cfg predicate")

def extent(tk, i, end):
    """tokens [i, e) of the item, statement, arm, field or argument that starts at i"""
    k = i
    while k < end and tk[k].s not in rl.CLOSE:
        k = tk[k].m + 1 if tk[k].s in rl.OPEN else k + 1
    k, end = i, k
    if tk[k].s == "pub":
        k += 1
        if tk[k].s == "(":
            k = tk[k].m + 1
    while tk[k].s in ("unsafe", "async", "extern", "default", "const") and tk[k + 1].s in ("fn", "impl", "trait", "unsafe", "extern", "async", "const") or tk[k].s == "extern" and tk[k + 1].k == "lit":
        k += 1
    w = tk[k].s
    if w in ("use", "const", "static", "type", "let", "return", "break", "continue"):
        while k < end and tk[k].s != ";":
            k = tk[k].m + 1 if tk[k].s in rl.OPEN else k + 1
        return min(k + 1, end)
    if w in ("fn", "impl", "mod", "struct", "enum", "trait", "union", "macro_rules"):
        while k < end and tk[k].s not in (";", "{"):
            k = tk[k].m + 1 if tk[k].s in rl.OPEN else k + 1
        if k < end and tk[k].s == "{":
            k = tk[k].m
        return min(k + 1, end)
    if tk[k].k == "life" and tk[k + 1].s == ":":
        k += 2
        w = tk[k].s
    if w in ("if", "match", "for", "while", "loop", "unsafe", "{"):
        while k < end:
            while k < end and tk[k].s != "{":
                k = tk[k].m + 1 if tk[k].s in rl.OPEN else k + 1
            k = tk[k].m + 1
            if k < end and tk[k].s == "else":
                continue
            return k
    arm = False
    while k < end:
        s = tk[k].s
        if s == "=" and tk[k + 1].s == ">":
            arm = True
            k += 2
            if tk[k].s == "{":
                k = tk[k].m + 1
                return k + 1 if k < end and tk[k].s == "," else k
            continue
        if s == ";" or s == ",":
            return k + 1
        k = tk[k].m + 1 if s in rl.OPEN else k + 1
    return k

def blank(s):
    return re.sub(r"[^\n]", " ", s)

def left(tk, i, e):
    """an item of this kind under this attribute is the extraction's business"""
    k = e
    while k < len(tk) and tk[k].s == "#":
        k = tk[k + 1].m + 1
    pred = re.sub(r"\s", "", "".join(t.s for t in tk[i:e]))
    if pred == "#[cfg(test)]" or re.fullmatch(r'#\[cfg\((any\()?feature="(serde|diesel)-traits"(,feature="(serde|diesel)-traits"\))?\)\]', pred):
        return pred == "#[cfg(test)]" or bool(re.match(r"(pub )?(use|mod|impl)\b", " ".join(t.s for t in tk[k:k + 3])))
    if pred in ('#[cfg(feature="std")]', '#[cfg(feature="logs")]', '#[cfg(not(feature="logs"))]'):
        rest = " ".join(t.s for t in tk[k:k + 12])
        return bool(re.match(r"(pub )?use (std|log|alloc) :|impl (< [^>]* > )?(std :  ?: ?error :  ?: ?)?Error for|impl (< [^>]* > )?std : : error : : Error for|mod mock\b", rest))
    return False

def configure(src, c):
    tk, _ = rl.lex(src)
    cuts, notes = [], set()
    def walk(i, end):
        while i < end:
            t = tk[i]
            if t.s == "#" and i + 1 < end and tk[i + 1].s == "[" and tk[i + 2].s == "cfg" and tk[i + 3].s == "(":
                e = tk[i + 1].m + 1
                if left(tk, i, e):
                    k = e
                    while tk[k].s == "#":
                        k = tk[k + 1].m + 1
                    i = extent(tk, k, end) if tk[i + 4].s == "test" else e
                    continue
                if value(tk, i + 4, tk[i + 3].m, c):
                    cuts.append((t.a, tk[e - 1].b, None))
                    i = e
                    continue
                k = e
                while tk[k].s == "#":
                    k = tk[k + 1].m + 1
                x = extent(tk, k, end)
                cuts.append((t.a, tk[x - 1].b, None))
                i = x
                continue
            if t.s == "cfg" and t.k == "ident" and i + 2 < end and tk[i + 1].s == "!" and tk[i + 2].s == "(":
                cuts.append((t.a, tk[tk[i + 2].m].b, "true" if value(tk, i + 3, tk[i + 2].m, c) else "false"))
                i = tk[i + 2].m + 1
                continue
            if t.s in ("debug_assert", "debug_assert_eq", "debug_assert_ne") and i + 2 < end and tk[i + 1].s == "!" and not c["debug"]:
                e = tk[i + 2].m
                inner = tk[i + 3:e]
                calls = {x.s for x, y in zip(inner, inner[1:]) if x.k == "ident" and y.s in ("(", "!")}
                odd = calls - PURE or any(x.s in ("|", "mut") or x.s == "=" and (inner[n - 1].s not in "=!<>" and inner[n + 1].s != "=") for n, x in enumerate(inner[:-1]) if n)
                if odd:
                    x = e + 1
                    if x < end and tk[x].s == ";":
                        x += 1
                    cuts.append((t.a, tk[x - 1].b, None))
                    i = x
                    continue
            i += 1
    walk(0, len(tk))
    out, p = "", 0
    for a, b, s in sorted(cuts, key=lambda x: x[:2]):
        if a < p:
            continue
        out += src[p:a] + (s + blank(src[a:b]).lstrip(" ") if s else blank(src[a:b]))
        p = b
    return out + src[p:]

def read(repo):
    return {f: open(f"{repo}/src/{f}").read() for f in sorted(os.listdir(f"{repo}/src")) if f.endswith(".rs")}

def distinct(repo):
    """the first configuration of each group that reads the same"""
    try:
        srcs, seen, out = read(repo), {}, []
        for c in ALL:
            key = tuple(" ".join(t.s for t in rl.lex(configure(s, c))[0]) for s in srcs.values())
            if key not in seen:
                seen[key] = c
                out.append(c)
        return out
    except (rl.LexError, IndexError, TypeError, AttributeError) as e:
        if os.environ.get("DEBUG"):
            raise
        return [c for c in ALL if c == USUAL or c == dict(USUAL, std=False, logs=False) or c == dict(USUAL, debug=False)
                or c == dict(USUAL, debug=False, std=False, logs=False) or c == dict(USUAL, serde=False, diesel=False)]

if __name__ == "__main__":
    import sys
    print([name(c) for c in distinct(sys.argv[1])])
