"""Invocations of the crate's own `macro_rules!` macros written out, as the compiler would before it
reads the items: the extraction cuts items and functions, so they have to be there to be cut.
What is not understood (a fragment kind not listed, a name bound in the macro that also occurs in an
argument) is left as it is; the function it stands in is then outside the verifier's reach."""
import re
import rustlex as rl

LOGS = {"trace", "debug", "info", "warn", "error"}
ITEMS = {"impl", "fn", "struct", "enum", "trait", "type", "const", "static", "mod", "use", "pub", "unsafe"}

class No(Exception):
    pass

class Rep:
    def __init__(self, inner, sep, op):
        self.inner, self.sep, self.op = inner, sep, op

class Frag:
    def __init__(self, name, kind, a, b):
        self.name, self.kind, self.a, self.b = name, kind, a, b

class Group:
    def __init__(self, open, inner):
        self.open, self.inner = open, inner

def template(tk, i, j, matcher):
    """tokens [i, j) of a matcher or of a transcriber"""
    out = []
    while i < j:
        t = tk[i]
        if t.s == "$" and i + 1 < j:
            n = tk[i + 1]
            if n.s == "(":
                e = n.m + 1
                sep = None
                if tk[e].s not in ("*", "+", "?") or (e + 1 < j and tk[e + 1].s in ("*", "+") and tk[e].b == tk[e + 1].a):
                    sep, e = tk[e], e + 1
                    if tk[e - 1].s == "=" and tk[e].s == ">":
                        raise No("separator")
                if e >= j or tk[e].s not in ("*", "+", "?"):
                    raise No("repetition")
                out.append(Rep(template(tk, i + 2, n.m, matcher), sep, tk[e].s))
                i = e + 1
                continue
            if n.k != "ident":
                raise No("$")
            if matcher:
                if tk[i + 2].s != ":":
                    raise No("fragment")
                out.append(Frag(n.s, tk[i + 3].s, t.a, n.b))
                i += 4
            else:
                out.append(Frag(n.s, None, t.a, n.b))
                i += 2
            continue
        if t.s in rl.OPEN:
            out.append(Group(t, template(tk, i + 1, t.m, matcher)))
            i = t.m + 1
            continue
        out.append(t)
        i += 1
    return out

def until(tk, i, j, stops, angles):
    k, d = i, 0
    while k < j:
        t = tk[k]
        if d == 0 and (t.s in stops or t.s == "=" and k + 1 < j and tk[k + 1].s == ">" and tk[k + 1].a == t.b):
            break
        if t.s in rl.OPEN:
            k = t.m + 1
            continue
        if angles and t.s == "<":
            d += 1
        if angles and t.s == ">" and d and tk[k - 1].s != "-":
            d -= 1
        k += 1
    return k

def fragment(kind, tk, i, j):
    """index behind the fragment"""
    if kind == "vis":
        if i < j and tk[i].s == "pub":
            return tk[i + 1].m + 1 if i + 1 < j and tk[i + 1].s == "(" else i + 1
        return i
    if i >= j:
        return None
    t = tk[i]
    if kind == "ident":
        return i + 1 if t.k == "ident" and t.s != "_" else None
    if kind == "lifetime":
        return i + 1 if t.k == "life" else None
    if kind == "literal":
        if t.s == "-":
            i += 1
        return i + 1 if i < j and (tk[i].k == "lit" or tk[i].s in ("true", "false")) else None
    if kind == "tt":
        return t.m + 1 if t.s in rl.OPEN else i + 1
    if kind == "block":
        return t.m + 1 if t.s == "{" else None
    if kind == "expr":
        e = until(tk, i, j, (",", ";"), False)
    elif kind in ("ty", "path"):
        if t.k not in ("ident",) and t.s not in ("&", "(", "[", "<", ":"):
            return None
        e = until(tk, i, j, (",", ";", "=", "{", "|", "where", "for"), True)
    elif kind in ("pat", "pat_param"):
        e = until(tk, i, j, (",", "=", "if", "in"), False)
    elif kind == "meta":
        e = until(tk, i, j, (",", ";"), False)
    else:
        raise No(kind)
    return e if e > i else None

def match(pats, tk, i, j, src):
    """-> (bindings, index) or None"""
    b = {}
    for p in pats:
        if isinstance(p, Frag):
            e = fragment(p.kind, tk, i, j)
            if e is None:
                return None
            b[p.name] = (p.kind, src[tk[i].a:tk[e - 1].b] if e > i else "", e - i)
            i = e
        elif isinstance(p, Group):
            if i >= j or tk[i].s != p.open.s:
                return None
            m = match(p.inner, tk, i + 1, tk[i].m, src)
            if m is None or m[1] != tk[i].m:
                return None
            b.update(m[0])
            i = tk[i].m + 1
        elif isinstance(p, Rep):
            got = []
            while True:
                k = i
                if got and p.sep is not None:
                    if k >= j or tk[k].s != p.sep.s:
                        break
                    k += 1
                m = match(p.inner, tk, k, j, src)
                if m is None or m[1] == k:
                    break
                got.append(m[0])
                i = m[1]
                if p.op == "?":
                    break
            if p.op == "+" and not got:
                return None
            for n in names(p.inner):
                b[n] = [g[n] for g in got]
        else:
            if i >= j or tk[i].s != p.s:
                return None
            i += 1
    return b, i

def names(pats):
    out = []
    for p in pats:
        if isinstance(p, Frag):
            out.append(p.name)
        elif isinstance(p, (Rep, Group)):
            out += names(p.inner)
    return out

def write(parts, b, closing="", lone=True):
    """text of a transcriber"""
    out, last = "", None
    for n, p in enumerate(parts):
        if isinstance(p, Frag):
            if p.name == "crate":
                s = "crate"
            elif p.name not in b or isinstance(b[p.name], list):
                raise No(f"${p.name}")
            else:
                kind, s, size = b[p.name]
                before = parts[n - 1] if n else None
                after = parts[n + 1] if n + 1 < len(parts) else None
                free = lambda x, l: x is None or isinstance(x, rl.T) and x.s in l
                if kind == "expr" and size > 1 and not (free(before, (",", ";", "=")) and free(after, (",", ";"))):
                    s = f"({s})"
            out += ("" if last is not None and last.b == p.a else " ") + s
            last = p
        elif isinstance(p, Group):
            out += ("" if last is not None and last.b == p.open.a else " ") + p.open.s + write(p.inner, b) + " " + rl.OPEN[p.open.s]
            last = None
        elif isinstance(p, Rep):
            lists = [x for x in dict.fromkeys(names(p.inner)) if isinstance(b.get(x), list)]
            if not lists or len({len(b[x]) for x in lists}) != 1:
                raise No("repetition of nothing")
            for k in range(len(b[lists[0]])):
                if k and p.sep is not None:
                    out += " " + p.sep.s
                out += write(p.inner, {**b, **{x: b[x][k] for x in lists}}) + ("\n" if p.sep is None else "")
            last = None
        else:
            out += ("" if last is not None and last.b == p.a else " ") + p.s
            last = p
    return out

def bound(parts):
    """names a transcriber binds itself"""
    out, flat = set(), []
    def walk(ps):
        for p in ps:
            if isinstance(p, Group):
                flat.append(p.open)
                walk(p.inner)
            elif isinstance(p, Rep):
                walk(p.inner)
            else:
                flat.append(p)
    walk(parts)
    for x, y in zip(flat, flat[1:]):
        if isinstance(x, rl.T) and isinstance(y, rl.T) and y.k == "ident" and x.s in ("let", "mut", "for", "|", "(", "ref"):
            out.add(y.s)
    return out

def definitions(srcs):
    defs, bad, spans = {}, set(), {}
    for f, src in srcs.items():
        tk, _ = rl.lex(src)
        for k in range(len(tk) - 3):
            if tk[k].s == "macro_rules" and tk[k + 1].s == "!" and tk[k + 2].k == "ident" and tk[k + 3].s in rl.OPEN:
                n = tk[k + 2].s
                if n in LOGS:
                    continue
                if n in defs:
                    bad.add(n)
                try:
                    rules, i, e = [], k + 4, tk[k + 3].m
                    while i < e:
                        if tk[i].s not in rl.OPEN:
                            raise No("rule")
                        m = (i + 1, tk[i].m)
                        a = tk[i].m + 1
                        if tk[a].s != "=" or tk[a + 1].s != ">" or tk[a + 2].s not in rl.OPEN:
                            raise No("rule")
                        rules.append((template(tk, *m, True), template(tk, a + 3, tk[a + 2].m, False)))
                        i = tk[a + 2].m + 1
                        if i < e and tk[i].s == ";":
                            i += 1
                    defs[n] = rules
                except (No, IndexError, TypeError):
                    bad.add(n)
    return {n: r for n, r in defs.items() if n not in bad}

def once(src, defs):
    """the first invocation that can be written out -> new source or None"""
    tk, _ = rl.lex(src)
    k = 0
    while k < len(tk) - 2:
        if tk[k].s == "macro_rules":
            k = tk[k + 3].m + 1
            continue
        if tk[k].k == "ident" and tk[k].s in defs and tk[k + 1].s == "!" and tk[k + 2].s in rl.OPEN and (k == 0 or tk[k - 1].s != "$"):
            o = k + 2
            for pats, parts in defs[tk[k].s]:
                try:
                    m = match(pats, tk, o + 1, tk[o].m, src)
                    if m is None or m[1] != tk[o].m:
                        continue
                    text = write(parts, m[0])
                    t2, _ = rl.lex(text)
                except (No, KeyError, rl.LexError, IndexError):
                    break
                a = k
                while a >= 2 and tk[a - 1].s == ":" and tk[a - 2].s == ":":
                    a -= 3 if a >= 3 and tk[a - 3].k == "ident" else 2
                e = tk[o].m + 1
                if not t2 or t2[0].s in ITEMS or t2[0].s == "#":
                    if e < len(tk) and tk[e].s == ";":
                        e += 1
                    return src[:tk[a].a] + text + "\n" + src[tk[e - 1].b:]
                if bound(parts) & {t.s for t in tk[o + 1:tk[o].m]}:
                    break
                plain = not any(t.s == ";" for t in t2) and t2[0].s not in ("let", "return", "match", "if", "for", "while", "loop")
                return src[:tk[a].a] + ("(" + text + ")" if plain else "{" + text + "}") + src[tk[e - 1].b:]
        k += 1
    return None

def blank(src):
    """the definitions themselves taken out, when nothing invokes them any more"""
    tk, _ = rl.lex(src)
    cuts = []
    for k in range(len(tk) - 3):
        if tk[k].s == "macro_rules" and tk[k + 1].s == "!" and tk[k + 3].s in rl.OPEN and tk[k + 2].s not in LOGS:
            e = tk[k + 3].m + 1
            if e < len(tk) and tk[e].s == ";" and tk[k + 3].s != "{":
                e += 1
            a = k
            while a >= 2 and tk[a - 1].s == "]" and tk[tk[a - 1].m - 1].s == "#" and tk[a - 1].m is not None:
                a = tk[a - 1].m - 1
            cuts.append((tk[a].a, tk[e - 1].b))
    for a, b in reversed(cuts):
        src = src[:a] + re.sub(r"[^\n]", "", src[a:b]) + src[b:]
    return src

def expand(srcs):
    """-> (sources, number of invocations written out)"""
    defs, n = definitions(srcs), 0
    if not defs:
        return srcs, 0
    out = {}
    for f, src in srcs.items():
        for _ in range(600):
            t = once(src, defs)
            if t is None:
                break
            src, n = t, n + 1
        out[f] = src
    return {f: blank(s) for f, s in out.items()}, n

if __name__ == "__main__":
    import sys, os
    d = sys.argv[1] + "/src"
    s, n = expand({f[:-3]: open(f"{d}/{f}").read() for f in sorted(os.listdir(d)) if f.endswith(".rs")})
    print(n)
    for f in sys.argv[2:]:
        print(s[f])
