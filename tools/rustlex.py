"""A small Rust lexer and item parser: enough to cut a crate's source text into
items and functions by byte span, without rewriting a single token of it."""
import re

class LexError(Exception):
    pass

TOK = re.compile(r"""
  (?P<ws>\s+)
| (?P<doc>///(?!/)[^\n]*|//![^\n]*)
| (?P<line>//[^\n]*)
| (?P<block>/\*)
| (?P<rawstr>(?:b|c)?r(?P<hashes>\#*)")
| (?P<str>(?:b|c)?"(?:[^"\\]|\\.)*")
| (?P<char>b?'(?:[^'\\\n]|\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.))')
| (?P<life>'[A-Za-z_][A-Za-z0-9_]*)
| (?P<num>[0-9][0-9A-Za-z_]*(?:\.[0-9][0-9A-Za-z_]*)?)
| (?P<ident>(?:r\#)?[A-Za-z_][A-Za-z0-9_]*)
| (?P<punct>.)
""", re.X | re.S)

class T:
    __slots__ = ("k", "s", "a", "b", "m")
    def __init__(self, k, s, a, b):
        self.k, self.s, self.a, self.b, self.m = k, s, a, b, None
    def __repr__(self):
        return f"{self.k}:{self.s}@{self.a}"

OPEN, CLOSE = {"(": ")", "[": "]", "{": "}"}, {")", "]", "}"}

def lex(src):
    """-> (tokens without blanks and comments, spans of comments [(a,b,isdoc)])"""
    out, comments, i, n = [], [], 0, len(src)
    while i < n:
        m = TOK.match(src, i)
        k = m.lastgroup
        if k == "hashes":
            k = "rawstr"
        if m.group("rawstr") is not None:
            end = src.find('"' + m.group("hashes"), m.end())
            if end < 0:
                raise LexError("raw string")
            j = end + 1 + len(m.group("hashes"))
            out.append(T("lit", src[i:j], i, j))
            i = j
            continue
        if k == "block":
            depth, j = 1, i + 2
            while depth:
                a, b = src.find("/*", j), src.find("*/", j)
                if b < 0:
                    raise LexError("block comment")
                if 0 <= a < b:
                    depth, j = depth + 1, a + 2
                else:
                    depth, j = depth - 1, b + 2
            doc = src.startswith("/**", i) and not src.startswith("/***", i) and j - i > 4 or src.startswith("/*!", i)
            comments.append((i, j, doc))
            i = j
            continue
        s = m.group(0)
        if k in ("doc", "line"):
            comments.append((i, m.end(), k == "doc"))
        elif k != "ws":
            kk = {"str": "lit", "char": "lit", "num": "lit"}.get(k, k)
            out.append(T(kk, s, i, m.end()))
        i = m.end()
    # match brackets
    st = []
    for x, t in enumerate(out):
        if t.k == "punct":
            if t.s in OPEN:
                st.append(x)
            elif t.s in CLOSE:
                if not st or OPEN[out[st[-1]].s] != t.s:
                    raise LexError(f"unbalanced {t}")
                y = st.pop()
                out[y].m, t.m = x, y
    if st:
        raise LexError("unbalanced")
    return out, comments

def skip_generics(tk, i):
    """tk[i] is '<'; -> index just past the matching '>'"""
    d = 0
    while i < len(tk):
        s = tk[i].s
        if tk[i].k == "punct":
            if s == "<":
                d += 1
            elif s == ">" and not (i and tk[i - 1].s in ("-", "=") and tk[i - 1].b == tk[i].a):
                d -= 1
                if d == 0:
                    return i + 1
            elif s in OPEN:
                i = tk[i].m
        i += 1
    raise LexError("generics")

class Fn:
    pass

class Item:
    def __init__(self, **kw):
        self.__dict__.update(kw)

ITEM_KW = {"use", "mod", "struct", "enum", "union", "trait", "impl", "fn", "type", "const", "static", "extern", "macro_rules"}

def norm(tokens):
    out = ""
    for t in tokens:
        if t.k == "life":
            continue
        if out and (out[-1].isalnum() or out[-1] == "_") and t.k in ("ident", "lit"):
            out += " "
        out += t.s
    return out.replace("&,", "&").replace("<,", "<").replace("<>", "")

def parse_items(tk, i, j):
    """items in tokens [i, j)"""
    items = []
    while i < j:
        a = i
        attrs = []
        while i < j and tk[i].s == "#":
            k = i + 1
            inner = tk[k].s == "!"
            if inner:
                k += 1
            e = tk[k].m + 1
            if inner:
                items.append(Item(kind="innerattr", a=i, b=e, attrs=[], text=norm(tk[i:e])))
                i = e
                a = i
                continue
            attrs.append(norm(tk[i:e]))
            i = e
        if i >= j:
            break
        body0 = i
        if tk[i].s == "pub":
            i += 1
            if i < j and tk[i].s == "(":
                i = tk[i].m + 1
        quals = []
        while i < j and tk[i].s in ("const", "unsafe", "async", "extern", "default") and not (
                tk[i].s == "const" and tk[i + 1].k == "ident" and tk[i + 1].s not in ("fn", "unsafe", "async", "extern")):
            if tk[i].s == "extern" and tk[i + 1].s == "crate":
                break
            quals.append(i)
            i += 1
            if tk[i].k == "lit":
                i += 1
            if tk[i].s in ("impl", "trait", "{"):
                break
        kw = tk[i].s
        it = Item(a=a, attrs=attrs, vis0=body0, kwi=i, quals=quals)
        if kw == "fn":
            parse_fn(tk, i, it)
        elif kw in ("use", "type", "static") or (kw == "extern" and tk[i + 1].s == "crate") or kw == "const":
            k = i
            while tk[k].s != ";":
                k = tk[k].m + 1 if tk[k].s in OPEN else k + 1
            it.kind, it.b, it.name = kw, k + 1, tk[i + 1].s
        elif kw in ("mod",):
            it.kind, it.name = "mod", tk[i + 1].s
            if tk[i + 2].s == ";":
                it.b, it.body = i + 3, None
            else:
                it.b, it.body = tk[i + 2].m + 1, (i + 3, tk[i + 2].m)
        elif kw in ("struct", "enum", "union", "trait"):
            it.kind, it.name = kw, tk[i + 1].s
            k = i + 2
            while tk[k].s not in ("{", ";"):
                k = tk[k].m + 1 if tk[k].s in ("(", "[") else k + 1
            it.b = k + 1 if tk[k].s == ";" else tk[k].m + 1
            it.body = None if tk[k].s == ";" else (k + 1, tk[k].m)
        elif kw == "impl":
            it.kind = "impl"
            k = i + 1
            it.gen = ""
            g0 = g1 = None
            if tk[k].s == "<":
                g0, g1 = k, skip_generics(tk, k)
                k = g1
            it.geni = (g0, g1)
            h0 = k
            fori = wherei = None
            while tk[k].s != "{":
                if tk[k].s == "<":
                    k = skip_generics(tk, k)
                    continue
                if tk[k].s in ("(", "["):
                    k = tk[k].m + 1
                    continue
                if tk[k].s == "for" and tk[k + 1].s != "<":
                    fori = k
                if tk[k].s == "where" and wherei is None:
                    wherei = k
                k += 1
            it.hdr = (h0, fori, wherei, k)
            it.body = (k + 1, tk[k].m)
            it.b = tk[k].m + 1
            tyend = wherei if wherei is not None else k
            it.trait = norm(tk[h0:fori]) if fori else None
            it.ty = norm(tk[(fori + 1 if fori else h0):tyend])
        else:
            # macro invocation or something unknown
            k = i
            while k < j and tk[k].s not in (";", "{"):
                k = tk[k].m + 1 if tk[k].s in ("(", "[") else k + 1
            if k >= j:
                raise LexError(f"item at {tk[i]}")
            it.kind, it.name = "other", tk[i].s
            it.b = k + 1 if tk[k].s == ";" else tk[k].m + 1
        items.append(it)
        i = it.b
    return items

def parse_fn(tk, i, it):
    it.kind, it.name = "fn", tk[i + 1].s
    k = i + 2
    it.fgen = None
    if tk[k].s == "<":
        e = skip_generics(tk, k)
        it.fgen = (k, e)
        k = e
    assert tk[k].s == "("
    it.params = (k + 1, tk[k].m)
    k = tk[k].m + 1
    it.ret = None
    if tk[k].s == "-" and tk[k + 1].s == ">":
        r0 = k + 2
        k = r0
        while tk[k].s not in ("{", ";", "where"):
            if tk[k].s == "<":
                k = skip_generics(tk, k)
            elif tk[k].s in ("(", "["):
                k = tk[k].m + 1
            else:
                k += 1
        it.ret = (r0, k)
    it.where = None
    if tk[k].s == "where":
        w0 = k
        while tk[k].s not in ("{", ";"):
            k = tk[k].m + 1 if tk[k].s in ("(", "[") else k + 1
        it.where = (w0, k)
    if tk[k].s == ";":
        it.body, it.b = None, k + 1
    else:
        it.body, it.b = (k + 1, tk[k].m), tk[k].m + 1

def loops(tk, i, j):
    """loops in tokens [i,j), in text order: (kind, keyword index, iterator start or None, body open index)"""
    out = []
    k = i
    while k < j:
        t = tk[k]
        if t.k == "ident" and t.s in ("for", "while", "loop") and not (t.s == "for" and tk[k + 1].s == "<"):
            m, expr = k + 1, None
            while tk[m].s != "{":
                if t.s == "for" and expr is None and tk[m].s == "in":
                    expr = m + 1
                m = tk[m].m + 1 if tk[m].s in ("(", "[") else m + 1
            if t.s == "for" and expr is None:
                raise LexError("for without in")
            out.append((t.s, k, expr, m))
        k += 1
    return out
