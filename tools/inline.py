"""Replaces, in the source text, calls of functions that have no contract by the bodies of those functions, so that
what they do is checked where it is used.  A call that cannot be replaced without changing what the code does is left."""
import re
import rustlex as rl

class H:
    pass

def functions(tk, i, j, owner=None, mod=""):
    """(key, item, impl item or None) of every function in tokens [i, j) outside tests"""
    for it in rl.parse_items(tk, i, j):
        if any("cfg(test)" in a.replace(" ", "") for a in it.attrs):
            continue
        if it.kind == "fn" and it.body:
            yield (f"{owner}::{it.name}" if owner else it.name), it
        elif it.kind == "impl":
            ty = re.sub(r"<.*", "", it.ty)
            yield from functions(tk, *it.body, ty if it.trait is None else f"{ty} as {it.trait}", mod)
        elif it.kind == "mod" and it.body:
            yield from functions(tk, *it.body, None, mod)

def params(tk, it):
    """[(pattern text, type text)], receiver or None; tokens of the receiver"""
    out, recv = [], None
    i, j = it.params
    k = st = i
    while k <= j:
        if k == j or tk[k].s == ",":
            seg = tk[st:k]
            ss = [t.s for t in seg]
            if "self" in ss and ":" not in ss:
                recv = ss
            elif "self" in ss[:2]:
                return None, None               # self: T
            elif seg:
                c = ss.index(":")
                out.append((st, st + c, st + c + 1, k))
            st = k + 1
            k += 1
        elif tk[k].s in rl.OPEN:
            k = tk[k].m + 1
        elif tk[k].s == "<":
            k = rl.skip_generics(tk, k)
        else:
            k += 1
    return out, recv

def err_type(s):
    m = re.match(r"Result<(.*)>$", s)
    if not m:
        return "?"
    d, p = 0, 0
    for n, ch in enumerate(m.group(1)):
        d += (ch in "<([") - (ch in ">)]")
        if ch == "," and d == 0:
            p = n + 1
    return m.group(1)[p:]

def helpers(sources, contracted):
    """functions without a contract that can be written out at their calls, by name"""
    hs, seen = {}, {}
    for f, src in sources.items():
        tk, _ = rl.lex(src)
        for key, it in functions(tk, 0, len(tk)):
            seen[it.name] = seen.get(it.name, 0) + 1
            if key in contracted or " as " in key or f == "integration":
                continue
            ps, recv = params(tk, it)
            if ps is None or recv and "mut" in recv and "&" not in recv:
                continue
            T = lambda a, b: src[tk[a].a:tk[b - 1].b] if b > a else ""
            h = H()
            h.key, h.name, h.file, h.recv = key, it.name, f, recv
            h.pats, h.types = [T(a, b) for a, b, _, _ in ps], [T(c, d) for _, _, c, d in ps]
            h.generic = bool(it.fgen)
            h.gen = {t.s for t in tk[it.fgen[0]:it.fgen[1]] if t.k == "ident"} if it.fgen else set()
            h.ret = rl.norm(tk[it.ret[0]:it.ret[1]]) if it.ret else "()"
            h.rettext = T(*it.ret) if it.ret else "()"
            h.unsafe = any(tk[q].s == "unsafe" for q in it.quals)
            i0, i1 = it.body
            h.src, h.tk, h.body = src, tk, it.body
            h.private = tk[it.vis0].s != "pub" or tk[it.vis0 + 1].s == "("
            h.bar = any(t.s == "|" for t in tk[i0:i1])
            h.ret_q = [k for k in range(i0, i1) if tk[k].s == "?" and tk[k].k == "punct"]
            h.ret_r = [k for k in range(i0, i1) if tk[k].s == "return"]
            if any(t.s == it.name and tk[k + 1].s == "(" and (recv or tk[k - 1].s != ".") for k, t in enumerate(tk[i0:i1], i0)):
                continue                        # recursive
            if any(t.s == "$" or t.s == "macro_rules" for t in tk[i0:i1]):
                continue
            hs[it.name] = h
    return {n: h for n, h in hs.items() if seen[n] == 1}

def body_text(h, recv, drop_ok):
    """the helper's body with its receiver put in; drop_ok: its final Ok(x) written as x"""
    tk, src = h.tk, h.src
    i0, i1 = h.body
    a, b = tk[i0 - 1].b, tk[i1].a
    edits = []
    if h.recv and recv != "self":
        for k in range(i0, i1):
            if tk[k].s == "self" and tk[k].k == "ident":
                if tk[k + 1].s == "." or "&" not in h.recv:
                    edits.append((tk[k].a, tk[k].b, recv))
                else:
                    edits.append((tk[k].a, tk[k].b, ("(&mut " if "mut" in h.recv else "(&") + recv + ")"))
    if drop_ok:
        k = i1 - 1
        o = tk[k].m if tk[k].s == ")" else None
        if not o or tk[o - 1].s != "Ok" or not (o - 1 == i0 or tk[o - 2].s in (";", "}")):
            return None
        edits.append((tk[o - 1].a, tk[o - 1].b, ""))
    out, p = "", a
    for x, y, s in sorted(edits):
        out += src[p:x] + s
        p = y
    return out + src[p:b]

def start_of_chain(tk, k, lo):
    i = k - 1
    while i >= lo:
        t = tk[i]
        if t.s in rl.CLOSE:
            i = t.m - 1
            continue
        if t.s == "." or t.s == "?":
            i -= 1
            continue
        if t.k in ("ident", "lit"):
            if tk[i - 1].s == "." and i - 1 > lo:
                i -= 1
                continue
            if tk[i - 1].s == ":" and tk[i - 2].s == ":":
                return None
            return i
        return None
    return None

def inline_once(src, hs, file, contracted, used):
    tk, _ = rl.lex(src)
    edits = []
    taken = []
    for key, it in functions(tk, 0, len(tk)):
        if it.name in hs and key == hs[it.name].key:
            continue
        i0, i1 = it.body
        caller_ret = rl.norm(tk[it.ret[0]:it.ret[1]]) if it.ret else "()"
        for k in range(i0, i1):
            t = tk[k]
            h = hs.get(t.s) if t.k == "ident" else None
            if not h or tk[k + 1].s != "(":
                continue
            e = tk[k + 1].m
            # the receiver
            recv = None
            if tk[k - 1].s == "." and tk[k - 2].s != ".":
                if not h.recv:
                    continue
                st = start_of_chain(tk, k - 1, i0)
                if st is None:
                    continue
                recv = src[tk[st].a:tk[k - 2].b]
                if not re.fullmatch(r"\w+(\.0)?", recv):
                    continue
            else:
                st = k
                while tk[st - 1].s == ":" and tk[st - 2].s == ":":
                    st -= 2
                    if tk[st - 1].s == ">":
                        st = -1
                        break
                    st -= 1
                if st < i0 or h.recv:
                    continue
            # arguments
            args, s, i = [], k + 2, k + 2
            while i < e:
                if tk[i].s in rl.OPEN:
                    i = tk[i].m
                elif tk[i].s == ",":
                    args.append(src[tk[s].a:tk[i - 1].b])
                    s = i + 1
                elif tk[i].s == "|":
                    args = None
                    break
                i += 1
            if args is None:
                continue
            if s < e:
                args.append(src[tk[s].a:tk[e - 1].b])
            if len(args) != len(h.pats):
                continue
            # early exits
            q = tk[e + 1].s == "?"
            end = e + 1
            depth0 = not any(x < st and e < tk[x].m for x in range(i0, st) if tk[x].s in rl.OPEN)
            tail = e + 1 == i1 and depth0 and tk[st - 1].s in (";", "{", "}") or tk[st - 1].s == "return"
            drop = False
            if h.ret_q or h.ret_r:
                if h.bar:
                    continue
                if tail and h.ret == caller_ret:
                    pass
                elif q and err_type(h.ret) == err_type(caller_ret) and h.ret.startswith("Result<") and not any(h.tk[r + 1].s == "Ok" or h.tk[r + 1].s == ";" for r in h.ret_r) and all(h.tk[r + 1].s == "Err" for r in h.ret_r):
                    drop = True
                else:
                    continue
            body = body_text(h, recv, drop)
            if body is None and drop:
                drop = False
                body = body_text(h, recv, False)
            if drop:
                end = e + 2
            typed = [not (re.search(r"\bimpl\b|'", ty) or h.gen & set(re.findall(r"\w+", ty))) for ty in h.types]
            lets = ""
            if len(args) == 1:
                lets = f"let {h.pats[0]}" + (f": {h.types[0]}" if typed[0] else "") + f" = {args[0]};"
            elif args:
                lets = f"let ({', '.join(h.pats)})" + (f": ({', '.join(h.types)})" if all(typed) else f": ({', '.join(ty if ok else '_' for ty, ok in zip(h.types, typed))})") + f" = ({', '.join(args)});"
            a, b = tk[st].a, tk[end - 1].b
            if any(x < b and a < y for x, y in taken):
                continue
            taken.append((a, b))
            stmt = tk[st - 1].s in (";", "{", "}") and tk[end].s == ";"
            text = "{ " + lets + body + " }"
            edits.append((a, b, text if tail and tk[st - 1].s != "return" else f"({text})"))
            used.setdefault(h.name, []).append(key)
    out, p = "", 0
    for a, b, s in sorted(edits):
        out += src[p:a] + s
        p = b
    return out + src[p:], len(edits)

def structured(src, contracted):
    """early returns of functions without a contract, made values: if C { return A; } B  ->  if C { A } else { B }; return A; -> A at the end"""
    for _ in range(40):
        tk, _x = rl.lex(src)
        new = None
        for key, it in functions(tk, 0, len(tk)):
            if key in contracted or " as " in key or not any(t.s == "return" for t in tk[it.body[0]:it.body[1]]):
                continue
            todo = [it.body]
            while todo and not new:
                i, j = todo.pop()
                k = st = i
                last = i                                  # where the last statement or the tail expression starts
                while k < j:
                    if k == st and tk[k].s == "if":
                        o = k + 1
                        while tk[o].s != "{":
                            o = tk[o].m + 1 if tk[o].s in ("(", "[") else o + 1
                        c = tk[o].m
                        if tk[c + 1].s != "else" and c + 1 < j:
                            r = c - 1
                            while r > o and tk[r - 1].s not in (";", "{", "}"):
                                r = tk[r - 1].m if tk[r - 1].s in rl.CLOSE and tk[r - 1].s != "}" else r - 1
                            if tk[c - 1].s == ";" and tk[r].s != "return":
                                r = c - 2
                                while r > o and tk[r].s != "return" and tk[r].s not in (";", "}"):
                                    r -= 1
                            if tk[r].s == "return" and not any(x.s == "return" for x in tk[o:r]):
                                e = tk[c - 2].b if tk[c - 1].s == ";" else tk[c - 1].b
                                new = src[:tk[r].a] + src[tk[r].b:e] + " } else {" + src[tk[c].b:tk[j].a] + "}" + src[tk[j].a:]
                                break
                        while tk[c + 1].s == "else":
                            o = c + 2
                            while tk[o].s != "{":
                                o = tk[o].m + 1 if tk[o].s in ("(", "[") else o + 1
                            c = tk[o].m
                        last = k
                        k = st = c + 1
                        continue
                    if k == st:
                        last = k
                    if tk[k].s == ";":
                        k = st = k + 1
                    elif tk[k].s in rl.OPEN:
                        blk = tk[k].s == "{"
                        k = tk[k].m + 1
                        if blk and tk[last].s in ("while", "for", "loop", "match", "unsafe", "{") and tk[k].s not in (".", "?"):
                            st = k
                    else:
                        k += 1
                if new or last >= j:
                    continue
                if tk[last].s == "return":
                    e = tk[j - 2].b if tk[j - 1].s == ";" else tk[j - 1].b
                    if tk[j - 1].s == ";" and any(x.s == ";" for x in tk[last:j - 1]) and not any(x.s == "{" for x in tk[last:j - 1]):
                        continue
                    new = src[:tk[last].a] + src[tk[last].b:e] + " " + src[tk[j].a:]
                elif tk[last].s == "if":
                    o = last
                    while o < j:
                        while tk[o].s != "{":
                            o = tk[o].m + 1 if tk[o].s in ("(", "[") else o + 1
                        todo.append((o + 1, tk[o].m))
                        o = tk[o].m + 1
                        if tk[o].s != "else":
                            break
            if new:
                break
        if not new:
            return src
        src = new
    return src

def inline(sources, contracted):
    """-> (new sources, {helper: callers}, helpers no longer called anywhere)"""
    used, first = {}, None
    defined = inherent(sources)
    for f in list(sources):
        n = 0
        if f != "integration":
            sources[f] = structured(sources[f], contracted)
        for n in range(60):
            t = respelled(sources[f], defined)
            if t is None:
                break
            sources[f] = t
        sources[f], m = normalise(sources[f])
        n += m
        if n:
            used["(loops)"] = used.get("(loops)", []) + [f] * n
    for _ in range(4):
        hs = helpers(sources, contracted)
        if first is None:
            first = hs
        if not hs:
            break
        n, new = 0, {}
        for f, src in sources.items():
            new[f], m = inline_once(src, hs, f, contracted, used)
            n += m
        sources = new
        if not n:
            break
    gone = set()
    for n, h in (first or {}).items():
        if h.private and n in used:
            calls = 0
            for f, src in sources.items():
                tk, _ = rl.lex(src)
                for key, it in functions(tk, 0, len(tk)):
                    if key != h.key:
                        calls += sum(1 for k in range(*it.body) if tk[k].s == n and tk[k + 1].s == "(" and (h.recv or tk[k - 1].s != "."))
            if not calls:
                gone.add(h.key)
    return sources, used, gone

STR = {"is_empty", "is_char_boundary", "as_bytes", "chars", "char_indices", "get", "get_unchecked", "trim", "trim_start", "trim_end", "bytes", "starts_with", "ends_with", "is_ascii"}

def closure(tk, o):
    """a call's brackets at o holding one closure |P| E: tokens (first of P, after P, first of E, after E)"""
    e = tk[o].m
    if tk[o + 1].s != "|":
        return None
    q = o + 2
    while q < e and tk[q].s != "|":
        q = tk[q].m + 1 if tk[q].s in rl.OPEN else q + 1
    if any(tk[i].s == "," for i in top(tk, q + 1, e)) or tk[q + 1].s == "-":
        return None
    return o + 2, q, q + 1, e

def top(tk, i, j):
    while i < j:
        yield i
        i = tk[i].m + 1 if tk[i].s in rl.OPEN else i + 1

def no_exit(tk, i, j):
    """nothing in the closure's body returns from it, so it can become a loop's body"""
    return not any(t.k == "ident" and t.s in ("return", "break", "continue") or t.s in ("?", "|") for t in tk[i:j])

def respelled(src, defined):
    """one step of writing what the source says in the spelling the contracts are made for, or None:
       E.into_iter().try_for_each(|P| B)?;      ->  for P in E { B?; }
       E.into_iter().for_each(|P| B);           ->  for P in E { B; }
       let _ = E.into_iter().any(|P| B);        ->  for P in E { if B { break; } }
       let mut X = E; loop { match X.next() { Some(P) => B, None => break | return R } }   ->  for P in E { B }  [return R]
       match V { A(..) => continue, .. } at the end of a loop's body                       ->  A(..) => {}
       V(&x) => E                               ->  V(x) => E, with *x for x
       I.map(|x| *x), I.map(|&x| x)             ->  I.cloned()
       s.m(..), for a string s and a method m of str only   ->  s.deref().m(..)"""
    tk, _ = rl.lex(src)
    cut = lambda a, b, t: src[:a] + t + src[b:]
    for key, it in functions(tk, 0, len(tk)):
        i0, i1 = it.body
        T = lambda a, b: src[tk[a].a:tk[b - 1].b] if b > a else ""
        head = T(*it.params)
        own = key.split("::")[0].split(" as ")[0] if "::" in key else ""
        strs = set(re.findall(r"\b(\w+)\s*:\s*&(?:mut )?(?:ArrayString|CacheString)\b", head))
        for k in range(i0, i1):
            t = tk[k]
            if t.k != "ident":
                continue
            if t.s in ("try_for_each", "for_each", "any") and tk[k - 1].s == "." and tk[k + 1].s == "(" and (c := closure(tk, k + 1)):
                st = start_of_chain(tk, k - 1, i0)
                e = tk[k + 1].m
                if st is None or not no_exit(tk, c[2], c[3]):
                    continue
                let = [x.s for x in tk[st - 3:st]] == ["let", "_", "="]
                first = st - 3 if let else st
                if tk[first - 1].s not in (";", "{", "}"):
                    continue
                q = tk[e + 1].s == "?"
                if tk[e + 1 + q].s != ";" or q != (t.s == "try_for_each") or (t.s == "any") != let and t.s != "for_each":
                    continue
                ex = re.sub(r"\s*\.\s*into_iter\s*\(\s*\)\s*$", "", T(st, k - 1))
                b = T(c[2], c[3])
                b = {"try_for_each": f"{{ ({b})?; }}" if not b.startswith("{") else f"{{ {b}?; }}", "for_each": f"{{ {b}; }}", "any": f"{{ if {b} {{ break; }} }}"}[t.s]
                return cut(tk[first].a, tk[e + 1 + q].b, f"for {T(c[0], c[1])} in {ex} {b}")
            if t.s == "loop" and tk[k + 1].s == "{" and tk[k + 2].s == "match" and tk[k - 1].s in (";", "}"):
                e = tk[k + 1].m
                x = tk[k + 3].s
                if [y.s for y in tk[k + 4:k + 9]] != [".", "next", "(", ")", "{"] or tk[k + 8].m not in (e - 1, e - 2) or not (tk[k + 8].m == e - 1 or tk[e - 1].s == ";"):
                    continue
                arms = split_arms(tk, k + 8)
                if not arms or len(arms) != 2:
                    continue
                some = [a for a in arms if tk[a[0]].s == "Some" and tk[a[0] + 1].s == "("]
                none = [a for a in arms if tk[a[0]].s == "None" and a[1] == a[0] + 1]
                if len(some) != 1 or len(none) != 1 or tk[some[0][0] + 1].m + 1 != some[0][1]:
                    continue
                nb = T(none[0][2], none[0][3]).strip().rstrip(";").strip("{} \n").rstrip(";").strip()
                if not re.match(r"(break|return\b.*)$", nb, re.S) or nb != "break" and "{" in nb:
                    continue
                j = k - 2
                while j > i0 and tk[j].s not in (";", "{", "}"):
                    j = tk[j].m - 1 if tk[j].s in rl.CLOSE else j - 1
                if [y.s for y in tk[j + 1:j + 5]] != ["let", "mut", x, "="] or sum(y.s == x for y in tk[k:i1]) != 1:
                    continue
                ex = re.sub(r"\s*\.\s*into_iter\s*\(\s*\)\s*$", "", T(j + 5, k - 1))
                tail = f" {nb};" if nb != "break" else ""
                if tail and tk[e + 1].s == "}":
                    tail = " " + nb[6:].strip()
                return cut(tk[j + 1].a, tk[e].b, f"for {T(some[0][0] + 2, some[0][1] - 1)} in {ex} {{ {T(some[0][2], some[0][3])}; }}{tail}")
            if t.s == "continue" and tk[k - 1].s == ">" and tk[k - 2].s == "=" and (tk[k + 1].s in (",", "}")):
                m = next((x for x in range(k, i0, -1) if tk[x].s == "{" and tk[x].m > k), None)
                if m is None:
                    continue
                c = tk[m].m                       # end of the match
                o = next((x for x in range(m - 1, i0, -1) if tk[x].s == "{" and tk[x].m > k), None)
                if o is None or not (tk[o].m == c + 1 or tk[o].m == c + 2 and tk[c + 1].s == ";"):
                    continue
                h = next((x for x in range(o - 1, i0, -1) if tk[x].s in (";", "{", "}")), i0 - 1) + 1
                if tk[h].s not in ("for", "while", "loop"):
                    continue
                return cut(t.a, t.b, "{}")
            if tk[k + 1].s == "(" and tk[k + 2].s == "&" and tk[k + 3].k == "ident" and tk[k + 4].s == ")" and tk[k + 5].s == "=" and tk[k + 6].s == ">":
                x, b = tk[k + 3].s, k + 7
                e = tk[b].m + 1 if tk[b].s == "{" else b
                while tk[b].s != "{" and e < i1 and tk[e].s not in (",", "}"):
                    e = tk[e].m + 1 if tk[e].s in rl.OPEN else e + 1
                body = src[tk[b].a:tk[e - 1].b]
                body = re.sub(rf"(?<![.\w]){x}\b", f"(*{x})", body)
                return src[:tk[k + 2].a] + src[tk[k + 2].b:tk[b].a] + body + src[tk[e - 1].b:]
            if t.s == "map" and tk[k - 1].s == "." and tk[k + 1].s == "(" and tk[k - 2].s == ")" and tk[tk[k - 2].m - 1].s in ("iter", "into_iter"):
                m = re.fullmatch(r"\|\s*(&?)\s*(\w+)\s*\|\s*(\*?)\s*\2", T(k + 2, tk[k + 1].m))
                if m and (m.group(1) == "&") != (m.group(3) == "*"):
                    return cut(t.a, tk[tk[k + 1].m].b, "cloned()")
            if t.s in STR and t.s not in defined and tk[k - 1].s == "." and tk[k + 1].s == "(":
                a, b = tk[k - 2], tk[k - 3]
                ref = a.s in strs or "&" in [x.s for x in tk[it.params[0]:it.params[0] + 1]]
                if a.s == "self" and own in ("ArrayString", "CacheString") and b.s != "." or a.s in strs and a.k == "ident" and b.s != ".":
                    cache = a.s == "self" and own == "CacheString" or re.search(rf"\b{a.s}\s*:\s*&(?:mut )?CacheString", head)
                    return cut(a.a, a.b, f"{a.s}.0.deref()" if cache else f"(*{a.s}).deref()" if ref else f"{a.s}.deref()")
                if a.s == "0" and b.s == "." and tk[k - 4].s == "self" and tk[k - 5].s != "." and own in ("Drain", "CacheString"):
                    return cut(tk[k - 1].a, tk[k - 1].a, ".deref()")
    return None

def split_arms(tk, o):
    """[(first, after pattern, first of body, after body)] of a match's braces at o"""
    out, i, e = [], o + 1, tk[o].m
    while i < e:
        p = i
        while p < e and not (tk[p].s == "=" and tk[p + 1].s == ">" or tk[p].s == "=>"):
            if tk[p].s == "if":
                return None
            p = tk[p].m + 1 if tk[p].s in rl.OPEN else p + 1
        b = p + (1 if tk[p].s == "=>" else 2)
        if b >= e:
            return None
        q = tk[b].m + 1 if tk[b].s == "{" else b
        while q < e and tk[q].s != "," and not (tk[b].s == "{"):
            q = tk[q].m + 1 if tk[q].s in rl.OPEN else q + 1
        out.append((i, p, b, q))
        i = q + (q < e and tk[q].s == ",")
    return out

def inherent(sources):
    """names of the crate's own functions with a receiver"""
    out = set()
    for src in sources.values():
        tk, _ = rl.lex(src)
        for key, it in functions(tk, 0, len(tk)):
            if any(t.s == "self" for t in tk[it.params[0]:it.params[1]][:4]):
                out.add(it.name)
    return out

def unrolled(src, tk, k, i1):
    """the text with the loop at token k over a range between two small numbers written out"""
    i = next((j for j in range(k, i1) if tk[j].s == "in"), None)
    o = next((j for j in range(k, i1) if tk[j].s == "{"), None)
    if i is None or o is None or o < i:
        return None
    m = re.fullmatch(r"\(?\s*(\d+)(?:_?[ui]\w+)?\s*\.\.(=?)\s*(\d+)(?:_?[ui]\w+)?\s*\)?", src[tk[i].b:tk[o].a].strip())
    if not m:
        return None
    a, b = int(m.group(1)), int(m.group(3)) + (m.group(2) == "=")
    if not 0 < b - a <= 6:
        return None
    e, pat, cond, rest = tk[o].m, src[tk[k + 1].a:tk[i].a], None, o + 1
    if tk[o + 1].s == "if" and tk[o + 2].s != "let":
        c = o + 2
        while tk[c].s != "{":
            c = tk[c].m + 1 if tk[c].s in ("(", "[") else c + 1
        if [t.s for t in tk[c + 1:tk[c].m]] in (["break", ";"], ["break"]) and tk[tk[c].m + 1].s != "else":
            cond, rest = src[tk[o + 2].a:tk[c].a], tk[c].m + 1
    if any(t.k == "ident" and t.s in ("break", "continue", "for", "while", "loop") for t in tk[rest:e]):
        return None
    body = src[tk[rest - 1].b:tk[e].a]
    ty = re.search(r"[ui](8|16|32|64|128|size)\b", m.group(0))
    out = ""
    for n in reversed(range(a, b)):
        let = f"let {pat} = {n}{ty.group(0) if ty else ''};" if pat.strip() != "_" else ""
        out = "{ " + let + (f" if !({cond}) {{ {body}; {out} }} }}" if cond is not None else f" {body}; {out} }}")
    return src[:tk[k].a] + out + src[tk[e].b:]

def pointer_methods(src, tk, i0, i1):
    """p.copy_to(q, n) -> core::ptr::copy(p, q, n), p.copy_from(q, n) -> core::ptr::copy(q, p, n) and so on, for a named p;
       slice::from_raw_parts(X.as_ptr(), n) -> X.get_unchecked(..n)"""
    for k in range(i0 + 2, i1 - 1):
        s = tk[k].s
        if s in ("copy_to", "copy_from", "copy_to_nonoverlapping", "copy_from_nonoverlapping") and tk[k - 1].s == "." and tk[k - 2].k == "ident" and tk[k - 3].s not in (".", ":") and tk[k + 1].s == "(":
            e = tk[k + 1].m
            a = k + 2
            while a < e and tk[a].s != ",":
                a = tk[a].m + 1 if tk[a].s in rl.OPEN else a + 1
            if a >= e:
                return None
            p, q, n = tk[k - 2].s, src[tk[k + 2].a:tk[a - 1].b], src[tk[a + 1].a:tk[e - 1].b].rstrip(" ,")
            x, y = (p, q) if "copy_to" in s else (q, p)
            f = "copy_nonoverlapping" if s.endswith("nonoverlapping") else "copy"
            return src[:tk[k - 2].a] + f"core::ptr::{f}({x}, {y}, {n})" + src[tk[e].b:]
        if s in ("from_raw_parts", "from_raw_parts_mut") and tk[k - 1].s == ":" and tk[k - 3].s == "slice" and tk[k + 1].s == "(":
            e = tk[k + 1].m
            a = k + 2
            while a < e and tk[a].s != ",":
                a = tk[a].m + 1 if tk[a].s in rl.OPEN else a + 1
            got = "as_mut_ptr" if s.endswith("mut") else "as_ptr"
            if a >= e or [t.s for t in tk[a - 4:a]] != [".", got, "(", ")"] or any(t.s in ("(", "[") for t in tk[k + 2:a - 4]):
                continue
            st = k - 3
            while tk[st - 1].s == ":" and tk[st - 3].k == "ident":
                st -= 3
            x, n = src[tk[k + 2].a:tk[a - 5].b], src[tk[a + 1].a:tk[e - 1].b].rstrip(" ,")
            g = "as_mut_slice().get_unchecked_mut" if s.endswith("mut") else "as_slice().get_unchecked"
            return src[:tk[st].a] + f"{x}.{g}(..{n})" + src[tk[e].b:]
    return None

def normalise(src):
    """spellings of one thing, made one:
       let mut X = E; while let Some(P) = X.next() { B }   ->  for P in E { B }      (X not used otherwise)
       if C { S; continue; } REST, in a loop's body         ->  if C { S } else { REST }
       for P in 0..3 { if C { break; } B }                  ->  { let P = 0; if !(C) { B { let P = 1; .. } } }"""
    n = 0
    for _ in range(20):
        tk, _ = rl.lex(src)
        done = True
        for key, it in functions(tk, 0, len(tk)):
            i0, i1 = it.body
            if (u := pointer_methods(src, tk, i0, i1)):
                src, done = u, False
                n += 1
                break
            T = lambda a, b: src[tk[a].a:tk[b - 1].b] if b > a else ""
            for k in range(i0, i1):
                if tk[k].s == "while" and tk[k + 1].s == "let" and tk[k + 2].s == "Some" and tk[k + 3].s == "(":
                    e = tk[k + 3].m
                    w = tk[e + 1:e + 7]
                    if [t.s for t in w[:1] + w[2:]] != ["=", ".", "next", "(", ")"] or tk[e + 7].s != "{":
                        continue
                    x = w[1].s
                    # the statement before: let mut X = E;
                    if tk[k - 1].s != ";":
                        continue
                    j = k - 2
                    while j > i0 and tk[j].s not in (";", "{", "}"):
                        j = tk[j].m - 1 if tk[j].s in rl.CLOSE else j - 1
                    st = j + 1
                    if tk[j].s in (";", "{", "}") and [t.s for t in tk[st:st + 4]] == ["let", "mut", x, "="] and sum(t.s == x for t in tk[k - 1:i1]) == 1:
                        ex = T(st + 4, k - 1)
                        ex = re.sub(r"\s*\.\s*into_iter\s*\(\s*\)\s*$", "", ex)
                        src = src[:tk[st].a] + f"for {T(k + 4, e)} in {ex} " + src[tk[e + 7].a:]
                        done = False
                        break
                if tk[k].s == "for" and tk[k].k == "ident" and tk[k + 1].s != "<" and tk[k - 1].s != ":" and (u := unrolled(src, tk, k, i1)):
                    src, done = u, False
                    break
                if tk[k].s in ("for", "while", "loop") and tk[k].k == "ident" and tk[k + 1].s != "<":
                    b = k + 1
                    while b < i1 and tk[b].s != "{":
                        b = tk[b].m + 1 if tk[b].s in ("(", "[") else b + 1
                    i, e = b + 1, tk[b].m
                    start = True
                    while i < e:
                        if start and tk[i].s == "if" and tk[i + 1].s != "let":
                            o = i + 1
                            while tk[o].s != "{":
                                o = tk[o].m + 1 if tk[o].s in ("(", "[") else o + 1
                            c = tk[o].m
                            if [t.s for t in tk[c - 2:c]] == ["continue", ";"] and tk[c - 3].s in (";", "{", "}") and tk[c + 1].s != "else" and not any(t.s in ("continue",) for t in tk[o:c - 2]):
                                src = src[:tk[c - 2].a] + "} else {" + src[tk[c].b:tk[e].a] + "}" + src[tk[e].a:]
                                done = False
                                break
                            i = c + 1
                            continue
                        start = tk[i].s in (";", "}") 
                        i = tk[i].m + 1 if tk[i].s in rl.OPEN else i + 1
                        if tk[i - 1].s in ("}", ";"):
                            start = True
                    if not done:
                        break
            if not done:
                n += 1
                break
        if done:
            break
    return src, n
