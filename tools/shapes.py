"""Two respellings made before the extraction cuts functions, so that contracts need one spelling only:
the const parameter of an item is called N; a struct of one named field is the tuple struct of one field."""
import re
import rustlex as rl

def const_names(src):
    """`impl<const CAP: usize> .. CAP ..` -> `impl<const N: usize> .. N ..`, per item"""
    tk, _ = rl.lex(src)
    reps = []
    def walk(items):
        for it in items:
            if it.kind == "mod" and it.body:
                walk(rl.parse_items(tk, *it.body))
                continue
            if it.kind not in ("impl", "struct", "enum", "type", "fn", "trait"):
                continue
            found = {}
            for k in range(it.a, it.b - 3):
                if tk[k].s == "const" and tk[k - 1].s in ("<", ",") and tk[k + 1].k == "ident" and tk[k + 2].s == ":" and tk[k + 3].s == "usize":
                    found[tk[k + 1].s] = 1
            words = {t.s for t in tk[it.a:it.b]}
            if len(found) == 1 and "N" not in words:
                x = next(iter(found))
                reps.extend((t.a, t.b) for n, t in enumerate(tk[it.a:it.b]) if t.k == "ident" and t.s == x and tk[it.a + n - 1].s != ".")
    walk(rl.parse_items(tk, 0, len(tk)))
    for a, b in sorted(reps, reverse=True):
        src = src[:a] + "N" + src[b:]
    return src

def wrappers(srcs):
    """structs of one named field, whose name no other struct has for a field: {struct: field}"""
    fields, out = {}, {}
    for src in srcs.values():
        tk, _ = rl.lex(src)
        def walk(items):
            for it in items:
                if it.kind == "mod" and it.body:
                    walk(rl.parse_items(tk, *it.body))
                elif it.kind in ("struct", "union", "enum") and it.body:
                    names = [tk[k].s for k in range(*it.body) if tk[k].k == "ident" and tk[k + 1].s == ":" and tk[k + 2].s != ":" and tk[k - 1].s != ":"]
                    for n in names:
                        fields[n] = fields.get(n, 0) + 1
                    if it.kind == "struct" and len(names) == 1 and it.name != "ArrayString":
                        out[it.name] = names[0]
        walk(rl.parse_items(tk, 0, len(tk)))
    return {s: f for s, f in out.items() if fields[f] == 1}

def tuples(srcs):
    ws = wrappers(srcs)
    if not ws:
        return srcs, 0
    n, new = 0, {}
    for name, src in srcs.items():
        tk, _ = rl.lex(src)
        cuts = []
        def struct_def(it, f):
            i, j = it.body
            colon = next(k for k in range(i, j) if tk[k].s == f and tk[k + 1].s == ":") + 1
            e = j - 1 if tk[j - 1].s == "," else j
            where = [k for k in range(it.kwi, i - 1) if tk[k].s == "where"]
            # struct S<..> where W { v f: T }  ->  struct S<..>(v T) where W;
            vis = src[tk[i].a:tk[colon - 1].a]
            vis = re.sub(r"#\[[^\]]*\]", "", vis)
            ty = src[tk[colon + 1].a:tk[e - 1].b]
            head_end = tk[where[0] - 1].b if where else tk[i - 2].b
            w = src[tk[where[0]].a:tk[i - 2].b].rstrip().rstrip(",") if where else ""
            cuts.append((head_end, tk[j].b, f"({vis} {ty}) {w};"))
        def walk(items, owner):
            for it in items:
                if it.kind == "mod" and it.body:
                    walk(rl.parse_items(tk, *it.body), owner)
                elif it.kind == "struct" and it.name in ws and it.body:
                    struct_def(it, ws[it.name])
                elif it.kind in ("impl", "fn") and it.body:
                    own = re.sub(r"<.*", "", it.ty).split("::")[-1] if it.kind == "impl" else None
                    for k in range(it.a, it.b):
                        t = tk[k]
                        if t.k != "ident":
                            continue
                        s = own if t.s == "Self" else t.s
                        if s in ws and tk[k + 1].s == "{" and tk[k + 2].s == ws[s] and tk[k + 3].s in (":", "}", ","):
                            o, e = k + 1, tk[k + 1].m
                            if tk[k + 3].s == ":":
                                last = e - 1 if tk[e - 1].s == "," else e
                                cuts.append((tk[o].a, tk[k + 3].b, "("))
                                if last != e:
                                    cuts.append((tk[last].a, tk[e].b, ")"))
                                else:
                                    cuts.append((tk[e].a, tk[e].b, ")"))
                            else:
                                cuts.append((tk[o].a, tk[e].b, f"({ws[s]})"))
                        elif t.s in ws.values() and tk[k - 1].s == "." and tk[k + 1].s != "(":
                            cuts.append((t.a, t.b, "0"))
        walk(rl.parse_items(tk, 0, len(tk)), None)
        n += len(cuts)
        for a, b, s in sorted(cuts, reverse=True):
            src = src[:a] + s + src[b:]
        new[name] = src
    return new, n

WRITTEN = {
    "PartialEq": ("eq", "fn eq(&self, other: &Self) -> bool {{ {0} }}", "self.{f}.eq(&other.{f})", " && "),
    "Ord": ("cmp", "fn cmp(&self, other: &Self) -> core::cmp::Ordering {{ {0} }}", "self.{f}.cmp(&other.{f})", None),
    "PartialOrd": ("partial_cmp", "fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {{ {0} }}", "self.{f}.partial_cmp(&other.{f})", None),
    "Hash": ("hash", "fn hash<H: core::hash::Hasher>(&self, hasher: &mut H) {{ {0} }}", "self.{f}.hash(hasher);", " "),
    "Clone": ("clone", "fn clone(&self) -> Self {{ {0} }}", "self.{f}.clone()", ", "),
}

def derives(src, contracts):
    """derived impls that have a contract (they were written by hand when it was made) written out as the compiler does"""
    tk, _ = rl.lex(src)
    cuts = []
    def walk(items):
        for it in items:
            if it.kind == "mod" and it.body:
                walk(rl.parse_items(tk, *it.body))
            if it.kind not in ("struct", "enum"):
                continue
            names = [n for a in it.attrs if (m := re.match(r"#\[derive\((.*)\)\]$", a)) for n in m.group(1).split(",")]
            todo = [n for n in names if n in WRITTEN and f"{it.name} as {n}::{WRITTEN[n][0]}" in contracts]
            if not todo:
                continue
            k = it.kwi + 2
            gen = args = ""
            if tk[k].s == "<":
                e = rl.skip_generics(tk, k)
                gen = src[tk[k].a:tk[e - 1].b]
                args = "<" + ", ".join(re.findall(r"(?:const\s+)?('?\w+)\s*(?::[^,>]*)?(?=[,>])", gen[1:])) + ">"
                k = e
            wh = next((x for x in range(k, it.b) if tk[x].s == "where"), None)
            where = ""
            if wh is not None:
                we = wh
                while tk[we].s not in ("{", ";"):
                    we = tk[we].m + 1 if tk[we].s in ("(", "[") else we + 1
                where = src[tk[wh].a:tk[we - 1].b]
            text = ""
            for n in todo:
                m, head, each, glue = WRITTEN[n]
                if it.kind == "enum":
                    inner = tk[it.body[0]:it.body[1]]
                    vs = [t.s for t in inner if t.k == "ident"]
                    if n != "PartialEq" or any(t.s not in vs + [","] for t in inner):
                        continue
                    body = "matches!((self, other), " + " | ".join(f"({it.name}::{v}, {it.name}::{v})" for v in vs) + ")"
                else:
                    if tk[k].s == "(":
                        # one field only: more of them would need the commas told apart
                        if any(t.s == "," for t in tk[k + 1:tk[k].m - 1]):
                            continue
                        fields = ["0"]
                    elif it.body:
                        fields = [tk[x].s for x in range(*it.body) if tk[x].k == "ident" and tk[x + 1].s == ":" and tk[x + 2].s != ":" and tk[x - 1].s != ":"]
                    else:
                        continue
                    if glue is None and len(fields) != 1 or n == "Clone" and fields != ["0"]:
                        continue
                    body = (glue or "").join(each.format(f=f) for f in fields)
                    if n == "Clone":
                        body = f"Self({body})"
                text += f"\nimpl{gen} {n} for {it.name}{args} {where} {{ {head.format(body)} }}\n"
                if n == "Clone" and "Copy" in names:
                    text += f"\nimpl{gen} Copy for {it.name}{args} {where} {{}}\n"
            cuts.append((tk[it.b - 1].b, text))
    walk(rl.parse_items(tk, 0, len(tk)))
    for at, text in sorted(cuts, reverse=True):
        src = src[:at] + text + src[at:]
    return src, sum(1 for _, t in cuts if t)

if __name__ == "__main__":
    import sys, os
    d = sys.argv[1] + "/src"
    s, n = tuples({f[:-3]: const_names(open(f"{d}/{f}").read()) for f in sorted(os.listdir(d)) if f.endswith(".rs")})
    print(n)
    for f in sys.argv[2:]:
        print(s[f])
