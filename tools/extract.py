"""Cuts the functions of /repo/src out of the source, splices the contracts of /verif/contracts around
them, and writes one Verus file.  The executable text is the repository's own, except for the edits
listed in EDITS below, which are mechanical and counted on every run."""
import os, re, sys, json, glob
sys.path.insert(0, os.path.dirname(__file__))
import rustlex as rl
import inline, configs, macros, shapes

REAL_TRAITS = {"AsRef", "IntoLossy", "Default", "ValidCapacity", "Serialize", "Deserialize", "Visitor", "FromSql", "ToSql"}
STANDIN = {"Serialize", "Deserialize", "Visitor", "FromSql", "ToSql"}     # traits with a contract of their own
FILES = ["error", "utils", "arraystring", "drain", "implementations", "integration", "lib"]
# what contracts/integration.rs stands in for; any other name imported from serde or diesel is left out
KNOWN = {"serde", "serde::de", "serde::ser", "serde::Serialize", "serde::Serializer", "serde::Deserialize", "serde::Deserializer",
         "serde::de::Visitor", "serde::de::Error", "serde::de::Unexpected", "serde::de::Deserialize", "serde::de::Deserializer",
         "serde::ser::Serialize", "serde::ser::Serializer", "serde::ser::Error",
         "diesel", "diesel::backend", "diesel::backend::Backend", "diesel::backend::RawValue", "diesel::deserialize", "diesel::deserialize::FromSql", "diesel::deserialize::Result",
         "diesel::serialize", "diesel::serialize::ToSql", "diesel::serialize::Output", "diesel::serialize::IsNull", "diesel::serialize::Result",
         "diesel::sql_types", "diesel::sql_types::*", "diesel::sql_types::Text"}

class Contract:
    def __init__(self, key):
        self.key, self.ret, self.spec, self.entry, self.loops, self.opts, self.rewrites = key, None, "", "", {}, {}, []
        self.attrs = self.exit = ""
        self.bodies, self.vars, self.afters = {}, {}, {}
        self.params = None
        self.optional = self.may = False

def load_contracts(path):
    out, cur, sec = {}, None, None
    for n, line in enumerate(open(path)):
        if line.startswith("//#"):
            w = line[3:].strip().split(None, 1)
            if w[0] in ("inject", "default"):
                cur = Contract(w[0] + ":" + w[1])
                assert cur.key not in out, cur.key
                out[cur.key] = cur
                sec = "spec"
            elif w[0] in ("fn", "may"):
                m = re.match(r"(.*?)(?:\s*->\s*(\w+))?$", w[1])
                cur = Contract(m.group(1).strip())
                cur.ret = m.group(2)
                cur.may = w[0] == "may"
                assert cur.key not in out, cur.key
                out[cur.key] = cur
                sec = "spec"
            elif w[0] in ("entry", "exit"):
                sec = w[0]
            elif w[0] == "attr":
                cur.attrs += w[1] + "\n"
            elif w[0] == "loop":
                p = w[1].split()
                sec = ("loop", int(p[0]))
                if p[-1] == "optional":
                    cur.optional = True
                    p.pop()
                cur.loops[sec[1]] = [p[1] if len(p) > 1 else None, ""]
            elif w[0] == "body":
                sec = ("body", int(w[1]))
                cur.bodies[sec[1]] = ""
            elif w[0] == "after":
                sec = ("after", int(w[1]))
                cur.afters[sec[1]] = ""
            elif w[0] == "var":
                k, v = w[1].split(None, 1)
                cur.vars[k] = v
            elif w[0] == "params":
                cur.params = w[1].split()
            elif w[0] == "opt":
                k, v = w[1].split("=", 1)
                cur.opts[k.strip()] = v.strip()
            elif w[0] == "rewrite":
                a, b = w[1].split(" => ", 1)
                cur.rewrites.append((a, b))
            elif w[0] in ("note", "end"):
                sec = None if w[0] == "end" else sec
            else:
                raise SystemExit(f"{path}:{n+1}: {line}")
        elif cur is not None and sec:
            if sec == "spec":
                cur.spec += line
            elif sec == "entry":
                cur.entry += line
            elif sec == "exit":
                cur.exit += line
            elif sec[0] == "body":
                cur.bodies[sec[1]] += line
            elif sec[0] == "after":
                cur.afters[sec[1]] += line
            else:
                cur.loops[sec[1]][1] += line
    return out

def apart(cs, prelude):
    """annotations in a body keep apart from the names the body uses: specification functions by their path, ghost variables renamed"""
    names = set(re.findall(r"^pub (?:(?:open|closed|uninterp|broadcast) )*(?:spec|proof) fn (\w+)", prelude, re.M))
    rx = re.compile(r"(?<![.:\w])(" + "|".join(sorted(names)) + r")(?=\()")
    for c in cs.values():
        hints = [c.entry, c.exit, *c.bodies.values(), *c.afters.values()]
        gh = set(re.findall(r"\blet ghost (?:mut )?(\w+)", "".join(hints))) | {v[0] for v in c.loops.values() if v[0]}
        g = re.compile(r"(?<![.\w])(" + "|".join(sorted(gh)) + r")\b") if gh else None
        def f(t):
            t = rx.sub(r"crate::spec::\1", t)
            return g.sub(r"gh_\1", t) if g else t
        c.entry, c.exit = f(c.entry), f(c.exit)
        c.bodies = {k: f(v) for k, v in c.bodies.items()}
        c.afters = {k: f(v) for k, v in c.afters.items()}
        c.loops = {k: [v[0] and "gh_" + v[0], f(v[1])] for k, v in c.loops.items()}

def one_clause_per_line(spec):
    """requires/ensures with one clause per line, so that a failed clause is identified by its line"""
    out, depth, line = "", 0, ""
    for ch in spec:
        if ch in "([{":
            depth += 1
        elif ch in ")]}":
            depth -= 1
        out += ch
        if ch == "," and depth == 0:
            out += "\n       "
    return out

def mangle(s):
    s = re.sub(r"&\s*mut\s+", "mut_", s).replace("&", "ref_")
    return re.sub(r"\W+", "_", s).strip("_")

class Edit:
    """non-overlapping replacements over one source text"""
    def __init__(self, src):
        self.src, self.e = src, []
    def rep(self, a, b, s):
        self.e.append((a, b, s))
    def render(self, a, b):
        out, pos = "", a
        for x, y, s in sorted((e for e in self.e if a <= e[0] and e[1] <= b), key=lambda e: (e[0], e[1])):
            if x < pos:
                raise rl.LexError(f"overlapping edits at {x}")
            out += self.src[pos:x] + s
            pos = y
        return out + self.src[pos:b]

class Extractor:
    def __init__(self, repo, contracts):
        self.repo, self.contracts = repo, contracts
        self.counts, self.fns, self.dropped, self.used, self.problems = {}, [], [], set(), []
        self.caps, self.keys, self.dups, self.probed = [], set(), {}, set()
        self.params, self.seen_params, self.assoc = {}, {}, {}
        self.known_loops, self.seen_loops = {}, {}
        self.dropmods, self.lost_mods, self.mods = set(), [], []
        self.out = []
        self.line = 1
        self.inlined = set()

    def count(self, what):
        self.counts[what] = self.counts.get(what, 0) + 1

    def emit(self, s):
        self.out.append(s)
        self.line += s.count("\n")

    def run(self, skip={}, only_contracted=False):
        self.skip, self.only = skip, only_contracted
        more = sorted(n[:-3] for n in os.listdir(f"{self.repo}/src") if n.endswith(".rs") and n[:-3] not in FILES)
        self.mods = []
        srcs = {f: open(f"{self.repo}/src/{f}.rs").read() for f in FILES[:-1] + more + FILES[-1:] if os.path.exists(f"{self.repo}/src/{f}.rs")}
        srcs = {f: configs.configure(s, self.config) for f, s in srcs.items()}
        try:
            srcs, n = macros.expand(srcs)
            for _ in range(n):
                self.count("invocations of the crate's own macros written out")
            srcs = {f: shapes.const_names(x) for f, x in srcs.items()}
            srcs, n = shapes.tuples(srcs)
            for _ in range(n):
                self.count("uses of a struct of one named field respelled as those of a tuple struct")
            for f in srcs:
                srcs[f], n = shapes.derives(srcs[f], {k for k, c in self.contracts.items() if not c.may})
                for _ in range(n):
                    self.count("derived impls written out")
        except (rl.LexError, IndexError, TypeError, RecursionError, StopIteration) as e:
            self.problems.append(f"macros not written out: {e}")
        try:
            srcs, used, self.inlined = inline.inline(srcs, set(self.contracts))
            for n, c in used.items():
                self.count("calls of functions without a contract replaced by their bodies")
        except (rl.LexError, AssertionError, IndexError, ValueError, TypeError) as e:
            self.problems.append(f"not inlined: {e}")
        self.find_plain(srcs)
        for f in FILES[:-1] + more + FILES[-1:]:
            p = f"{self.repo}/src/{f}.rs"
            if f in self.dropmods:
                self.problems.append(f"module {f} left out")
                self.lost_mods.append(f)
                continue
            if not os.path.exists(p):
                self.problems.append(f"missing {p}")
                continue
            src = srcs[f]
            self.src, (self.tk, self.comments) = src, rl.lex(src)
            self.ed = Edit(src)
            for a, b, doc in self.comments:
                if doc:
                    self.ed.rep(a, b, "")
            items = rl.parse_items(self.tk, 0, len(self.tk))
            if f == "lib":
                self.lib(items)
            else:
                l0 = self.line
                self.emit(f"pub mod {f} {{\n{HEAD}verus! {{\n{HEAD2}")
                self.items(items, f)
                self.emit("} // verus!\n}\n")
                self.mods.append((f, l0, self.line))
        return "".join(self.out)

    def find_plain(self, srcs):
        """trait methods that can keep their own name as inherent functions: no type has two of that name"""
        seen, self.traits, self.copies = {}, set(), set()
        def walk(tk, items):
            for it in items:
                if it.kind == "mod" and it.body:
                    walk(tk, rl.parse_items(tk, *it.body))
                elif it.kind == "impl" and it.trait != "Debug":
                    ty = re.sub(r"<.*", "", it.ty)
                    t0 = re.sub(r"<.*", "", it.trait or "").split("::")[-1]
                    self.traits.add(t0)
                    if t0 == "Copy":
                        self.copies.add(ty)
                    for x in rl.parse_items(tk, *it.body) if it.body else []:
                        if x.kind == "fn":
                            seen.setdefault(x.name, []).append((ty, t0))
        for src in srcs.values():
            try:
                tk, _ = rl.lex(src)
                walk(tk, rl.parse_items(tk, 0, len(tk)))
            except (rl.LexError, IndexError):
                pass
        self.plain = {m for m, l in seen.items() if len(l) == len({ty for ty, _ in l}) and m not in ("hash", "index", "index_mut", "default") and not {t for _, t in l} & REAL_TRAITS}

    def lib(self, items):
        for it in items:
            if it.kind == "mod" and it.body and it.name == "cache_string":
                self.emit(f"pub mod cache_string {{\n{HEAD}verus! {{\n{HEAD2}")
                self.items(rl.parse_items(self.tk, *it.body), "lib")
                self.emit("} // verus!\n}\n")
            elif it.kind == "mod" and it.name == "prelude":
                self.emit("pub mod prelude {\n pub use crate::arraystring::ArrayString;\n pub use crate::drain::Drain;\n pub use crate::error::{OutOfBounds, Utf16, Utf8};\n pub use crate::cache_string::CacheString;\n}\n")
        self.emit("pub use crate::arraystring::ArrayString;\npub use crate::drain::Drain;\npub use crate::error::Error;\npub use crate::cache_string::CacheString;\n")

    def text(self, i, j):
        """rendered text of tokens [i, j)"""
        return self.ed.render(self.tk[i].a, self.tk[j - 1].b) if j > i else ""

    def cfg_dropped(self, it, f=""):
        for a in it.attrs:
            if not a.replace(" ", "").startswith("#[cfg("):
                continue
            if f == "integration" and re.fullmatch(r"#\[cfg\(feature=\"(diesel|serde)-traits\"\)\]", a.replace(" ", "")):
                continue
            if re.search(r"cfg\(test\)|cfg\(feature=\"(logs|std|diesel-traits|serde-traits)\"\)|cfg\(all\(feature=\"no-panic\"", a.replace(" ", "")):
                return True
        return False

    def items(self, items, f):
        tk = self.tk
        for it in items:
            if self.cfg_dropped(it, f):
                self.count("items under cfg(test/logs/std/no-panic) dropped")
                continue
            if it.kind == "innerattr":
                continue
            if it.kind == "use":
                t = self.text(it.vis0, it.b)
                t = re.sub(r"\bpub\(crate\)", "pub", t)
                m = re.match(r"(?:pub\s+)?use\s+(?:::)?(serde|diesel)\b", t)
                if m:
                    t = self.external_use(t)
                if re.search(r"core::fmt", t):
                    self.count("use of core::fmt replaced by the specification's formatter stand-ins")
                    t = "use crate::spec::fmt::{self, Formatter};"
                self.emit(t + "\n")
            elif it.kind in ("struct", "enum"):
                derive = ""
                for a in it.attrs:
                    m = re.match(r"#\[derive\((.*)\)\]$", a)
                    if m:
                        keep = [x for x in m.group(1).split(",") if x in ("Copy", "Clone")]
                        if keep:
                            derive = f"#[derive({', '.join(keep)})]\n"
                if it.name in self.copies and "Clone" not in derive or "Copy" in derive and "Clone" not in derive:
                    derive = "#[derive(Copy, Clone)]\n"
                    self.count("derive(Copy, Clone) for a type with hand-written impls of these (the hand-written clone is checked as a function of its own)")
                t = self.text(it.vis0, it.b)
                t = re.sub(r"\bpub\(crate\)", "pub", t)
                self.emit(derive + t + "\n")
            elif it.kind == "trait":
                self.emit(re.sub(r"\bpub\(crate\)", "pub", self.text(it.vis0, it.b)) + "\n")
            elif it.kind in ("const", "type", "static"):
                t = re.sub(r"^const", "pub const", self.text(it.vis0, it.b))
                self.emit(t + "\n")
            elif it.kind == "mod" and it.body:
                self.emit("pub mod " + it.name + " {\n")
                if f == "integration":
                    self.emit("use super::*;\n" + HEAD2.replace("}", ", crate::spec::diesel::deserialize::axiom_column}"))
                self.items(rl.parse_items(tk, *it.body), f)
                self.emit("}\n")
            elif it.kind == "impl":
                self.impl(it, f)
            elif it.kind == "fn":
                self.fn(it, f, None, "")
            elif it.kind == "mod":
                pass
            else:
                self.dropped.append(f"{f}: {it.kind} {getattr(it, 'name', '')}")

    def external_use(self, t):
        """imports from serde and diesel -> imports of their stand-ins"""
        out = []
        def leaves(pre, s):
            s = s.strip()
            m = re.match(r"(.*?)\{(.*)\}$", s, re.S)
            if m:
                part, d = "", 0
                for ch in m.group(2) + ",":
                    d += (ch == "{") - (ch == "}")
                    if ch == "," and d == 0:
                        if part.strip():
                            leaves(pre + re.sub(r"\s", "", m.group(1)), part)
                        part = ""
                    else:
                        part += ch
                return
            p, _, al = s.partition(" as ")
            p = re.sub(r"\s|::self$", "", pre + p.strip() if p.strip() != "self" else pre.rstrip(":"))
            p = p.removeprefix("::")
            if p in KNOWN:
                if p in ("serde", "diesel") and not al:
                    return
                out.append(f"pub use crate::spec::{p}{' as ' + al.strip() if al else ''};")
        leaves("", re.sub(r"^(?:pub\s+)?use\s+|;\s*$", "", t))
        self.count("imports from serde and diesel replaced by their stand-ins with contracts")
        return "\n".join(out)

    def impl(self, it, f):
        tk = self.tk
        ty = re.sub(r"<.*", "", it.ty)
        m = re.fullmatch(r"ArrayString<(\w+)>", it.ty)
        if it.trait == "ValidCapacity":
            self.caps.append(it.ty)
            self.emit(self.text(it.kwi, it.b) + "\n")
            return
        body = rl.parse_items(tk, *it.body)
        fns = [x for x in body if x.kind == "fn"]
        if it.trait == "Debug":
            self.count("Debug impls dropped (no property speaks of debug output)")
            self.dropped.append(f"{f}: impl Debug for {it.ty}")
            return
        if it.trait is not None and not fns:
            self.count("marker impls (Copy, Eq, FusedIterator, std Error) dropped")
            self.dropped.append(f"{f}: impl {it.trait} for {it.ty}")
            return
        trait0 = re.sub(r"<.*", "", it.trait) if it.trait else None
        real = it.trait is None or trait0.split("::")[-1] in REAL_TRAITS or (trait0 == "From" and f == "error") or (it.ty == "CacheString" and trait0 in ("Deref", "DerefMut"))
        h0, fori, wherei, bi = it.hdr
        types = self.assoc.setdefault(ty, {})
        for x in body:
            if x.kind == "type":
                m = re.match(r"type\s+(\w+)\s*=\s*(.*);$", self.text(x.kwi, x.b), re.S)
                types[m.group(1)] = m.group(2)
        gen = self.text(*it.geni) if it.geni[0] is not None else ""
        if real:
            hdr = self.text(it.kwi, bi)
        else:
            self.count("trait impls checked as inherent functions (so that they can carry preconditions)")
            hdr = f"impl{gen} " + self.text(fori + 1, bi)
        self.emit(hdr + " {\n")
        key = ty if it.trait is None else f"{ty} as {it.trait}"
        self.inherited = trait0 in STANDIN
        if self.inherited:
            self.inject(it, ty, trait0, types, [x.name for x in fns])
        for x in body:
            if self.cfg_dropped(x):
                continue
            if x.kind == "fn":
                self.fn(x, f, key, "" if real or x.name in self.plain else mangle(it.trait) + "__", real and it.trait is not None, types, it)
            elif x.kind == "type" and real:
                self.emit(self.text(x.vis0, x.b) + "\n")
            elif x.kind == "const":
                self.emit(self.text(x.vis0, x.b) + "\n")
        self.emit("}\n")

    def inject(self, it, ty, trait0, types, have):
        """what the implementation of a trait with a contract has to guarantee, and the trait's default methods"""
        tk = self.tk
        h0, fori, wherei, bi = it.hdr
        c = self.contracts.get(f"inject:{ty} as {trait0}") or self.contracts.get(f"inject:* as {trait0}")
        m = re.search(r"ArrayString\s*<(.*)>", types.get("Value", "") or it.ty)
        sub = {"$N": m.group(1).strip() if m else "63", "$L": "'_"}
        m = re.search(r"<(.*)>\s*$", self.text(h0, fori), re.S)
        for n, a in enumerate(x.strip() for x in (m.group(1).split(",") if m else [])):
            sub[f"${n + 1}"] = a
            if a.startswith("'"):
                sub["$L"] = a
        def put(s):
            for a, b in sub.items():
                s = s.replace(a, b)
            return s
        if c:
            self.used.add(c.key)
            spec = put(c.spec)
            if trait0 == "Visitor" and "CacheString" in types.get("Value", ""):
                spec = spec.replace("r->0.", "(r->0).0.")
            self.emit(spec)
        if trait0 == "Visitor":
            for k, d in self.contracts.items():
                if k.startswith("default:Visitor::"):
                    self.used.add(k)
                    n = k.split("::")[-1]
                    if n not in have:
                        key = f"{ty} as Visitor::{n} (serde's default)"
                        rec = {"key": key, "file": "serde", "contract": True, "skipped": 0, "loops": 0, "src_line": 0, "idents": re.findall(r"\w+", d.spec), "source": d.spec, "line0": self.line}
                        self.fns.append(rec)
                        self.keys.add(key)
                        self.emit(put(d.spec))
                        rec["line1"] = self.line
                        self.count("default methods of serde's Visitor written out where an impl does not override them")

    def fn(self, it, f, owner, prefix, in_trait=False, types={}, impl=None):
        """emits one function; `skip` gives, for a function that could not be processed, what is kept of it:
        1 its signature and contract, 2 its signature, 3 nothing the verifier looks at"""
        tk, ed = self.tk, self.ed
        key = f"{owner}::{it.name}" if owner else it.name
        if key in self.keys:
            self.dups[key] = self.dups.get(key, 1) + 1
            key += f" #{self.dups[key]}"
        self.keys.add(key)
        if key in self.inlined:
            if not owner and it.body:                # still named by imports
                self.emit("#[verifier::external]\n" + self.src[tk[it.vis0].a:tk[it.body[0] - 1].b] + " unimplemented!() }\n")
            return
        c = self.contracts.get(key)
        if c:
            self.used.add(key)
        if self.only and not c and not (in_trait and self.inherited):
            return
        lev = self.skip.get(key, 0)
        rec = {"key": key, "file": f"src/{f}.rs", "contract": bool(c) or (in_trait and self.inherited), "skipped": lev, "loops": 0}
        self.rec, self.f = rec, f
        self.owner_ty = re.sub(r"[<: ].*", "", owner or "")
        self.fns.append(rec)
        rec["src_line"] = self.src.count("\n", 0, tk[it.kwi].a) + 1
        rec["idents"] = sorted({t.s for t in tk[it.body[0]:it.body[1]] if t.k == "ident"}) if it.body else []
        rec["calls"] = sorted(self.calls(*it.body)) if it.body else []
        rec["source"] = self.src[tk[it.kwi].a:tk[it.b - 1].b] if it.b <= len(tk) else ""
        text = None
        if lev == 0:
            n = dict(self.counts)
            try:
                sig, body = self.render_fn(it, key, c, prefix, in_trait, types, impl)
                text = sig + body + "\n"
            except rl.LexError as e:
                self.counts = n
                self.problems.append(f"{key}: {e}")
                rec["problem"] = str(e)
                lev = rec["skipped"] = 1
        if text is None:
            for l in range(lev, 4):
                try:
                    sig, _ = self.render_fn(it, key, c if l == 1 else None, prefix, in_trait, types, impl, sig_only=True)
                    text = ("#[verifier::external_body]\n" if l < 3 else "#[verifier::external]\n") + sig + "{ unimplemented!() }\n"
                    rec["skipped"] = l
                    break
                except rl.LexError:
                    pass
        rec["line0"] = self.line
        if text:
            self.emit(text)
        rec["line1"] = self.line

    def calls(self, i0, i1):
        """names of what is called, and index expressions left as they are"""
        tk = self.tk
        out = {t.s for k, t in enumerate(tk[i0:i1], i0) if t.k == "ident" and k + 1 < i1 and (tk[k + 1].s == "(" or tk[k + 1].s == "!" or tk[k + 1].s == ":" and tk[k + 2].s == ":" and tk[k + 3].s == "<")}
        for k in range(i0, i1):
            if tk[k].s == "." and tk[k + 1].s == self.size and (tk[k + 2].s == "=" and tk[k + 3].s != "=" or tk[k + 2].s in "+-" and tk[k + 3].s == "="):
                out.add("=size")
            if tk[k].s == "[" and (tk[k - 1].s in (")", "]") or tk[k - 1].k == "ident" and tk[k - 1].s not in ("mut", "in", "return", "else")):
                out.add("[]")
        return out

    def more_of_std(self, path):
        """contracts of functions of the standard library that are named somewhere in the source"""
        names = set(re.findall(r"\w+", "".join(open(f).read() for f in glob.glob(f"{self.repo}/src/**/*.rs", recursive=True))))
        items = re.split(r"(?m)^//@ ", open(path).read())
        self.used_more = [i for i in items[1:] if i.split("\n", 1)[0].strip() in names]
        return "verus! {\n" + "\n".join(i.split("\n", 1)[1] for i in self.used_more) + "}\n"

    def find_fields(self):
        """what the private fields of ArrayString are called: the array and the length"""
        self.size, self.array = "size", "array"
        try:
            src = open(f"{self.repo}/src/arraystring.rs").read()
            m = re.search(r"pub struct ArrayString<\s*const (\w+): usize\s*>\s*\{(.*?)\n\}", src, re.S)
            a = re.findall(r"(\w+)\s*:\s*\[\s*u8\s*;\s*" + m.group(1) + r"\s*\]", m.group(2))
            b = re.findall(r"(\w+)\s*:\s*u8\b", m.group(2))
            if len(a) == len(b) == 1:
                self.size, self.array = b[0], a[0]
        except (OSError, AttributeError):
            pass

    def fields(self, text):
        if (self.size, self.array) != ("size", "array"):
            text = re.sub(r"\.(size|array)\b(?!\()", lambda m: "." + getattr(self, m.group(1)), text)
        return text

    def param_names(self, it):
        """names of the parameters (other than self), in order"""
        tk, out, (i, j) = self.tk, [], it.params
        k = st = i
        n = 0
        while k <= j:
            if k == j or tk[k].s == ",":
                seg = [t.s for t in tk[st:k]]
                if "self" in seg[:5] and not (":" in seg and seg.index(":") < seg.index("self")):
                    pass
                elif seg:
                    nm = seg[1] if seg[0] == "mut" else seg[0]
                    if nm == "_":
                        n += 1
                        nm = f"_arg{n}"
                    out.append(nm)
                st = k + 1
                k += 1
            elif tk[k].s in rl.OPEN:
                k = tk[k].m + 1
            elif tk[k].s == "<":
                k = rl.skip_generics(tk, k)
            else:
                k += 1
        return out

    def render_fn(self, it, key, c, prefix, in_trait, types, impl, sig_only=False):
        tk, ed = self.tk, Edit(self.src)
        ed.e = list(self.ed.e)
        src = self.src
        R = lambda i, j: ed.render(tk[i].a, tk[j - 1].b) if j > i else ""
        i0, i1 = it.body
        # ---- body edits
        loops = [] if sig_only else rl.loops(tk, i0, i1)
        if c and not sig_only and set(c.loops) != set(range(len(loops))) and (c.loops or loops):
            if loops:
                raise rl.LexError(f"anchor lost: {len(loops)} loops, contract has {sorted(c.loops)}")
            if not c.optional:
                self.rec["weak"] = "the loops its annotations speak of are gone"
        self.rec["loops"] = len(loops) or self.rec["loops"]
        if not sig_only:
            shape = [" ".join(x.s for x in tk[q:tk[b].m]) for _, q, _, b in loops]
            self.seen_loops[key] = shape
            if loops and shape != self.known_loops.get(key):
                self.rec["weak"] = "its loops are written another way: the annotations may not fit them"
        if c is None and loops:
            raise rl.LexError("loop without contract")
        # names of local variables that the annotations mention are read off the source
        names = {}
        for v, rx in (c.vars if c and not sig_only and not (c.optional and not loops) else {}).items():
            m = re.search(rx, src[tk[i0].a:tk[i1 - 1].b] if i1 > i0 else "")
            if not m:
                self.rec["weak"] = f"no local variable for {v}"
            names[v] = m and next(g for g in m.groups() if g)
        pn = self.param_names(it)
        self.seen_params[key] = pn
        ren = {}
        if c:
            want = c.params or self.params.get(key) or pn
            if len(want) != len(pn):
                raise rl.LexError("anchor lost: number of parameters")
            ren = {a: b for a, b in zip(want, pn) if a != b}
        cg = re.search(r"const\s+(\w+)\s*:\s*usize", self.text(*impl.geni)) if impl and impl.geni[0] is not None else None
        def N(text):
            text = self.fields(text)
            if cg and cg.group(1) != "N":
                text = re.sub(r"\bN\b", cg.group(1), text)
            if ren:
                text = re.sub(r"(?<![.\w])(" + "|".join(map(re.escape, ren)) + r")\b", lambda m: ren[m.group(1)], text)
            for v, x in names.items():
                if x is None and v in text:
                    return ""                   # a hint about something that is not there any more
                text = text.replace(v, x or v)
            return text
        for n, (kind, kwi, expr, bo) in enumerate(loops):
            name, inv = c.loops[n]
            inv = N(inv)
            if n in c.afters:
                ed.rep(tk[tk[bo].m].b, tk[tk[bo].m].b, "\n" + N(c.afters[n]))
            if n in c.bodies:
                ed.rep(tk[bo].b, tk[bo].b, "\n" + N(c.bodies[n]))
            if kind == "for":
                ed.rep(tk[expr].a, tk[expr].a, (name + ": " if name else "") + "crate::spec::iterate(")
                ed.rep(tk[bo - 1].b, tk[bo - 1].b, ")")
                self.count("for loops over x made loops over iterate(x), the contract of IntoIterator::into_iter")
            ed.rep(tk[bo].a, tk[bo].a, "\n" + inv)
        k = i1 if sig_only else i0
        while k < i1:
            t = tk[k]
            if t.k == "ident" and k + 2 < i1 and tk[k + 1].s == "!" and tk[k + 1].a == t.b and tk[k + 2].s in rl.OPEN:
                e = tk[k + 2].m
                end = e + 1
                if t.s in ("trace", "debug", "info", "warn", "error"):
                    if end < i1 and tk[end].s == ";":
                        end += 1
                    if sig_only or key in self.nolog or not self.log_macro(ed, t, k + 2, e, end, it):
                        ed.rep(t.a, tk[end - 1].b, "")
                        self.count("log macro calls without arguments dropped")
                    else:
                        k += 3
                        continue
                    k = end
                    continue
                if t.s == "debug_assert" or t.s == "assert":
                    ed.rep(t.a, tk[k + 1].b, "crate::spec::rt_assert")
                    self.count("debug_assert!(e) turned into the proof obligation e")
                elif t.s in ("debug_assert_eq", "assert_eq", "debug_assert_ne", "assert_ne"):
                    raise rl.LexError(f"macro {t.s}")
                elif t.s == "write":
                    self.write_macro(ed, k, e)
                    k = e + 1
                    continue
                elif t.s not in ("matches",):
                    raise rl.LexError(f"macro {t.s}")
            k += 1
        if c and c.exit and not sig_only:
            k, p = i0, tk[i0 - 1].b
            while k < i1:
                if tk[k].s == ";":
                    p = tk[k].b
                k = tk[k].m + 1 if tk[k].s in rl.OPEN else k + 1
            ed.rep(p, p, "\n" + N(c.exit))
        mutself = tk[it.params[0]].s == "mut" and tk[it.params[0] + 1].s == "self"
        if mutself:
            ed.rep(tk[it.params[0]].a, tk[it.params[0] + 1].b, "self")
            for k in range(i0, i1):
                if tk[k].s == "self" and tk[k].k == "ident":
                    ed.rep(tk[k].a, tk[k].b, "self_")
            self.count("a `mut self` parameter written as `let mut self_ = self`")
        self.whole = []
        if not sig_only:
            self.expand_closures(ed, it, key, c, i0, i1)
            self.pointers(ed, i0, i1)
            self.shims(ed, i0, i1)
            ed.e = [e for e in ed.e if not any(a <= e[0] and e[1] <= b and (a, b) != e[:2] for a, b in self.whole)]
        body = ed.render(tk[i0 - 1].b, tk[i1].a)
        ret = None
        if it.ret:
            ret = R(*it.ret).strip()
        params = R(*it.params)
        for t, v in types.items():
            if not in_trait:
                ret = ret and re.sub(rf"\bSelf::{t}\b", v, ret)
                params = re.sub(rf"\bSelf::{t}\b", v, params)
                body = re.sub(rf"\bSelf::{t}\b", v, body)
        # `_` parameters get a name
        n = [0]
        def nm(m):
            n[0] += 1
            return f"{m.group(1)}_arg{n[0]}:"
        params = re.sub(r"(^|,\s*)_\s*:", nm, params)
        name = prefix + it.name
        if c:
            for a, b in c.rewrites:
                b = re.sub(r"\b[A-Z]\w*?__(\w+)\(", lambda m: m.group(1) + "(" if m.group(1) in self.plain else m.group(0), b)
                if a in body and a != b:
                    body = body.replace(a, b)
                    self.count("trait method calls resolved to the function they name")
        vis = "" if in_trait else "pub "
        gen = R(*it.fgen) if it.fgen else ""
        s = f"{c.attrs if c else ''}{vis}fn {name}{gen}({params})"
        if ret is not None:
            s += f" -> ({c.ret or 'ret'}: {ret})" if c else f" -> {ret}"
        if it.where:
            s += " " + R(*it.where)
        s += "\n"
        if c:
            spec = N(one_clause_per_line(c.spec))
            if key in self.probe and not sig_only and "ensures" in spec:
                spec = spec.replace("ensures", f"ensures crate::spec::never({len(self.fns)}), ", 1)
                self.probed.add(key)
            s += spec
        elif in_trait and self.inherited and key in self.probe and not sig_only:
            s += f" ensures crate::spec::never({len(self.fns)}),\n"
            self.probed.add(key)
        entry = ("\n" + N(c.entry)) if c and c.entry.strip() else ""
        if mutself:
            entry += "\n let mut self_ = self;\n"
        return s, "{" + entry + body + "}"

    def write_macro(self, ed, k, e):
        """write!(f, "{}", x) / write!(f, "literal") -> calls with a contract"""
        tk = self.tk
        args, i, st = [], k + 3, k + 3
        while i < e:
            if tk[i].s in rl.OPEN:
                i = tk[i].m
            elif tk[i].s == ",":
                args.append((st, i))
                st = i + 1
            i += 1
        if st < e:
            args.append((st, e))
        T = lambda r: self.src[tk[r[0]].a:tk[r[1] - 1].b]
        if len(args) == 2 and T(args[1]).startswith('"') and "{" not in T(args[1]):
            ed.rep(tk[k].a, tk[e].b, f"crate::spec::fmt::write_lit({T(args[0])}, {T(args[1])})")
        elif len(args) == 3 and T(args[1]) == '"{}"':
            ed.rep(tk[k].a, tk[e].b, f"crate::spec::fmt::write_display({T(args[0])}, {T(args[2])})")
        else:
            raise rl.LexError("write! with a format this check does not know")
        self.count("write! calls turned into calls with a contract")

    def stmt_start(self, k, lo):
        """first token of the expression chain that ends before the '.' at k"""
        tk = self.tk
        i = k - 1
        while i >= lo:
            t = tk[i]
            if t.s in rl.CLOSE:
                i = t.m - 1
                # a call or index: the callee precedes
                continue
            if t.s == "?" or t.s == "." or (t.s == ":" and (tk[i - 1].s == ":" or tk[i + 1].s == ":")):
                i -= 1
                continue
            if t.k in ("ident", "lit"):
                if t.s in ("return", "in", "match", "if", "else", "while", "let", "mut", "move"):
                    return i + 1
                # part of the chain only if what follows continues it
                nxt = tk[i + 1].s
                prev = tk[i - 1].s if i - 1 >= lo else ";"
                if nxt in (".", "(", "[", "?", ":", "!"):
                    if prev in (".",) or (prev == ":" and tk[i - 2].s == ":"):
                        i -= 1
                        continue
                    return i
                return i + 1
            return i + 1
        return lo

    def log_macro(self, ed, t, o, e, end, it):
        """`trace!("..", a, b)` evaluates its arguments if a logger asks for them, and nothing is known of whether one does"""
        tk = self.tk
        if tk[o + 1].k != "lit" or o + 2 > e:
            return False
        parts, a, k = [], o + 2, o + 2
        if k < e and tk[k].s != ",":
            return False
        a = k = k + 1
        while k <= e:
            if k >= e or tk[k].s == ",":
                if k > a and a < e:
                    parts.append((a, k))
                a = k + 1
            elif tk[k].s in rl.OPEN:
                k = tk[k].m
            k += 1
        names = set(re.findall(r"\{\s*([A-Za-z_]\w*)\s*[:}]", tk[o + 1].s.replace("{{", "")))
        shown = "let _ = self.as_str(); " if "self" in names and self.owner_ty in ("ArrayString", "Drain") else ""
        if not parts and not shown:
            return False
        ed.rep(t.a, tk[parts[0][0]].a if parts else tk[e].a, "if crate::spec::logs_on() { " + shown + ("let _ = &(" if parts else ""))
        for (a, b), nxt in zip(parts, parts[1:] + [None]):
            if b - a > 2 and tk[a].k == "ident" and tk[a + 1].s == "=" and tk[a + 2].s != "=":
                ed.rep(tk[a].a, tk[a + 1].b, "")
            if nxt:
                ed.rep(tk[b].a, tk[nxt[0]].a, "); let _ = &(")
        last = parts[-1][1] if parts else e
        ed.rep(tk[last].a, tk[end - 1].b, "); }" if parts else "}")
        self.rec["logs"] = self.rec.get("logs", 0) + 1
        self.count("log macro calls turned into the evaluation of their arguments, in case a logger is there")
        return True

    def expand_closures(self, ed, it, key, c, i0, i1):
        tk, src = self.tk, self.src
        k = i1 - 1
        todo, closed = [], []
        for k in range(i0, i1):
            if tk[k].s == "." and k + 2 < i1 and tk[k + 1].s in ("map", "map_err", "filter", "and_then") and tk[k + 2].s == "(":
                todo.append(k)
        for k in todo:
            meth, po = tk[k + 1].s, k + 2
            pe = tk[po].m
            if meth == "filter":
                # Iterator::filter(|c| f(*c)) with a caller's predicate f
                t = src[tk[po + 1].a:tk[pe - 1].b]
                m = re.fullmatch(r"\|\s*(\w+)\s*\|\s*(\w+)\s*\(\s*\*\s*\1\s*\)", t) or re.fullmatch(r"\|\s*&\s*(\w+)\s*\|\s*(\w+)\s*\(\s*\1\s*\)", t)
                if not m:
                    raise rl.LexError("filter with a closure this check does not know")
                st = self.stmt_start(k, i0)
                closed.append((k, pe))
                ed.rep(tk[st].a, tk[st].a, "crate::spec::filter_chars(")
                ed.rep(tk[k].a, tk[pe].b, f", &mut {m.group(2)})")
                self.count("Iterator::filter(|c| f(*c)) turned into a call with a contract")
                continue
            if meth == "map" and re.fullmatch(r"\|\s*(\w+)\s*\|\s*\1\s*\.\s*unwrap_or(_else\(\s*\|_\|\s*|\(\s*)(core::|std::)?(char::)*(REPLACEMENT_CHARACTER|'\\u\{FFFD\}')\s*\)", src[tk[po + 1].a:tk[pe - 1].b], re.I):
                st = self.stmt_start(k, i0)
                if any(x.s == "decode_utf16" for x in tk[st:k]):
                    closed.append((k, pe))
                    ed.rep(tk[st].a, tk[st].a, "crate::spec::map_lossy(")
                    ed.rep(tk[k].a, tk[pe].b, ")")
                    self.whole.append((tk[k].a, tk[pe].b))
                    self.count("Iterator::map(|c| c.unwrap_or(REPLACEMENT_CHARACTER)) turned into a call with a contract")
                    continue
            st = self.stmt_start(k, i0)
            retty = self.src[tk[it.ret[0]].a:tk[it.ret[1] - 1].b] if it.ret else ""
            kind = (c.opts.get("map") if c else None) or ("Option" if retty.startswith("Option") else "Result")
            before = tk[tk[k - 1].m - 1].s if tk[k - 1].s == ")" else ""
            after = tk[pe + 2].s if tk[pe + 1].s == "." else ""
            if before in OPTIONAL or before.startswith("checked_") or after in ("ok_or", "ok_or_else", "is_some", "is_none"):
                kind = "Option"
            if meth == "map_err":
                kind = "Result"
            if tk[po + 1].s == "|":
                q = po + 2
                while tk[q].s != "|":
                    q = tk[q].m + 1 if tk[q].s in rl.OPEN else q + 1
                pat = src[tk[po + 2].a:tk[q - 1].b]
                b0, b1 = tk[q].b, tk[pe].a
                arg = None
            else:
                pat, arg = "v__", src[tk[po + 1].a:tk[pe - 1].b]
            pre = {("map", "Option"): f"Some({pat}) => Some(", ("map", "Result"): f"Ok({pat}) => Ok(",
                   ("and_then", "Option"): f"Some({pat}) => (", ("and_then", "Result"): f"Ok({pat}) => (",
                   ("map_err", "Result"): f"Ok(v__) => Ok(v__), Err({pat}) => Err("}[(meth, kind)]
            post = {("map", "Option"): "), None => None }", ("map", "Result"): "), Err(e__) => Err(e__) }",
                    ("and_then", "Option"): "), None => None }", ("and_then", "Result"): "), Err(e__) => Err(e__) }",
                    ("map_err", "Result"): ") }"}[(meth, kind)]
            ed.rep(tk[st].a, tk[st].a, "(match ")
            if arg is None:
                ed.rep(tk[k].a, b0, " { " + pre)
            else:
                ed.rep(tk[k].a, tk[pe].a, " { " + pre + arg + "(v__)")
            ed.rep(tk[pe].a, tk[pe].b, post + ")")
            self.count("Option/Result::map, and_then and map_err expanded to the match they are defined as")
        # calls of a caller's predicate
        sig = src[tk[it.vis0].a:tk[i0 - 1].b]
        for g in set(re.findall(r"\b(\w+)\s*:\s*FnMut\s*\(\s*char\s*\)", sig)) | {"impl"}:
            for f in re.findall(r"\b(\w+)\s*:\s*" + (r"impl\s+FnMut\s*\(\s*char\s*\)" if g == "impl" else g + r"\b"), sig):
                for k in range(i0, i1):
                    if tk[k].s == f and tk[k + 1].s == "(" and tk[k - 1].s not in (".", ":", "fn") and not any(a <= k <= b for a, b in closed):
                        ed.rep(tk[k].a, tk[k + 1].b, f"crate::spec::ask(&mut {f}, ")
                        self.count("a call f(c) of a caller's predicate turned into a call with a contract")

    def top(self, i, j):
        while i < j:
            yield i
            i = self.tk[i].m + 1 if self.tk[i].s in rl.OPEN else i + 1

    def is_range(self, k):
        """whether the brackets at k hold a range"""
        tk, i = self.tk, k + 1
        while i < tk[k].m:
            if tk[i].s == "." and tk[i + 1].s == "." and tk[i + 1].a == tk[i].b or tk[i].s in ("..", "..="):
                return True
            i = tk[i].m + 1 if tk[i].s in rl.OPEN else i + 1
        return False

    def shims(self, ed, i0, i1):
        """calls of standard library functions that Verus cannot name directly"""
        tk = self.tk
        for k in range(i0, i1):
            t = tk[k]
            if t.s == "REPLACEMENT_CHARACTER":
                a = k
                while tk[a - 1].s == ":" and tk[a - 3].k == "ident":
                    a -= 3
                ed.rep(tk[a].a, t.b, "crate::spec::REPLACEMENT_CHARACTER")
                self.count("core::char::REPLACEMENT_CHARACTER written as the constant it is")
                continue
            if t.s == "[" and k > i0 and (tk[k - 1].k == "ident" and tk[k - 1].s not in ("mut", "in", "return", "else") or tk[k - 1].s in (")", "]")) and self.is_range(k):
                st = self.stmt_start(k, i0)
                amp = tk[st - 1].s == "&" and tk[st - 2].s not in ("&", ")", "]") and tk[st - 2].k not in ("ident", "lit")
                chain = self.src[tk[st].a:t.a]
                if tk[st - 1].s == "mut" and tk[st - 2].s == "&" and tk[st - 3].s not in ("&", ")", "]") and tk[st - 3].k not in ("ident", "lit") and "as_mut_str" in chain and tk[t.m + 1].s not in (".", "["):
                    ed.rep(tk[st - 2].a, tk[st].a, "crate::spec::str_index_mut(")
                    ed.rep(t.a, t.b, ", ")
                    ed.rep(tk[t.m].a, tk[t.m].b, ")")
                    self.count("index expressions over a range given a contract")
                    continue
                if amp and tk[t.m + 1].s != "." and tk[t.m + 1].s != "[":
                    ed.rep(tk[st - 1].a, tk[st - 1].b, "")
                elif not ("as_str" in chain and tk[t.m + 1].s == "."):
                    continue
                ed.rep(t.a, t.b, ".ix_(")
                ed.rep(tk[t.m].a, tk[t.m].b, ")")
                self.count("index expressions over a range given a contract")
                continue
            if t.k != "ident" or k + 1 >= i1 or tk[k + 1].s != "(":
                continue
            if tk[k - 1].s == ":" and tk[k - 3].s in self.traits and t.s != "hash" and (t.s in self.plain or t.s in ("eq", "ne")) and tk[k + 1].m > k + 2:
                # Trait::method(x, args) is x.method(args)
                a = k - 3
                while tk[a - 1].s == ":" and tk[a - 3].k == "ident":
                    a -= 3
                e = next((i for i in self.top(k + 2, tk[k + 1].m) if tk[i].s == ","), tk[k + 1].m)
                x0 = k + 2 + (tk[k + 2].s == "&") + (tk[k + 2].s == "&" and tk[k + 3].s == "mut")
                simple = self.stmt_start(e, x0) == x0
                if not simple:
                    x0 = k + 2
                ed.rep(tk[a].a, tk[x0].a, "" if simple else "(")
                ed.rep(tk[e - 1].b, tk[e].b if tk[e].s == "," else tk[e].a, ("" if simple else ")") + f".{t.s}(")
                self.count("Trait::method(x, ..) written x.method(..)")
                continue
            if tk[k - 1].s == ".":
                if t.s == "hash":
                    ed.rep(t.a, t.b, "vhash")
                elif t.s in ("cloned", "copied"):
                    ed.rep(t.a, t.b, "cloned_")
                elif t.s == "size_hint" and tk[k + 1].m == k + 2:
                    ed.rep(t.a, t.b, "size_hint_")
                elif t.s in ("start_bound", "end_bound"):
                    ed.rep(t.a, t.b, t.s + "_")
                elif t.s in ("index", "index_mut"):
                    st = self.stmt_start(k - 1, i0)
                    amp = ("&mut " if t.s == "index_mut" else "&") if tk[k - 2].s != ")" else ""
                    ed.rep(tk[st].a, tk[st].a, f"crate::spec::str_{t.s}({amp}")
                    ed.rep(tk[k - 1].a, tk[k + 1].b, ", ")
                elif t.s == "into_iter":
                    st = self.stmt_start(k - 1, i0)
                    ed.rep(tk[st].a, tk[st].a, "crate::spec::iterate(")
                    ed.rep(tk[k - 1].a, tk[k + 2].b, ")")
                elif t.s == "char_indices":
                    st = self.stmt_start(k - 1, i0)
                    ed.rep(tk[st].a, tk[st].a, "crate::spec::char_indices(")
                    ed.rep(tk[k - 1].a, tk[k + 2].b, ")")
                else:
                    continue
            elif t.s == "eq" and tk[k - 1].s == ":" and tk[k - 3].s == "ptr":
                a = k - 3
                while tk[a - 1].s == ":" and tk[a - 3].k == "ident":
                    a -= 3
                ed.rep(tk[a].a, t.b, "crate::spec::ptr_eq")
            elif t.s == "decode_utf16":
                a = k
                while tk[a - 1].s == ":" and tk[a - 3].k == "ident":
                    a -= 3
                ed.rep(tk[a].a, t.b, "crate::spec::decode_utf16")
            elif t.s == "hash" and tk[k - 1].s == ":" and tk[k - 3].s == "Hash":
                a = k
                while tk[a - 1].s == ":" and tk[a - 3].k == "ident":
                    a -= 3
                e = next((i for i in self.top(k + 2, tk[k + 1].m) if tk[i].s == ","), None)
                if e is None:
                    continue
                ed.rep(tk[a].a, t.b, "")
                ed.rep(tk[e].a, tk[e].b, ").vhash(")
            else:
                continue
            self.count("standard library calls given a contract under another name (" + t.s + ")")

    def pointers(self, ed, i0, i1):
        tk = self.tk
        for k in range(i0, i1):
            t = tk[k]
            if self.f == "integration":
                if t.s == "is_null" and tk[k - 1].s == "." and tk[k - 2].k == "ident" and tk[k - 3].s != ".":
                    ed.rep(tk[k - 2].a, tk[k + 2].b, f"crate::spec::diesel::is_null({tk[k-2].s})")
                    self.count("pointers returned by diesel given a contract")
                elif t.s == "&" and tk[k + 1].s == "*" and tk[k + 2].k == "ident" and tk[k - 1].s in ("{", "(", "=", ";") and any(x.s == "unsafe" for x in tk[i0:k]):
                    ed.rep(t.a, tk[k + 2].b, f"crate::spec::diesel::deref_raw({tk[k+2].s})")
                    self.count("pointers returned by diesel given a contract")
            # self.array.as_mut_ptr()
            if t.s == "as_mut_ptr" and tk[k - 1].s == "." and tk[k - 2].s == self.array and tk[k - 3].s == "." and tk[k - 4].s == "self":
                ed.rep(tk[k - 4].a, tk[k + 2].b, f"crate::spec::ptr::buffer(&self.{self.array})")
                self.count("raw pointers into the buffer modelled as (buffer, offset)")
            elif t.s in ("as_ptr", "as_mut_ptr") and tk[k - 1].s == ".":
                if t.s == "as_ptr" and tk[k - 2].k == "ident" and tk[k - 3].s != ".":
                    ed.rep(tk[k - 2].a, tk[k + 2].b, f"crate::spec::ptr::source({tk[k-2].s})")
                    self.count("raw pointers into the argument modelled as (slice, offset)")
                elif t.s == "as_ptr" and tk[k + 3].s == "." and tk[k + 4].s == "align_offset" or tk[k + 3].s == "as" and tk[k + 4].s == "usize":
                    st = self.stmt_start(k - 1, i0)
                    ed.rep(tk[st].a, tk[st].a, "crate::spec::some_address(&")
                    ed.rep(tk[k - 1].a, tk[tk[k + 5].m if tk[k + 3].s == "." else k + 4].b, ")")
                    self.count("addresses taken for arbitrary numbers")
                else:
                    raise rl.LexError("raw pointer this check does not know")
            elif t.s in ("copy", "copy_nonoverlapping") and tk[k - 1].s == ":" and tk[k - 3].s == "ptr" and tk[k + 1].s == "(":
                a = k - 3
                while tk[a - 1].s == ":" and tk[a - 3].k == "ident":
                    a -= 3
                ed.rep(tk[a].a, t.b, f"crate::spec::ptr::{t.s}")
                e = tk[k + 1].m
                comma = "" if tk[e - 1].s == "," else ","
                ed.rep(tk[e].a, tk[e].a, comma + f" &mut self.{self.array}")
                self.count("ptr::copy/copy_nonoverlapping calls given the buffer they write and bounds obligations")

HEAD = """use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::range::*;
use vstd::slice::SliceIndexSpec;
use crate::spec::*;
"""
# methods whose value is an Option
OPTIONAL = ("get", "next", "next_back", "last", "nth", "first", "find", "find_map", "position", "ok", "err", "peek", "strip_prefix", "strip_suffix", "split_first", "to_digit", "then", "then_some", "pop")
HEAD2 = "broadcast use {crate::spec::group_arraystring, vstd::utf8::is_char_boundary_start_end_of_seq};\n"
TOP = """#![feature(sized_hierarchy, const_destruct)]
#![allow(unused, non_snake_case, dead_code)]
use vstd::prelude::*;
"""

def build(repo, cdir, skip={}, only=False, probe=frozenset(), dropmods=frozenset(), config=None, nolog=frozenset(), without=()):
    """`probe`: functions that get an impossible postcondition (the vacuity probe)"""
    cs = {}
    for n in sorted(os.listdir(cdir)):
        if n.endswith(".contract"):
            for k, v in load_contracts(f"{cdir}/{n}").items():
                assert k not in cs, k
                cs[k] = v
    for k in without:
        cs.pop(k, None)
    apart(cs, "".join(open(f"{cdir}/{n}").read() for n in ("prelude.rs", "integration.rs")))
    ex = Extractor(repo, cs)
    ex.nolog = nolog
    ex.probe, ex.dropmods, ex.config = probe, dropmods, config or configs.ALL[0]
    if os.path.exists(f"{cdir}/params.json"):
        ex.params = json.load(open(f"{cdir}/params.json"))
        ex.known_loops = json.load(open(f"{cdir}/loops.json"))
    ex.emit(TOP)
    ex.find_fields()
    ex.emit("pub mod spec {\n" + ex.fields(open(f"{cdir}/prelude.rs").read() + open(f"{cdir}/integration.rs").read() + ex.more_of_std(f"{cdir}/std_more.rs")) + "}\n")
    text = ex.run(skip, only)
    text += "fn main() {}\n"
    gone = set(cs) - ex.used - set(skip)
    ex.missing = sorted(k for k in gone if not k.startswith(("default:", "inject:*")) and not cs[k].may and not (k.startswith("inject:") and "integration" in ex.lost_mods))
    return text, ex

if __name__ == "__main__":
    t, ex = build("/repo", "/verif/contracts", {x: 1 for x in sys.argv[2:] if x != "-o"}, "-o" in sys.argv)
    open(sys.argv[1], "w").write(t)
    print(json.dumps(ex.counts, indent=1))
    print("problems", ex.problems)
    print("no contract:", [f["key"] for f in ex.fns if not f["contract"]])
    print("missing:", ex.missing)
    print("dropped:", ex.dropped)
    if os.environ.get("SNAPSHOT"):
        json.dump(dict(sorted(ex.seen_params.items())), open("/verif/contracts/params.json", "w"), indent=0)
        json.dump({k: v for k, v in sorted(ex.seen_loops.items()) if v}, open("/verif/contracts/loops.json", "w"), indent=0)
        json.dump({f["key"]: f["calls"] for f in ex.fns if f.get("calls")}, open("/verif/contracts/calls.json", "w"))
