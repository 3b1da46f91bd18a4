"""Text written as XML: what the writer emits for each character, and where data is written without being escaped."""
from . import facts
from .interp import *
from .tokenout import peel, OUT

TEXT = ("text",)
ACC = ("acc",)
HERE, END = ("it", "here"), ("it", "end")
CH = ("h", "char")
ENT = {"<": ("&lt;", "&#60;", "&#x3C;", "&#x3c;"), ">": (">", "&gt;", "&#62;", "&#x3E;", "&#x3e;"), "&": ("&amp;", "&#38;", "&#x26;"), '"': ('"', "&quot;", "&#34;", "&#x22;"), "'": ("'", "&apos;", "&#39;", "&#x27;")}
ENT[">"] = ("&gt;", "&#62;", "&#x3E;", "&#x3e;")
MUST = "<>&"
RAW = ("xmlTextWriterWriteRawLen", "xmlTextWriterWriteRaw", "xmlOutputBufferWrite", "xmlOutputBufferWriteString")
ESCAPED = ("xmlTextWriterWriteString", "xmlTextWriterWriteFormatString")
ENCODE = ("xmlEncodeSpecialChars", "xmlEncodeEntitiesReentrant", "xmlEscapeEntities")


def allowed(c):
    ch = chr(c & 255)
    return ENT.get(ch, (ch,))


class Sink(Hooks):
    """the writer's function for text, for one character c anywhere in the text"""
    def __init__(self, c): self.c, self.bad, self.n = c, {}, 0

    def say(self, fr, kind, line, text): self.bad.setdefault((kind, fr.fi.f["qn"].split("(")[0]), (fr.fi.f, line, text))

    def piece(self, I, st, fr, line, v):
        """v is appended to the text that is built"""
        it = st.ts.get(("it",), ())
        if st.ts.get(("other",)): return
        if v[0] == "str": it += (v[1],) if v[1] else ()
        elif v[0] == "int": it += (chr(v[1] & 255),)
        elif v == ("seg",): it += ("...",) if st.ts.get(("before",)) else ()
        elif v == TEXT: it += ("...",)
        else: it += ("?",)
        st.ts[("it",)] = it[:4]

    def settle(self, st, fr, line, last=False):
        if st.ts.get(("read",)) or st.ts.get(("it",)):
            self.n += 1
            got = st.ts.get(("it",), ())
            raw = got == ("...",) and chr(self.c & 255) in allowed(self.c)
            if "".join(got) not in allowed(self.c) and not raw:
                c = chr(self.c & 255)
                name = repr(c) if 32 <= self.c < 127 else "0x%02x" % (self.c & 255)
                if not got: t = "leaves out the character %s of a text" % name
                elif "?" in got: t = "writes something that could not be determined for the character %s of a text" % name
                else: t = "writes \"%s\" for the character %s of a text" % ("".join(got), name)
                self.say(fr, "char", line, t)
        for k in ("read", "it", "other", "before"): st.ts.pop((k,), None)

    def edge(self, I, st, bid, to, fr):
        if (bid, to) in fr.fi.backedges and fr.fi.f["usr"] in self.loops: self.settle(st, fr, self.line(fr, bid))

    def line(self, fr, bid):
        return max([x["l"] for b in fr.fi.f["blocks"] if b["id"] == bid for x in [fr.fi.ex.get(e, {}) for e in b["el"] if isinstance(e, int)] if "l" in x] or [fr.fi.f["line"]])

    def written(self, I, st, fr, x, v, size, esc=False):
        c = chr(self.c & 255)
        if v == TEXT or v == ACC or v == ("enc",): st.ts[("out",)] = min(2, st.ts.get(("out",), 0) + 1)
        while size is not None and size[:2] == ("app", "cast"): size = size[2]
        if size is not None and size != ("len", v) and (v in (TEXT, ACC, ("enc",))): self.say(fr, "size", x["l"], "the length given is not that of the text that is written")
        if v == TEXT:
            self.n += 1
            if esc: return
            if allowed(self.c) != (c,) and c not in allowed(self.c): self.say(fr, "raw", x["l"], "a text with the character '%s' is written as it is" % c)
        elif v == ACC:
            if esc: self.say(fr, "double", x["l"], "text that is already escaped is escaped again")
            if st.ts.get(("read",)): self.settle(st, fr, x["l"])
        elif v == ("enc",):
            if esc: self.say(fr, "double", x["l"], "text that is already escaped is escaped again")
        else: self.piece(I, st, fr, x["l"], v) if not esc or v[0] not in ("str", "int") else None

    def ret(self, I, st, val, el, fr):
        if fr.parent is None:
            n = st.ts.get(("out",), 0)
            direct = st.ts.get(("direct",))
            if not direct and n != 1: self.say(fr, "once", fr.fi.f["line"], "a text is %s" % ("not written" if not n else "written more than once"))


def pv(I, s, a): return I.read(s, a[1]) if a[0] == "L" else a


def sink(P, E, u, pi, c):
    """analyse the text function u with parameter number pi for the character c"""
    f = P.funcs[u]
    H = Sink(c - 256 if c > 127 else c)
    # functions with a loop over the text (or pieces of it)
    H.loops = {g["usr"] for g in P.funcs.values() if "blocks" in g}
    I = Interp(P, H, max_depth=6, budget=120000, effects=E, inline_filter=lambda g, fr: "/repo/" in g["file"] or g["file"].startswith("src") or g.get("cls") == OUT or "/parser/" in g["file"])
    M = I.models
    cval = ("int", H.c)

    def strv(I, s, o): return I.read(s, I.deref_loc(o))

    def fresh(s, t, lo, hi, ne=frozenset()):
        s.facts.pop(t, None)
        if (lo, hi, ne) != (NEG, POS, frozenset()): s.setcon(t, (lo, hi, ne))
        return t

    def has(s, acc): return acc[0] == "str" and chr(c) in acc[1] or acc[0] == "int" and acc[1] & 255 == c

    def text_search(kind, nowhere):
        def m(I, fr, fi, i, x, s, d, o, a):
            args = [pv(I, s, y) for y in a]
            subj = strv(I, s, o) if o is not None else args.pop(0)
            if subj == ("cstr", TEXT): subj = TEXT
            if subj != TEXT or not args or args[0][0] not in ("str", "int"): return NotImplemented
            pos = next((y for y in args[1:] if y[0] in ("find", "segat") or y == ("atpos",)), None)
            whole = len(args) == 1 or args[1] == INT0
            t = ("find", i)
            # a search from where the last one ended
            later = s.ts.get(("searched", i)) or not whole
            s.ts[("searched", i)] = 1
            if has(s, args[0]):
                if not later: return fresh(s, t, NEG, POS, frozenset({0} if nowhere == 0 else {nowhere, (1 << 64) - 1}))
                out = s.copy()
                return fresh(s, t, NEG, POS)
            s.ts[("before",)] = 1
            return fresh(s, t, NEG, POS)
        return m
    npos = -1
    for n in ("strpbrk", "strchr", "memchr", "std::strpbrk", "std::strchr", "std::memchr"): M[n] = text_search(n, 0)

    def member(I, fr, fi, i, x, s, d, o, a):
        n = d["n"]
        if o is None: return NotImplemented
        loc = I.deref_loc(o)
        v = I.read(s, loc)
        args = [pv(I, s, y) for y in a]
        if n in ("find_first_of", "find") and v == TEXT: return text_search(n, npos)(I, fr, fi, i, x, s, d, o, a)
        if v == TEXT:
            if n in ("begin", "cbegin"): return HERE
            if n in ("end", "cend"): return END
            if n in ("size", "length"): return fresh(s, ("len", TEXT), 0, POS)
            if n == "empty": return app("==", fresh(s, ("len", TEXT), 0, POS), INT0)
            if n in ("operator[]", "at"):
                read_char(s, args[0])
                return ("L", CH)
            if n == "substr": return ("seg",)
            return NotImplemented
        if v == ACC or v == ("str", ""):
            if v == ("str", ""): s.write(loc, ACC)
            if n in ("operator+=", "append", "push_back", "operator<<"):
                H_append(I, fr, s, x, fi, args)
                return ("L", loc)
            if n == "insert" and len(args) == 3: H_append(I, fr, s, x, fi, args[1:]); return ("it", "acc")
            if n in ("reserve", "shrink_to_fit"): return ("void",)
            if n in ("size", "length"): return ("len", ACC)
            if n in ("c_str", "data", "str"): return ("cstr", ACC) if n != "str" else ACC
            if n in ("begin", "end", "cbegin", "cend"): return ("it", "acc")
            if n == "clear" : s.ts.pop(("it",), None); return ("void",)
            if n == "operator=" and args and args[0] == TEXT: s.write(loc, TEXT); return ("L", loc)
        return NotImplemented

    def read_char(s, idx=None):
        if idx is not None and idx[0] == "find":
            # the character a search found: c when it is one of those searched for
            if s.ts.get(("before",)): s.ts[("other",)] = 1; s.mem[CH] = ("othc",); s.facts.pop(("othc",), None); return
        s.ts[("read",)] = 1
        s.mem[CH] = cval

    def H_append(I, fr, s, x, fi, args):
        if len(args) == 1: return H.piece(I, s, fr, x["l"], norm(args[0]))
        if len(args) == 2:
            if args[0][0] == "int" and args[1][0] == "int" and args[0][1] == 1: return H.piece(I, s, fr, x["l"], args[1])
            if args[1][0] == "int" and norm(args[0])[0] == "str": return H.piece(I, s, fr, x["l"], ("str", norm(args[0])[1][:args[1][1]]))
            if args[0] == HERE and args[1] == END: return H.piece(I, s, fr, x["l"], TEXT)
            return H.piece(I, s, fr, x["l"], ("seg",))
        if len(args) == 3 and args[0] in (TEXT,): return H.piece(I, s, fr, x["l"], ("seg",))
        H.piece(I, s, fr, x["l"], ("app",))

    def norm(v):
        if v[0] == "cstr": return v[1]
        return v
    old = {}
    for S in STRINGS:
        old[S] = (M.get(S + "::*"), M.get(S + "::ctor"))

        def any_(I, fr, fi, i, x, s, d, o, a, S=S):
            r = member(I, fr, fi, i, x, s, d, o, a)
            if r is NotImplemented:
                g = None
                if d["n"] in ("c_str", "data"):
                    v = strv(I, s, o)
                    return v if v[0] == "str" and v[1] else ("cstr", v)
                return old[S][0](I, fr, fi, i, x, s, d, o, a)
            return r

        def ctor(I, fr, fi, i, x, s, d, a, S=S):
            if not a: return ACC
            args = [pv(I, s, y) for y in a]
            if len(args) >= 2 and args[0] == HERE: return TEXT if args[1] == END else ("seg",)
            if args[0] in (TEXT, ("cstr", TEXT)): return TEXT if len(args) == 1 or args[1] == ("len", TEXT) else ("seg",)
            if args[0] in (ACC, ("cstr", ACC)): return ACC
            return old[S][1](I, fr, fi, i, x, s, d, a)
        for n in ("c_str", "data"): M.pop(S + "::" + n, None)
        M[S + "::*"] = any_
        M[S + "::ctor"] = ctor

    def it_op(I, fr, fi, i, x, s, d, o, a):
        n = d["n"]
        v = pv(I, s, ("L", I.deref_loc(o))) if o is not None else pv(I, s, a[0])
        rest = list(a) if o is not None else list(a[1:])
        if n in ("operator!=", "operator=="):
            w = pv(I, s, rest[0])
            if {v, w} == {HERE, END}:
                t = fresh(s, ("more",), 0, 1)
                return t if n == "operator!=" else app("==", t, INT0)
            return NotImplemented
        if v not in (HERE, END): return NotImplemented
        if n == "operator*":
            read_char(s)
            return ("L", CH)
        if n in ("operator++",): return o if not rest else HERE
        return NotImplemented
    for C in ("__gnu_cxx::__normal_iterator",):
        M[C + "::*"] = it_op
        M[C + "::ctor"] = lambda I, fr, fi, i, x, s, d, a: pv(I, s, a[0]) if a else INT0
    for n in ("__gnu_cxx::operator!=", "__gnu_cxx::operator==", "std::operator!=", "std::operator=="): M[n] = it_op
    M["std::begin"] = lambda I, fr, fi, i, x, s, d, o, a: HERE if pv(I, s, a[0]) == TEXT else NotImplemented
    M["std::end"] = lambda I, fr, fi, i, x, s, d, o, a: END if pv(I, s, a[0]) == TEXT else NotImplemented

    def raw(I, fr, fi, i, x, s, d, o, a):
        args = [pv(I, s, y) for y in a]
        v, size = None, None
        n = d["n"].split("(")[0]
        if n == "xmlOutputBufferWrite": v, size = args[2], args[1]
        elif len(args) > 1: v, size = args[1], args[2] if len(args) > 2 else None
        if v is None: return NotImplemented
        v = norm(v)
        if v not in (TEXT, ACC, ("enc",)):
            # pieces written one after the other
            s.ts[("direct",)] = 1
            if v[0] == "addr" and v[1] == CH: v = cval
            if v[0] == "str" and size is not None and size[0] == "int": v = ("str", v[1][:size[1]])
            H.piece(I, s, fr, x["l"], ("seg",) if v[0] not in ("str", "int") else v)
            return fresh(s, ("ret", i), NEG, POS)
        H.written(I, s, fr, x, v, size, n in ESCAPED)
        return fresh(s, ("ret", i), NEG, POS)
    for n in RAW + ESCAPED: M[n] = raw
    for n in ENCODE: M[n] = lambda I, fr, fi, i, x, s, d, o, a: ("enc",) if norm(pv(I, s, a[-1])) == TEXT else NotImplemented
    I.joinkey = lambda st: (frozenset(st.ts.items()), frozenset((k, v) for k, v in st.mem.items() if v in (ACC, TEXT)), frozenset(st.facts.items()))
    I.analyze(f, setup=lambda I, st, fr: bind(I, st, fr, f, pi))
    return H.bad, H.n


def bind(I, st, fr, f, pi):
    """the text parameter (a reference or a value)"""
    p = f["params"][pi]
    st.mem[("d", ("p", p["v"]))] = TEXT
    for u in I.P.vars:
        if u.endswith("@npos"): st.mem[("g", u)] = ("int", (1 << 64) - 1)
    if I.P.type(p["t"])["k"] != "ref": st.mem[("v", fr.id, p["v"])] = TEXT


# ---------------------------------------------------------------- data written without being escaped
class Origin:
    """where the data of an expression comes from: ("const",) ("number",) ("content",) ("name",) ("field", record, name) ("param", i) ("other", what)"""
    CONTENT = ("srcml", "srcml_revision", "srcml_raw", "srcml_raw_revision", "srcml_fragment", "srcml_fragment_revision", "content_begin", "content_end")
    NAMES = ("prefix",)

    def __init__(self, P):
        self.P = P
        self.callers = {}
        for u, f in P.funcs.items():
            for k, x in f["exprs"].items():
                if "fn" in x and (x["k"].endswith("CallExpr") or x["k"].endswith("ConstructExpr")): self.callers.setdefault(x["fn"], []).append((f, int(k), x))

    def of(self, f, i, depth=0, seen=None):
        P = self.P
        ex = {int(k): v for k, v in f["exprs"].items()}
        seen = set() if seen is None else seen
        if depth > 30: return {("other", "too deep")}
        x = ex[i]
        if "sv" in x or "cv" in x: return {("const",)}
        k = x["k"]
        t = P.type(x["t"]) if "t" in x else {}
        if k in ("StringLiteral", "CharacterLiteral", "IntegerLiteral", "CXXNullPtrLiteralExpr", "CXXDefaultArgExpr", "PredefinedExpr"): return {("const",)}
        if k == "DeclRefExpr":
            v = x.get("v")
            ps = [n for n, p in enumerate(f["params"]) if p["v"] == v]
            if (f["usr"], v) in seen: return set()
            seen.add((f["usr"], v))
            if ps: return {("param", ps[0])} | self.defs(f, ex, v, depth, seen)
            g = P.vars.get(v)
            if g is not None and (P.type(g["t"]).get("c") or "init" in g and v not in self.assigned()): return {("const",)}
            r = self.defs(f, ex, v, depth, seen)
            if t.get("k") in ("int", "bool", "enum", "float"): return {("number",)} if r else {("number",)}
            return r or {("other", "a variable that is set elsewhere")}
        if k == "MemberExpr" and "f" in x:
            if t.get("k") in ("int", "bool", "enum"): return {("number",)}
            if x["f"] in self.CONTENT and "srcml_unit" in str(x.get("rec")): return {("content",)}
            if x["f"] in self.NAMES: return {("name",)}
            return {("field", str(x.get("rec")).split("::")[-1], x["f"])}
        if "fn" in x and (k.endswith("CallExpr") or k.endswith("ConstructExpr")):
            d = P.decls.get(x["fn"], {})
            ops = x.get("ops", ())
            if t.get("k") in ("int", "bool", "enum"): return {("number",)}
            n = d.get("n", "")
            if x["fn"] in P.funcs and not d.get("cls", "").startswith("std::"):
                g = P.funcs[x["fn"]]
                out = set()
                a = [o for o in ops]
                if k == "CXXMemberCallExpr": a = a[1:]
                for o in a: out |= self.of(f, o, depth + 1, seen)
                if not a and k == "CXXMemberCallExpr": out |= self.of(f, ops[0], depth + 1, seen)
                if out <= {("number",), ("const",)} and a: return out
                if all(P.type(p["t"])["k"] in ("int", "bool", "enum") for p in g["params"]) and g["params"]: return {("number",)}
                return out or {("other", n)}
            if k == "CXXMemberCallExpr" and n in ("c_str", "data", "str", "substr", "get", "operator*", "operator->", "value", "back", "front", "at", "operator[]"): return self.of(f, ops[0], depth + 1, seen)
            out = set()
            for o in ops: out |= self.of(f, o, depth + 1, seen)
            if n.startswith(("xmlEncodeSpecialChars", "xmlEncodeEntitiesReentrant")): return {("escaped",)}
            return out or {("const",)}
        if k == "BinaryOperator" and t.get("k") in ("int", "bool"): return {("number",)}
        out = set()
        for n, o in enumerate(x.get("ops", ())):
            if k == "ConditionalOperator" and n == 0: continue
            out |= self.of(f, o, depth + (0 if k.endswith("CastExpr") or k == "ParenExpr" else 1), seen)
        if t.get("k") in ("int", "bool", "enum") and ("content",) not in out and k != "ImplicitCastExpr": return {("number",)}
        return out or {("const",)}

    def assigned(self):
        if not hasattr(self, "_as"):
            self._as = set()
            for f in self.P.funcs.values():
                ex = f["exprs"]
                for x in ex.values():
                    if x["k"] in ("BinaryOperator", "CompoundAssignOperator") and "=" in x.get("op", "") and x["op"] not in ("==", "!=", "<=", ">="):
                        y = ex[str(x["ops"][0])]
                        if y["k"] == "DeclRefExpr": self._as.add(y.get("v"))
        return self._as

    def defs(self, f, ex, v, depth, seen):
        P, out = self.P, set()
        for b in f.get("blocks", ()):
            for e in b["el"]:
                if not isinstance(e, dict): continue
                for dcl in e.get("vars", ()):
                    if dcl.get("v") == v and "init" in dcl: out |= self.of(f, dcl["init"], depth + 1, seen)
        for i, x in ex.items():
            if x["k"] in ("BinaryOperator", "CompoundAssignOperator") and x.get("op") in ("=", "+="):
                y = peel(ex, x["ops"][0])
                if y["k"] == "DeclRefExpr" and y.get("v") == v: out |= self.of(f, x["ops"][1], depth + 1, seen)
            elif "fn" in x and x["k"].endswith("CallExpr") and x.get("ops"):
                d = P.decls.get(x["fn"], {})
                y = peel(ex, x["ops"][0])
                if y["k"] == "DeclRefExpr" and y.get("v") == v and d.get("n") in ("operator=", "operator+=", "append", "assign", "insert", "push_back", "operator<<", "replace"):
                    for o in x["ops"][1:]: out |= self.of(f, o, depth + 1, seen)
        return out


def markup_buffer(P, f, x):
    """the buffer written to is that of an archive or of the writer, not one that takes source code"""
    ex = {int(k): v for k, v in f["exprs"].items()}
    y = peel(ex, x["ops"][0])
    while y["k"].endswith("CallExpr") and y.get("ops"): y = peel(ex, y["ops"][0])
    return y.get("f") is not None or y["k"] == "DeclRefExpr" and any(p["v"] == y.get("v") for p in f["params"])


def census(P, sinks):
    """[(f, line, key, text)] data that reaches the markup in a way that is wrong for it; number of places"""
    O, bad, n = Origin(P), [], 0
    done = set()
    contract = {u for u, f in P.funcs.items() if f["n"] == "srcml_archive_write_string"}       # given markup by its callers

    def data(d, x):
        n = d["n"]
        if n == "xmlOutputBufferWrite": return x["ops"][2]
        if n == "xmlTextWriterWriteAttributeNS": return x["ops"][4]
        if n == "xmlTextWriterWriteAttribute": return x["ops"][2]
        return x["ops"][1]

    def judge(f, i, line, raw, how, depth=0):
        if f["usr"] in sinks and raw: return
        if f["usr"] in contract and raw: return
        for o in sorted(O.of(f, i), key=str):
            what = None
            if o[0] == "param":
                cs = O.callers.get(f["usr"], ())
                if raw and not cs: what = "is given data from outside"
                for g, k, c in cs:
                    a = list(c["ops"])
                    if c["k"] == "CXXMemberCallExpr": a = a[1:]
                    if c["k"] == "CXXOperatorCallExpr": continue
                    if (f["usr"], g["usr"], k, o[1], raw) in done or depth > 5 or o[1] >= len(a): continue
                    done.add((f["usr"], g["usr"], k, o[1], raw))
                    judge(g, a[o[1]], c["l"], raw, how, depth + 1)
            elif raw and o[0] == "field": what = "writes %s::%s as markup, without escaping it" % o[1:]
            elif raw and o[0] == "other": what = "writes data as markup (%s) that may need to be escaped" % o[1]
            elif not raw and o[0] == "content": what = "escapes content that is markup already"
            if what: bad.append((f, line, "%s|%s|%s" % (f["qn"].split("(")[0], how, "|".join(o[1:2] + o[2:3] if len(o) > 1 and isinstance(o[1], str) else o[:1])), what))
    for u, f in sorted(P.funcs.items()):
        for i, x in sorted(f["exprs"].items(), key=lambda y: int(y[0])):
            if not x["k"].endswith("CallExpr"): continue
            d = P.decls.get(x.get("fn"), {})
            nm = d.get("n", "")
            if nm in RAW:
                if nm.startswith("xmlOutput") and not markup_buffer(P, f, x): continue
                n += 1
                judge(f, data(d, x), x["l"], True, "raw")
            elif nm in ("xmlTextWriterWriteString", "xmlTextWriterWriteAttribute", "xmlTextWriterWriteAttributeNS"):
                n += 1
                judge(f, data(d, x), x["l"], False, "escaped")
    return bad, n


# ---------------------------------------------------------------- the element for characters that XML cannot hold
def chain(P, f, ex, i, seen=None):
    """every expression a value is made of, through locals"""
    seen = set() if seen is None else seen
    if i in seen: return
    seen.add(i)
    x = ex[i]
    yield x
    if x["k"] == "DeclRefExpr" and "v" in x:
        for b in f.get("blocks", ()):
            for e in b["el"]:
                if isinstance(e, dict):
                    for d in e.get("vars", ()):
                        if d.get("v") == x["v"] and "init" in d: yield from chain(P, f, ex, d["init"], seen)
        for j, y in ex.items():
            if y["k"] in ("BinaryOperator", "CompoundAssignOperator") and y.get("op") == "=" and peel(ex, y["ops"][0]).get("v") == x["v"]: yield from chain(P, f, ex, y["ops"][1], seen)
    for o in x.get("ops", ()): yield from chain(P, f, ex, o, seen)


def called(P, f, depth=3, seen=None):
    seen = set() if seen is None else seen
    if f["usr"] in seen: return
    seen.add(f["usr"])
    yield f
    if depth:
        for x in f["exprs"].values():
            g = P.funcs.get(x.get("fn"))
            if g is not None and "/usr/" not in g["file"]: yield from called(P, g, depth - 1, seen)


import re
HEX = re.compile(r"^(0[xX]%(0?\d*)(hh|h)?[xX]|%#0?\d*(hh|h)?[xX]|%(hh|h)?[diu])$")


def control_text(P):
    """[(f, line, key, text)], number of places that make the text of the element for control characters"""
    bad, n = [], 0
    for u, f in sorted(P.funcs.items()):
        if f.get("cls") not in ("StreamMLParser",) and "StreamMLParser" not in str(f.get("cls")): continue
        ex = {int(k): v for k, v in f["exprs"].items()}
        for i, x in ex.items():
            d = P.decls.get(x.get("fn"), {})
            if d.get("n") != "setText" or not x["k"].endswith("CallExpr"): continue
            n += 1
            arg = x["ops"][1]
            cs = list(chain(P, f, ex, arg))
            bufs = {y["v"] for y in cs if y["k"] == "DeclRefExpr" and "v" in y}
            prints = [y for y in ex.values() if y["k"].endswith("CallExpr") and P.decls.get(y.get("fn"), {}).get("n") in ("snprintf", "sprintf") and any(z.get("v") in bufs for z in chain(P, f, ex, y["ops"][0]))]
            helpers = [g for y in cs for g in [P.funcs.get(y.get("fn"))] if g is not None and "/usr/" not in g["file"]]
            where = [(f, ex, y) for y in prints]
            for g in helpers:
                gx = {int(k): v for k, v in g["exprs"].items()}
                where += [(g, gx, y) for y in gx.values() if y["k"].endswith("CallExpr") and P.decls.get(y.get("fn"), {}).get("n") in ("snprintf", "sprintf")]
            for g, gx, y in where:
                name = P.decls[y["fn"]]["n"]
                fi = 2 if name == "snprintf" else 1
                fmt = next((z["sv"] for z in chain(P, g, gx, y["ops"][fi]) if "sv" in z), None)
                if fmt is None or not HEX.match(fmt): bad.append((g, y["l"], "format", "writes the code of a control character as \"%s\", which is not read back as a number of that value" % fmt)); continue
                if name == "snprintf":
                    size = next((z["cv"] for z in [gx[y["ops"][1]], peel(gx, y["ops"][1])] if "cv" in z), None)
                    if size is not None and size < 5: bad.append((g, y["l"], "cut", "cuts off the code of a control character"))
            src = [z for y in [arg] + [o for y in prints for o in y["ops"]] for z in chain(P, f, ex, y)]
            firsts = [z for z in src if z["k"].endswith("CallExpr") and P.decls.get(z.get("fn"), {}).get("n") in ("operator[]", "at", "front", "getText")]
            if not any(P.decls.get(z["fn"], {}).get("n") == "getText" for z in firsts): bad.append((f, x["l"], "source", "gives the element for a control character a code that is not that of the token's text"))
            for z in firsts:
                if P.decls[z["fn"]]["n"] in ("operator[]", "at"):
                    k = peel(ex, z["ops"][1])
                    if "cv" in k and k["cv"] != 0: bad.append((f, x["l"], "first", "does not use the first character of the token"))
    return bad, n


STRTO = ("strtol", "strtoul", "strtoll", "strtoull", "stoi", "stol", "stoul", "atoi")


def reading(P):
    """[(f, line, key, text)], number of functions that turn the element for control characters back into the character"""
    bad, n = [], 0
    for u, f in sorted(P.funcs.items()):
        if "/usr/" in f["file"]: continue
        ex = {int(k): v for k, v in f["exprs"].items()}
        def names(y): return y.get("sv") == "escape" or y.get("f") == "ESCAPE_ENTRY"
        tests = []
        for i, x in ex.items():
            d = P.decls.get(x.get("fn"), {})
            if x["k"].endswith("CallExpr") and d.get("n") in ("strcmp", "operator==", "compare", "xmlStrEqual", "strncmp") and any(names(y) for o in x["ops"] for y in chain(P, f, ex, o)): tests.append(x)
            if x["k"] == "BinaryOperator" and x.get("op") in ("==", "!=") and any(names(y) for o in x["ops"] for y in chain(P, f, ex, o)): tests.append(x)
        if not tests: continue
        n += 1
        conv = []
        for g in called(P, f):
            gx = {int(k): v for k, v in g["exprs"].items()}
            conv += [(g, gx, y) for y in gx.values() if y["k"].endswith("CallExpr") and P.decls.get(y.get("fn"), {}).get("n") in STRTO]
        if not conv:
            bad.append((f, tests[0]["l"], "none|%s" % f["qn"].split("(")[0], "does not turn the code of a control character back into the character"))
            continue
        for g, gx, y in conv:
            name = P.decls[y["fn"]]["n"]
            base = peel(gx, y["ops"][2]) if len(y["ops"]) > 2 else {"cv": 10}
            if base["k"] == "CXXDefaultArgExpr" if "k" in base else False: base = {"cv": 10}
            if base.get("cv") not in (0, 16): bad.append((g, y["l"], "base|%s" % g["qn"].split("(")[0], "reads the code of a control character, a hexadecimal number, as something else"))
            # it is appended to the text
            used = False
            for h in called(P, f):
                hx = {int(k): v for k, v in h["exprs"].items()}
                for z in hx.values():
                    if z["k"].endswith("CallExpr") and P.decls.get(z.get("fn"), {}).get("n") in ("append", "push_back", "operator+=", "insert", "operator<<", "put"):
                        for o in z["ops"][1:]:
                            for w in chain(P, h, hx, o):
                                if w is y or w.get("fn") == y["fn"] or w.get("fn") == g["usr"] and g is not f: used = True
            if not used: bad.append((f, y["l"], "unused|%s" % f["qn"].split("(")[0], "does not add the character to the text"))
    return bad, n


def decoded(P):
    """[(f, line, key, text)], number of places where the value of an attribute is taken from the parser: libxml2 leaves &#38; in it for &"""
    bad, n = [], 0
    for u, f in sorted(P.funcs.items()):
        if "/usr/" in f["file"]: continue
        ps = {p["v"] for p in f["params"] if P.type(p["t"]).get("s", "").replace("const ", "").replace(" ", "") in ("xmlChar**", "unsignedchar**") and "attr" in p["n"]}
        if not ps: continue
        ex = {int(k): v for k, v in f["exprs"].items()}
        parent = {}
        for i, x in ex.items():
            if x["k"] == "MemberExpr" and "fn" in x: continue
            for o in x.get("ops", ()): parent.setdefault(o, i)
        for i, x in ex.items():
            if x["k"] != "ArraySubscriptExpr": continue
            b = peel(ex, x["ops"][0])
            if b.get("v") not in ps: continue
            if not value_start(ex, x["ops"][1]): continue
            n += 1
            ok = settled(P, f, ex, i, parent, set()) or decodes(P, f)
            if not ok: bad.append((f, x["l"], "attribute|%s" % f["qn"].split("(")[0], "takes the value of an attribute as the parser hands it over, where an & is still &#38;"))
    return bad, n


def value_start(ex, i):
    x = peel(ex, i)
    if "cv" in x: return x["cv"] % 5 == 3
    return x["k"] == "BinaryOperator" and x["op"] == "+" and any(peel(ex, o).get("cv") == 3 for o in x["ops"])


def decodes(P, g):
    for h in called(P, g, 2):
        if any("#38" in str(x.get("sv", "")) for x in h["exprs"].values()): return True
    return False


def settled(P, f, ex, i, parent, seen):
    """the value is decoded, or only used as a number"""
    if i in seen: return True
    seen.add(i)
    for k in up(i, parent):
        x = ex[k]
        if not x["k"].endswith("CallExpr"): continue
        if P.decls.get(x.get("fn"), {}).get("n") in STRTO: return True
        g = P.funcs.get(x.get("fn"))
        if g is not None and "/usr/" not in g["file"] and decodes(P, g): return True
    top = ([i] + list(up(i, parent)))[-1]
    var = [d["v"] for b in f.get("blocks", ()) for e in b["el"] if isinstance(e, dict) for d in e.get("vars", ()) if "init" in d and i in set(walk(ex, d["init"]))]
    if not var and ex[top]["k"] == "BinaryOperator" and ex[top].get("op") == "=":
        y = peel(ex, ex[top]["ops"][0])
        if y["k"] == "DeclRefExpr" and "v" in y: var = [y["v"]]
    if not var: return False
    uses = [k for k, x in ex.items() if x["k"] == "DeclRefExpr" and x.get("v") == var[0] and not (k in parent and ex[parent[k]].get("op") == "=" and ex[parent[k]]["ops"][0] == k)]
    return bool(uses) and all(settled(P, f, ex, k, parent, seen) for k in uses)


def walk(ex, i):
    yield i
    for o in ex[i].get("ops", ()): yield from walk(ex, o)


def up(i, parent):
    while i in parent:
        i = parent[i]
        yield i
