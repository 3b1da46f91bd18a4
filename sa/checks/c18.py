"""C18: reading collects the markup of a unit exactly as it is in the input, and its text exactly once."""
from ..inputbuf import lin, sub, equal
from ..interp import *
from .. import facts
from ..par import pmap
from ..report import Report

HANDLER = "sax2_srcsax_handler"
STR = ("std::basic_string", "std::__cxx11::basic_string")
SAXSTART = ("ctx", "localname", "prefix", "URI", "nb_namespaces", "namespaces", "nb_attributes", "nb_defaulted", "attributes")
UPSTART = ("context", "localname", "prefix", "URI", "nb_namespaces", "namespaces", "nb_attributes", "attributes")
END = ("ctx", "localname", "prefix", "URI")
TEXT, GT = "text", 62


def sax_fields(P):
    """the libxml2 callback fields that are set anywhere: field -> functions"""
    out = {}
    for f in P.funcs.values():
        for i, x in f.get("exprs", {}).items():
            if x["k"] != "BinaryOperator" or x.get("op") != "=": continue
            chain, rhs = [], None
            j = i
            while True:
                y = f["exprs"][str(j)]
                if y["k"] == "BinaryOperator" and y.get("op") == "=":
                    chain.append(y["ops"][0])
                    j = y["ops"][1]
                    continue
                break
            fn = target(f, j)
            if not fn: continue
            for l in chain:
                m = f["exprs"][str(l)]
                if m["k"] == "MemberExpr" and m.get("rec", "") in ("_xmlSAXHandler", "xmlSAXHandler"): out.setdefault(m["f"], set()).add(fn)
    return out


def target(f, j):
    """the function whose address an expression is"""
    seen = [j]
    while seen:
        y = f["exprs"].get(str(seen.pop()))
        if y is None: continue
        if y["k"] in ("DeclRefExpr", "LambdaExpr") and (y.get("fn") or y.get("lam")): return y.get("fn") or y.get("lam")
        seen += y.get("ops", [])
    return None


class Reader(Hooks):
    def __init__(self, f, roles):
        self.f, self.roles, self.viol, self.done = f, roles, {}, {}
        self.par = {r: ("p", p["v"]) for r, p in zip(roles, f["params"])}
        self.ctx = self.par["ctx"]

    def bad(self, key, l, text): self.viol.setdefault("%s %s" % (self.f["qn"], key), (self.f["file"], l or self.f["line"], "%s %s" % (self.f["qn"], text)))
    def ok(self, what): self.done[what] = self.done.get(what, 0) + 1

    def call(self, I, st, qn, args, x, fr):
        if qn == "*" and args:
            n = field(args[0])
            if n: st.ts["up"] = st.ts.get("up", ()) + ((n, tuple(args[1:]), x.get("l")),)
        elif qn == "std::count" and len(args) == 3: st.ts["count"] = st.ts.get("count", ()) + (tuple(args),)
        elif qn in ("end_unit", "end_root", "start_unit", "start_element", "reparse_root"): st.ts["to"] = st.ts.get("to", ()) + ((qn, tuple(args)),)


def field(t):
    while t[0] in ("init", "L", "d", "addr"): t = t[1]
    return t[2] if t[0] == "f" else None


class Text:
    """unitsrcml and unitsrc are sequences of pieces"""

    def __init__(self, I, state):
        self.I, self.state = I, state
        self.names = {("f", state, n): n for n in ("unitsrcml", "unitsrc", "rootstarttag")}
        for c in STR:
            m = c + "::*"
            if m in I.models: self.wrap(I.models, m)

    def wrap(self, M, m):
        old = M[m]

        def h(I, fr, fi, i, x, s, d, o, a):
            loc = I.deref_loc(o) if o is not None else None
            n = self.names.get(loc)
            if n is None or d.get("const"): return old(I, fr, fi, i, x, s, d, o, a)
            op = d["n"]
            if op in ("reserve", "shrink_to_fit"): return ("void",)
            av = [I.read(s, y[1]) if y[0] == "L" else y for y in a]
            ts = [I.P.type(fi.ex[y]["t"]) for y in (x["ops"][1:] if o is not None else x["ops"])]
            out = s.ts.get(n, ())
            if op in ("clear", "assign", "operator="): out = (("cleared",),)
            piece = None
            if op in ("clear",): pass
            elif op in ("append", "assign", "operator+=", "push_back", "operator="):
                av = [y for y, t in zip(av, ts)] if ts else av
                if len(av) == 1:
                    v = av[0]
                    if ts and ts[0]["k"] == "int": piece = ("chars", ("int", 1), v)
                    elif ts and ts[0]["k"] in ("ptr", "arr"): piece = ("lit", v[1]) if v[0] == "str" else ("z", v)
                    else: piece = ("raw", v[1], v[2]) if v[0] == "strof" and len(v) == 3 else ("z", v[1]) if v[0] == "strof" else ("lit", v[1]) if v[0] == "str" else ("string", v)
                elif len(av) == 2:
                    if ts[0]["k"] == "int": piece = ("chars", av[0], av[1])
                    elif ts[1]["k"] == "int": piece = ("raw", av[0], av[1]) if av[0][0] != "str" else ("lit", av[0][1][:av[1][1]]) if av[1][0] == "int" else None
                    else: piece = ("raw", av[0], app("-", av[1], av[0]))
                if piece is None: piece = ("?",)
            else: piece = ("?",)
            if piece: out = out + (piece,)
            if len(out) > 12: out = out[:11] + (("?",),)
            s.ts[n] = out
            v = ("sym", n, len(out))
            s.write(loc, v)
            rt = I.P.type(d["ret"])
            return ("L", loc) if rt["k"] == "ref" else ("void",)
        M[m] = h


def interp(P, f, H, state):
    I = Interp(P, hooks=H, budget=800000, soft=SOFT[0])
    I.opaque |= {q for q in ("reparse_root", "end_unit", "end_root", "start_unit", "start_element", "xmlStopParser") if q != f["qn"]}
    H.text = Text(I, state)
    return I


def nonneg(st, d):
    """is the path possible, given that no position is before an earlier one?"""
    return d


class Path:
    """what one path of a callback did"""

    def __init__(self, H, I, st):
        self.H, self.I, self.st = H, I, st
        S = H.state
        self.inp = ("init", ("f", ("d", H.ctx), "input"))
        IN = ("d", self.inp)
        g = lambda l: ("init", l)
        self.CUR, self.IB, self.IC = (g(("f", IN, n)) for n in ("cur", "base", "consumed"))
        self.B0, self.PB, self.PC = (g(("f", S, n)) for n in ("base", "prevbase", "prevconsumed"))
        self.eqs = []
        for t in list(st.facts):
            if not isinstance(t, tuple) or t[0] != "app": continue
            u, want = t, 1
            while u[1] == "!": u, want = u[2], 1 - want
            if u[1] == "==" and st.truth(u) == want == 1 or u[1] == "==" and st.truth(u) == 1:
                d = sub(u[2], u[3])
                if d and d[1]: self.eqs.append(d)
            elif u[1] in ("-",) and st.truth(u) == 0:
                d = lin(u)
                if d and d[1]: self.eqs.append(d)
        self.E = lin(app("+", self.B0, INT0))
        self.E = self.add(self.add(lin(self.B0), lin(app("-", self.IB, self.PB))), lin(app("-", self.IC, self.PC)), -1)

    @staticmethod
    def add(a, b, k=1):
        d = dict(a[1])
        for x, c in b[1].items():
            d[x] = d.get(x, 0) + k * c
            if not d[x]: del d[x]
        return (a[0] + k * b[0], d)

    def zero(self, d, n=3):
        """is a linear form zero, given the equalities the path established?"""
        if not d[1]: return d[0] == 0
        if n == 0: return False
        for e in self.eqs:
            for k in (1, -1):
                r = self.add(d, e, k)
                if len(r[1]) < len(d[1]) and self.zero(r, n - 1): return True
        return False

    def same(self, a, b): return a is not None and b is not None and self.zero(self.add(a, b, -1))

    def impossible(self):
        """paths that need an earlier position to be behind a later one"""
        for t, con in list(self.st.facts.items()):
            if not isinstance(t, tuple) or t[0] != "app": continue
            u = t
            while u[0] == "app" and u[1] == "!": u = u[2]
            d = None
            if u[0] == "app" and u[1] == "<" and self.st.truth(u) == 1: d = sub(u[2], u[3])
            elif u == t and t[1] in ("-", "+", "cast") and con[1] < 0: d = lin(t)
            if d is None: continue
            # d < 0, but lengths are not negative, and the parser is not before the place already collected
            if d[0] >= 0 and all(c > 0 and a[0] == "app" and a[1] in ("c:strlen", "size") for a, c in d[1].items()): return True
            r = self.add(d, self.add(lin(self.CUR), self.E, -1), -1)
            if r[0] >= -1 and self.zero((0, r[1])): return True
        return False

    def char(self, c, GT=GT):
        """is the character at a position known to be / not to be '>'?"""
        for t in list(self.st.facts):
            if not isinstance(t, tuple) or t[0] != "app": continue
            u = t
            while u[1] == "!": u = u[2]
            if u[1] != "==" or len(u) < 4 or u[3] != ("int", GT): continue
            p = place(u[2])
            if p is not None and self.same(p, c): return self.st.truth(u)
        for t, con in self.st.facts.items():
            p = place(t) if isinstance(t, tuple) else None
            if p is not None and self.same(p, c):
                if con[0] == con[1] == GT: return 1
                if GT in con[2] or con[0] > GT or con[1] < GT: return 0
        return None


def place(t):
    """the position a character was read from"""
    while t[0] == "app" and t[1] == "cast": t = t[2]
    if t[0] != "init": return None
    l = t[1]
    if l[0] == "d": return lin(l[1])
    if l[0] == "ix" and l[1][0] == "d":
        a, b = lin(l[1][1]), lin(l[2])
        return Path.add(a, b) if a and b else None
    return None


def param(H, t, role):
    while t[0] == "app" and t[1] == "cast": t = t[2]
    return t == H.par.get(role)


def cover(H, Pt, pieces, start):
    """the position up to which the input has been taken over, or a text what is wrong"""
    c, comment, pend, moved = start, 0, False, False
    for p in pieces:
        if p[0] == "cleared": return None, "drops what was collected before"
        if comment:
            if comment == 1 and p[0] == "z" and param(H, p[1], "value"): comment = 2
            elif comment == 2 and p == ("lit", "-->"):
                comment = 0
                c = lin(Pt.CUR)
                moved = True
            else: return None, "does not write a comment as it was"
            continue
        if p[0] == "chars" or p == ("lit", ">"):
            if p[0] == "chars" and (p[1] != ("int", 1) or p[2] != ("int", GT)): return None, "adds characters that were not in the input"
            if Pt.char(c) != 1: return None, "adds a '>' that may not be in the input"
            c = Pt.add(c, (1, {}))
            pend = True
            continue
        if p == ("lit", "<!--") and "value" in H.par:
            if Pt.char(c) != 0 and not moved and not pend: return None, "writes a comment into a start tag whose '>' may be missing"
            comment = 1
            continue
        if p[0] == "raw":
            if lin(p[1]) is None or lin(p[2]) is None: return None, "?"
            if "ch" in H.par and param(H, p[1], "ch"):
                if not Pt.same(c, lin(Pt.CUR)): return None, "takes the decoded text in place of the text in the input"
                if not Pt.same(lin(p[2]), lin(H.par["len"])): return None, "takes another number of characters than it was given"
                c = Pt.add(c, lin(H.par["len"]))
                continue
            if not Pt.same(lin(p[1]), c):
                raw = Pt.same(lin(p[1]), lin(Pt.B0))
                return None, "collects from a position that did not follow the parser's buffer" if raw else "does not continue where the text collected before ended"
            c = Pt.add(c, lin(p[2]))
            continue
        if p == ("?",): return None, "?"
        return None, "adds text that was not in the input"
    if comment: return None, "does not close a comment"
    return c, None


def content(P, job):
    """text, comments, processing instructions, start and end tags inside of a unit"""
    usr, roles, kind = job
    f = P.funcs[usr]
    H = Reader(f, roles)
    ctxt = ("d", H.ctx)
    H.state = ("d", ("init", ("f", ctxt, "_private")))
    I = interp(P, f, H, H.state)
    S = H.state
    for o in I.analyze(f):
        st = o.st
        if o.kind != "ret": continue
        if st.truth(H.ctx) == 0 or st.truth(("init", ("f", ctxt, "_private"))) == 0:
            continue
        collect = st.truth(("init", ("f", S, "collect_unit_body")))
        Pt = Path(H, I, st)
        if Pt.impossible(): continue
        out, src = st.ts.get("unitsrcml", ()), st.ts.get("unitsrc", ())
        l = f["line"]
        H.ok("paths of the callbacks inside a unit")
        if collect == 0:
            if out or src: H.bad("not collecting", l, "collects the body of a unit that is not wanted")
            continue
        if kind == "root":
            if out or src: H.bad("root", l, "takes text between units into a unit")
        # positions follow the buffer
        base = lin(I.read(st, ("f", S, "base")))
        for n, a in (("prevbase", Pt.IB), ("prevconsumed", Pt.IC)):
            if not Pt.same(lin(I.read(st, ("f", S, n))), lin(a)): H.bad("sync " + n, l, "does not record where the parser's buffer is, so that later text is taken from the wrong place")
        if base is None: continue
        if kind == "root":
            if not Pt.same(base, lin(Pt.CUR)): H.bad("skip", l, "does not skip exactly the text between units")
            continue
        end, why = cover(H, Pt, out, Pt.E)
        if why == "?": continue
        if why: H.bad("cover " + why, l, why)
        else:
            H.ok("markup taken over without gap or overlap")
            if not Pt.same(end, base) and not (kind == "gap" and Pt.same(base, Pt.E) and not out): H.bad("base", l, "continues at another position than the one up to which the markup was taken over")
        if kind != "text" and end is not None and not Pt.same(end, lin(Pt.CUR)): H.bad("all", l, "does not take over the markup up to the parser's position")
        # text
        text = [p for p in src]
        if kind == "text" or kind == "cdata":
            n = "ch" if kind == "text" else "value"
            good = len(text) == 1 and text[0][0] == "raw" and param(H, text[0][1], n) and Pt.same(lin(text[0][2]), lin(H.par["len"]))
            if not good and not any(p == ("?",) for p in text): H.bad("source", l, "does not add exactly its text to the source of the unit")
            cnt = st.ts.get("count", ())
            old = lin(I.read(st, ("f", S, "loc")))
            if old is not None:
                d = Pt.add(old, lin(("init", ("f", S, "loc"))), -1)
                if not d[1] and d[0] == 0: H.bad("loc", l, "does not count the lines of its text")
            for c in cnt:
                if not (param(H, c[0], n) and c[2] == ("int", 10) and Pt.same(lin(c[1]), Pt.add(lin(H.par[n]), lin(H.par["len"])))): H.bad("loc", l, "counts other lines than those of its text")
            if len(cnt) > 1: H.bad("loc", l, "counts the lines of its text %d times" % len(cnt))
            H.ok("text added to the source")
        elif kind == "start":
            esc = ("app", "==") 
            if text:
                name = [st.truth(t) for t in st.facts if isinstance(t, tuple) and t[0] == "app" and "ESCAPE_ENTRY" in show(t) and t[1] == "=="]
                if not any(v == 1 for v in name): H.bad("source", l, "adds text to the source for an element that is not an escape")
                if len(text) != 1 or text[0][0] != "chars" or text[0][1] != ("int", 1): H.bad("source", l, "adds more than one character for an escape")
                H.ok("escape characters")
            else:
                name = [st.truth(t) for t in st.facts if isinstance(t, tuple) and t[0] == "app" and "ESCAPE_ENTRY" in show(t) and t[1] == "=="]
                nb = [t for t in st.facts if isinstance(t, tuple) and H.par["nb_attributes"] in subterms(t)]
                if any(v == 1 for v in name) and not nb or not name and not text: H.bad("escape", l, "leaves out the character of an escape")
        elif text: H.bad("source", l, "adds text to the source that is not source")
        if kind == "end": ends(H, I, st, Pt, out, l)
    return H.viol, H.done


def ends(H, I, st, Pt, out, l):
    """end tags: where the content ends, and which end is that of a unit and of the root"""
    S = H.state
    ce = I.read(st, ("f", S, "content_end"))
    want = app("+", ("app", "size", ("init", ("f", S, "unitsrcml"))), ("int", 1))
    c = ce
    while c[0] == "app" and c[1] == "cast": c = c[2]
    d = sub(strip(ce), strip(want))
    if d is not None and (d[0] or d[1]): H.bad("content end", l, "records %s as the end of the content instead of the start of the end tag" % show(ce))
    H.ok("ends of content")
    to = [t for t, a in st.ts.get("to", ())]
    unit = truth_of(st, H, lambda t: t[1] == "==" and any(field(y) == "UNIT_ENTRY" for y in t[2:]) and any(param(H, y, "localname") for y in t[2:]))
    nr = [(t, st.truth(t)) for t in st.facts if isinstance(t, tuple)]
    names = ("init", ("f", ("d", H.ctx), "nameNr"))
    con = st.con(names) if hasattr(st, "con") else None
    def is_nr(n):
        v = st.truth(app("==", names, ("int", n)))
        return v
    arch = st.truth(("init", ("f", ("d", ("init", ("f", S, "context"))), "is_archive")))
    for t, a in st.ts.get("to", ()):
        if t in ("end_unit", "end_root") and not (len(a) == 4 and all(param(H, y, r) for y, r in zip(a, END))): H.bad("pass " + t, l, "does not pass on to %s what ended" % t)
    if unit == 0:
        if to: H.bad("dispatch", l, "ends a unit at the end of another element")
        return
    if unit is None:
        if to: H.bad("dispatch", l, "ends a unit at the end of any element")
        elif not to: H.bad("dispatch none", l, "does not end a unit where one ends")
        return
    H.ok("unit ends")
    eu, er = to.count("end_unit"), to.count("end_root")
    if is_nr(1) == 1:
        if er != 1: H.bad("root end", l, "ends the root %d times" % er)
        if arch == 0 and eu != 1: H.bad("solo end", l, "ends a solitary unit %d times" % eu)
        if arch != 0 and eu: H.bad("archive end", l, "ends a unit at the end of an archive")
    elif is_nr(1) == 0:
        if er: H.bad("inner root end", l, "ends the root at the end of an inner element")
        if is_nr(2) == 1 and eu != 1 and arch != 0: H.bad("inner end", l, "ends a unit of an archive %d times" % eu)
        if is_nr(2) == 0 and arch == 1 and eu: H.bad("nested end", l, "ends a unit at an element below it")
    else: H.bad("dispatch root", l, "does not tell the end of the root from that of a unit")
    if eu and er and to.index("end_root") < to.index("end_unit"): H.bad("order", l, "ends the root before its unit")


def strip(t):
    if t[0] == "app":
        if t[1] == "cast": return strip(t[2])
        return t[:2] + tuple(strip(y) if isinstance(y, tuple) else y for y in t[2:])
    return t


def truth_of(st, H, pred):
    for t in st.facts:
        if isinstance(t, tuple) and t[0] == "app":
            u = t
            while u[1] == "!": u = u[2]
            if u[0] == "app" and pred(u): return st.truth(u)
    return None


def sizes(n): return ("sym", "unitsrcml", n)


def start(P, usr):
    """the start of a unit: its tag, the namespaces of the root, and what collects its content"""
    f = P.funcs[usr]
    H = Reader(f, SAXSTART)
    ctxt = ("d", H.ctx)
    S = H.state = ("d", ("init", ("f", ctxt, "_private")))
    I = interp(P, f, H, S)
    saxloc = ("d", ("init", ("f", ctxt, "sax")))
    for o in I.analyze(f):
        st = o.st
        if o.kind != "ret" or st.truth(H.ctx) == 0 or st.truth(S[1]) == 0: continue
        Pt = Path(H, I, st)
        if Pt.impossible(): continue
        H.ok("paths of the start of a unit")
        l = f["line"]
        out = st.ts.get("unitsrcml", ())
        arch = st.truth(("init", ("f", ("d", ("init", ("f", S, "context"))), "is_archive")))
        for n, a in (("prevbase", Pt.IB), ("prevconsumed", Pt.IC)):
            if not Pt.same(lin(I.read(st, ("f", S, n))), lin(a)): H.bad("sync " + n, l, "does not record where the parser's buffer is")
        if not out or out[0] != ("cleared",): H.bad("old tag", l, "keeps markup of an earlier unit")
        c, ns, at, after = Pt.E, 0, None, None
        for k, p in enumerate(out[1:], 2):
            if p[0] == "raw":
                if lin(p[1]) is None or lin(p[2]) is None: c = None; break
                if not Pt.same(lin(p[1]), c):
                    H.bad("tag", l, "does not take over the start tag of a unit without gap or overlap")
                    c = None
                    break
                c = Pt.add(c, lin(p[2]))
            elif p[0] in ("string", "z") and "rootnsstr" in show(p[1]):
                ns, at, after = ns + 1, k - 1, k
            elif p == ("chars", ("int", 1), ("int", 32)) or p == ("lit", " "): pass
            else:
                H.bad("tag", l, "adds text to the start tag of a unit that was not in the input")
                c = None
                break
        if c is not None:
            if not Pt.same(c, Pt.add(lin(Pt.CUR), (1, {}))): H.bad("tag end", l, "does not take over the start tag of a unit up to its end")
            H.ok("start tags")
        if arch == 1 and ns != 1 and len(out) < 11: H.bad("namespaces", l, "adds the namespaces of the archive %d times to the unit" % ns)
        if arch == 0 and ns: H.bad("namespaces solo", l, "adds the namespaces of the root to itself")
        base = lin(I.read(st, ("f", S, "base")))
        if base is not None and not Pt.same(base, Pt.add(lin(Pt.CUR), (1, {}))): H.bad("base", l, "does not continue after the start tag of the unit")
        rd = lambda n: strip(I.read(st, ("f", S, n)))
        size = lambda n: ("app", "size", sizes(n))
        if out and rd("content_begin") != size(len(out)): H.bad("content begin", l, "records %s as the start of the content instead of the end of the start tag" % show(rd("content_begin")))
        if ns == 1 and at:
            if rd("insert_begin") != size(at): H.bad("insert begin", l, "does not record where the namespaces of the archive were put")
            if rd("insert_end") != size(after): H.bad("insert end", l, "does not record where the namespaces of the archive end")
        up = st.ts.get("up", ())
        call = st.truth(("init", ("f", S, "callupper")))
        n = sum(1 for u in up if u[0] == "start_unit")
        if call == 1 and n != 1: H.bad("upper", l, "announces a unit %d times" % n)
        if call == 0 and n: H.bad("upper", l, "announces a unit that is not to be announced")
        collect = st.truth(I.read(st, ("f", S, "collect_unit_body"))) if I.read(st, ("f", S, "collect_unit_body"))[0] != "int" else I.read(st, ("f", S, "collect_unit_body"))[1]
        coll = {"startElementNs": "start_element", "characters": "characters_unit", "ignorableWhitespace": "characters_unit", "comment": "comment", "cdataBlock": "cdata_block", "processingInstruction": "processing_instruction"}
        for n, w in coll.items():
            v = I.read(st, ("f", saxloc, n))
            fn = P.decls[v[1]]["n"] if v[0] == "fn" and v[1] in P.decls else None
            if v[0] in ("top", "loop"): continue
            if collect == 1 and fn is None: H.bad("handler " + n, l, "does not collect the %s events of the unit" % n)
            if collect == 1 and fn is not None and fn != w and HREG.get(fn) != HREG.get(w): H.bad("handler " + n, l, "lets %s collect the %s events of the unit" % (fn, n))
            if collect == 0 and fn == w: H.bad("handler off " + n, l, "collects the %s events of a unit whose body is not wanted" % n)
        if collect == 1 and st.ts.get("unitsrc", ())[:1] != (("cleared",),): H.bad("source", l, "keeps source text of an earlier unit")
        H.ok("handlers of a unit", )
    return H.viol, H.done


HREG = {}


def ending(P, usr):
    f = P.funcs[usr]
    H = Reader(f, END)
    ctxt = ("d", H.ctx)
    S = H.state = ("d", ("init", ("f", ctxt, "_private")))
    I = interp(P, f, H, S)
    saxloc = ("d", ("init", ("f", ctxt, "sax")))
    for o in I.analyze(f):
        st = o.st
        if o.kind != "ret" or st.truth(H.ctx) == 0 or st.truth(S[1]) == 0: continue
        l = f["line"]
        H.ok("paths of the end of a unit")
        up = [u[0] for u in st.ts.get("up", ())]
        to = [t[0] for t in st.ts.get("to", ())]
        if f["qn"] == "end_unit":
            if up.count("end_unit") != 1: H.bad("upper", l, "announces the end of the unit %d times" % up.count("end_unit"))
            for n, w in (("startElementNs", "start_unit"), ("characters", "characters_root"), ("ignorableWhitespace", "characters_root")):
                v = I.read(st, ("f", saxloc, n))
                fn = P.decls[v[1]]["n"] if v[0] == "fn" and v[1] in P.decls else None
                if fn != w and v[0] not in ("top", "loop"): H.bad("handler " + n, l, "does not set %s for what follows the unit" % w)
        else:
            if up.count("end_root") != 1: H.bad("upper", l, "announces the end of the root %d times" % up.count("end_root"))
            called = st.truth(("init", ("f", S, "rootcalled")))
            if called == 0 and (to.count("reparse_root") != 1 or up.count("end_unit") != 1): H.bad("delayed", l, "does not announce a root and unit without elements")
            if called == 1 and ("reparse_root" in to or "end_unit" in up): H.bad("delayed twice", l, "announces the root and its unit again")
        for n, a, ln in st.ts.get("up", ()):
            want = UPSTART if n.startswith("start_") and n not in ("start_document",) or n == "meta_tag" else END if n in ("end_unit", "end_root") else None
            if want and any(not param(H, y, r) for y, r in list(zip(a, want))[1:]): H.bad("pass " + n, ln, "does not pass on what ended")
    return H.viol, H.done


def rootstart(P, usr):
    """the start tag of the root is kept for later, and the first element decides whether this is an archive"""
    f = P.funcs[usr]
    H = Reader(f, SAXSTART)
    ctxt = ("d", H.ctx)
    S = H.state = ("d", ("init", ("f", ctxt, "_private")))
    I = interp(P, f, H, S)
    saxloc = ("d", ("init", ("f", ctxt, "sax")))
    first = f["qn"] == "first_start_element"
    isarch = ("f", ("d", ("init", ("f", S, "context"))), "is_archive")
    for o in I.analyze(f):
        st = o.st
        if o.kind != "ret" or st.truth(H.ctx) == 0 or st.truth(S[1]) == 0: continue
        l = f["line"]
        H.ok("paths of the start of the document")
        up = [u[0] for u in st.ts.get("up", ())]
        to = [t[0] for t in st.ts.get("to", ())]
        for n, a, ln in st.ts.get("up", ()):
            want = UPSTART if n in ("start_root", "start_unit", "meta_tag") else None
            if want and (len(a) != len(want) or any(not param(H, y, r) for y, r in list(zip(a, want))[1:])): H.bad("pass " + n, ln, "does not pass on to %s what started" % n)
        for n, a in st.ts.get("to", ()):
            want = SAXSTART if n in ("start_unit", "start_element") else None
            if want and (len(a) != len(want) or any(not param(H, y, r) for y, r in zip(a, want) if r != "nb_defaulted")): H.bad("pass " + n, l, "does not pass on to %s what started" % n)
        v = I.read(st, ("f", saxloc, "startElementNs"))
        fn = P.decls[v[1]]["n"] if v[0] == "fn" and v[1] in P.decls else None
        if not first:
            Pt = Path(H, I, st)
            if Pt.impossible(): continue
            tag = st.ts.get("rootstarttag", ())
            if "start_unit" not in to: H.bad("collect", l, "does not collect the start tag of a solitary unit")
            else:
                ok = tag[:1] == (("cleared",),) and len(tag) == 3 and tag[1][0] == "raw" and tag[2] == ("lit", "/>")
                if not ok and not any(p == ("?",) for p in tag): H.bad("root tag", l, "does not keep the start tag of the root for parsing it again")
                elif ok and lin(tag[1][1]) and lin(tag[1][2]) and not (Pt.same(lin(tag[1][1]), Pt.E) and Pt.same(Pt.add(lin(tag[1][1]), lin(tag[1][2])), lin(Pt.CUR))): H.bad("root tag", l, "does not keep exactly the start tag of the root")
            empty = Pt.char(lin(Pt.CUR), 47)
            cu = I.read(st, ("f", S, "callupper"))
            if cu[0] == "int" and cu[1] != 1: H.bad("callupper", l, "leaves the announcement of units switched off")
            if empty == 1 and (up.count("start_root"), up.count("start_unit")) != (1, 1): H.bad("empty", l, "announces an empty unit other than once")
            rc = I.read(st, ("f", S, "rootcalled"))
            if empty == 1 and rc != ("int", 1) and rc[0] not in ("top", "loop"): H.bad("rootcalled", l, "does not record that the root was announced")
            if empty == 0 and rc == ("int", 1): H.bad("rootcalled", l, "records that the root was announced before it is")
            if empty == 0 and up: H.bad("early", l, "announces the root before it is known whether it is an archive")
            if empty is None: H.bad("empty", l, "does not tell an empty unit from one with content")
            if fn != "first_start_element": H.bad("handler", l, "does not let the first element decide whether this is an archive")
            continue
        macro = truth_of(st, H, lambda t: t[1] == "==" and any(field(y) == "MACRO_LIST_ENTRY" for y in t[2:]))
        if macro == 1:
            if up != ["meta_tag"] or to: H.bad("macro", l, "does not announce a macro list as such")
            if fn is not None and fn != "first_start_element": H.bad("macro", l, "takes a macro list for the first element")
            continue
        if macro is None:
            H.bad("macro", l, "takes a macro list for the first element")
            continue
        unit = truth_of(st, H, lambda t: t[1] == "==" and any(field(y) == "UNIT_ENTRY" for y in t[2:]))
        if to.count("reparse_root") != 1: H.bad("root", l, "announces the root %d times" % to.count("reparse_root"))
        a = I.read(st, isarch)
        if a[0] == "init" and unit is not None: H.bad("archive", l, "does not record whether this is an archive")
        if unit == 1 and ("start_unit" not in to or "start_element" in to): H.bad("first unit", l, "does not start the first unit of an archive")
        if unit == 0 and ("start_element" not in to or "start_unit" in to): H.bad("first element", l, "does not collect the first element of a solitary unit")
        if unit == 1 and to and to[0] != "reparse_root": H.bad("order", l, "announces the first unit before the root")
        if unit == 0 and "start_element" in to and fn != "start_element": H.bad("handler", l, "does not collect the elements after the first")
        if unit == 1:
            uc = I.read(st, ("f", S, "unit_count"))
            if uc[0] == "init": H.bad("count", l, "counts the archive as a unit")
    return H.viol, H.done


NULLABLE = {9: {2: "prefix", 3: "URI"}, 8: {2: "prefix", 3: "URI"}, 4: {2: "prefix", 3: "URI"}, 3: {2: "data"}}


class Nulls(Hooks):
    def __init__(self, f, kind):
        self.f, self.viol, self.done = f, {}, {}
        ps = [("p", p["v"]) for p in f["params"]]
        self.null, self.arrays = {}, {}
        if kind == "start":
            self.null = {ps[-7 if len(ps) != 9 else 2]: "the prefix", ps[-6 if len(ps) != 9 else 3]: "the namespace URI"} if len(ps) in (7, 8) or len(ps) == 9 else {}
            if len(ps) == 7: self.null = {ps[1]: "the prefix", ps[2]: "the namespace URI"}
            if len(ps) == 8: self.null = {ps[2]: "the prefix", ps[3]: "the namespace URI"}
            self.arrays = {ps[-1]: (5, (1, 2)), ps[{7: 4, 8: 5, 9: 5}[len(ps)]]: (2, (0,))}
        elif kind == "end": self.null = {ps[-2]: "the prefix", ps[-1]: "the namespace URI"}
        elif kind == "pi": self.null = {ps[-1]: "the data of a processing instruction"}
        elif kind == "attrs": self.arrays = {ps[-1]: (5, (1, 2))}

    def call(self, I, st, qn, args, x, fr):
        if qn.startswith("std::basic_string::") or qn.startswith("std::operator"):
            for a in args:
                if a[0] in ("p", "init", "app"): self.deref(I, st, a, x, fr)

    def deref(self, I, st, t, x, fr):
        while t[0] == "app" and t[1] == "cast": t = t[2]
        self.done["uses of what libxml2 passes"] = self.done.get("uses of what libxml2 passes", 0) + 1
        what = self.null.get(t)
        if what is None and t[0] == "init" and t[1][0] == "ix" and t[1][1][0] == "d":
            arr = t[1][1][1]
            if arr in self.arrays:
                step, nul = self.arrays[arr]
                r = residue(t[1][2], step)
                if r in nul: what = "the prefix of a namespace or attribute" if r != 2 else "the namespace of an attribute"
        if what and st.truth(t) != 1:
            self.viol["null %s %s" % (self.f["qn"], what)] = (fr.fi.f["file"], x.get("l") or self.f["line"], "%s uses %s, which may be missing, without checking" % (self.f["qn"], what))


def residue(t, step):
    """an index modulo the size of an entry"""
    l = lin(t)
    if l is None: return None
    for a, c in l[1].items():
        if a[0] == "app" and a[1] == "*" and any(y == ("int", step) for y in a[2:]): continue
        if c % step: return None
    return l[0] % step


def nulls(P, job):
    usr, kind = job
    f = P.funcs[usr]
    H = Nulls(f, kind)
    I = Interp(P, hooks=H, budget=200000)
    try:
        for o in I.analyze(f): H.done["paths with missing values"] = H.done.get("paths with missing values", 0) + 1
    except BudgetExceeded: pass
    return H.viol, H.done


def reparse(P, usr):
    """the start tag of the root is parsed again, exactly, and announces the root and a solitary unit"""
    f = P.funcs[usr]
    if f.get("lambda"):
        if len(f["params"]) != 9: return {}, {}
        H = Reader(f, SAXSTART)
        ctxt = ("d", H.ctx)
        S = H.state = ("d", ("init", ("f", ctxt, "_private")))
        I = interp(P, f, H, S)
        for o in I.analyze(f):
            st = o.st
            if o.kind != "ret" or st.truth(H.ctx) == 0 or st.truth(S[1]) == 0: continue
            up = [u[0] for u in st.ts.get("up", ())]
            l = f["line"]
            H.ok("announcements of the root")
            arch = st.truth(("init", ("f", ("d", ("init", ("f", S, "context"))), "is_archive")))
            if up.count("start_root") != 1: H.bad("root", l, "announces the root %d times" % up.count("start_root"))
            if arch == 0 and up.count("start_unit") != 1: H.bad("unit", l, "announces a solitary unit %d times" % up.count("start_unit"))
            if arch != 0 and "start_unit" in up: H.bad("unit archive", l, "announces an archive as a unit")
            if up[:1] == ["start_unit"]: H.bad("order", l, "announces the unit before its root")
            for n, a, ln in st.ts.get("up", ()):
                if n in ("start_root", "start_unit") and (len(a) != 8 or any(not param(H, y, r) for y, r in list(zip(a, UPSTART))[1:])): H.bad("pass " + n, ln, "does not pass on to %s what started" % n)
        return H.viol, H.done
    H = Reader(f, ("ctx",))
    S = H.state = ("d", ("init", ("f", ("d", H.ctx), "_private")))
    parsed = []

    class R(Reader):
        def call(self, I, st, qn, args, x, fr):
            Reader.call(self, I, st, qn, args, x, fr)
            if qn == "xmlCreateMemoryParserCtxt": st.ts["made"] = tuple(args)
            elif qn == "xmlParseDocument": st.ts["parsed"] = min(2, st.ts.get("parsed", 0) + 1)
    H.__class__ = R
    I = interp(P, f, H, S)
    for o in I.analyze(f):
        st = o.st
        if o.kind != "ret" or st.truth(H.ctx) == 0 or st.truth(S[1]) == 0: continue
        made = st.ts.get("made")
        if made is None: continue
        H.ok("roots parsed again")
        l = f["line"]
        tag = ("init", ("f", S, "rootstarttag"))
        if tag not in subterms(made[0]): H.bad("tag", l, "parses something else than the start tag of the root")
        n = strip(made[1])
        if n != ("app", "size", tag) and n[0] == "app": H.bad("size", l, "does not parse all of the start tag of the root")
        if st.ts.get("parsed", 0) > 1: H.bad("parsed", l, "announces the root more than once")
        if st.ts.get("parsed", 0) == 1:
            rc = I.read(st, ("f", S, "rootcalled"))
            if rc[0] == "init" or rc == INT0: H.bad("rootcalled", l, "does not record that the root was announced")
    return H.viol, H.done


def begun(P, usr):
    """what is counted and collected starts anew with each unit"""
    f = P.funcs[usr]
    viol, done = {}, {}
    I = Interp(P, hooks=Hooks(), budget=200000)
    I.opaque |= {"unit_update_attributes", "srcml_reader_handler::pause"}
    this = ("d", ("p", "this"))
    for o in I.analyze(f):
        if o.kind != "ret": continue
        st = o.st
        for l, v in st.mem.items():
            if l[0] == "f" and l[2] == "collect_unit_body" and l[1] != this and v[0] == "init" and v[1] != ("f", this, "collect_unit_body") or l[0] == "f" and l[2] == "collect_unit_body" and l[1] != this and v[0] == "int":
                viol["begin collect"] = (f["file"], f["line"], "%s does not pass on whether the body of the unit is wanted" % f["qn"])
        if any(t[0] == "call" and t[-1].endswith("::pause") and st.truth(t) == 0 for t in st.facts if isinstance(t, tuple)): continue     # the reading is given up
        done["starts of units read"] = done.get("starts of units read", 0) + 1
        locs = [v for l, v in st.mem.items() if l[0] == "f" and l[2] == "loc" and l[1] != this]
        if not any(v == INT0 or v[0] in ("top", "loop") for v in locs): viol["begin loc"] = (f["file"], f["line"], "%s lets a unit count on with the lines of the one before" % f["qn"])
    return viol, done


def moved(P, usr):
    """at the end of a unit, what was collected becomes that of the unit, field by field"""
    f = P.funcs[usr]
    viol, done = {}, {}
    H = Hooks()
    I = Interp(P, hooks=H, budget=200000)
    this = ("d", ("p", "this"))
    unit = ("d", ("init", ("f", this, "unit")))
    for o in I.analyze(f):
        st = o.st
        want = st.truth(("init", ("f", this, "collect_unit_body")))
        if o.kind != "ret" or want != 1: continue
        done["ends of units read"] = done.get("ends of units read", 0) + 1
        for n, m in (("content_begin",) * 2, ("content_end",) * 2, ("insert_begin",) * 2, ("insert_end",) * 2, ("srcml", "unitsrcml"), ("src", "unitsrc"), ("loc", "loc")):
            v = I.read(st, ("f", unit, n))
            if v[0] in ("top", "loop", "call"): continue
            if v[0] == "some": v = v[1]
            s = show(v)
            names = {field(y) for y in subterms(v) if isinstance(y, tuple) and y and y[0] == "init"} & {"content_begin", "content_end", "insert_begin", "insert_end", "unitsrcml", "unitsrc", "loc", "srcml", "src"}
            if v == ("init", ("f", unit, n)) or names and m not in names:
                viol["moved " + n] = (f["file"], f["line"], "%s gives the unit %s as its %s" % (f["qn"], s if v[0] != "init" or field(v) != n else "nothing", n))
    return viol, done


SOFT = [3000]


def job(P, j):
    for soft in (3000, 150):
        SOFT[0] = soft
        try: return j[0](P, j[1])
        except BudgetExceeded: pass
    return {}, {"functions not analysed completely": 1}


def run_check():
    P = facts.load(("libsrcml", "parser"))
    R = Report("C18", "The SAX callbacks are interpreted over symbolic positions of the parser's buffer, compared as linear forms. Inside a unit every piece of markup appended starts where the one before "
               "ended, and the position kept afterwards is where the last one ended, so that the markup is the input without gap or overlap; the position follows every move of the buffer. Text and CDATA are added "
               "to the source exactly once. Units, roots and macro lists are told apart, announced once, with what was parsed; what may be missing in a callback is checked before it is used.")
    F = sax_fields(P)
    jobs = []
    kinds = {"characters": "text", "ignorableWhitespace": "text", "comment": "comment", "cdataBlock": "cdata", "processingInstruction": "pi", "endElementNs": "end"}
    roles = {"text": ("ctx", "ch", "len"), "comment": ("ctx", "value"), "cdata": ("ctx", "value", "len"), "pi": ("ctx", "target", "data"), "end": END, "start": SAXSTART, "root": ("ctx", "ch", "len")}
    mine = lambda u: u in P.funcs and "sax2_srcsax_handler" in P.funcs[u]["file"] and not P.funcs[u].get("lambda")
    for q, n in (("start_unit", 9), ("start_element", 9), ("first_start_element", 9), ("start_root", 9)):
        for f in P.fns(q):
            if len(f["params"]) == n: F.setdefault("startElementNs", set()).add(f["usr"])
    for f in P.funcs.values():
        if "sax2_srcsax_handler.cpp" in f["file"] and (f["qn"] == "reparse_root" or f.get("lambda") and f["qn"].startswith("reparse_root") and not f["qn"].endswith("__invoke")): jobs.append((reparse, f["usr"]))
    seen = set()
    for fld, fns in sorted(F.items()):
        for u in sorted(fns):
            if not mine(u) or u in seen: continue
            seen.add(u)
            q = P.funcs[u]["qn"]
            if fld == "startElementNs":
                jobs.append((start, u) if q == "start_unit" else (content, (u, SAXSTART, "start")) if q == "start_element" else (rootstart, u))
                jobs.append((nulls, (u, "start")))
            elif fld in kinds:
                k = "root" if q.endswith("_root") else kinds[fld]
                jobs.append((content, (u, roles[k], k)))
                if k == "pi": jobs.append((nulls, (u, "pi")))
                if k == "end": jobs.append((nulls, (u, "end")))
    for q in ("end_unit", "end_root"):
        for f in P.fns(q):
            jobs.append((ending, f["usr"]))
            jobs.append((nulls, (f["usr"], "end")))
    for f in P.funcs.values():
        c = notmpl(f["qn"])
        if c.startswith("srcml_reader_handler::"):
            n = len(f["params"])
            if c.endswith("::startUnit"): jobs.append((begun, f["usr"]))
            if c.endswith("::startRoot") or c.endswith("::startUnit") or c.endswith("::metaTag"): jobs.append((nulls, (f["usr"], "start")))
            elif c.endswith("::processingInstruction"): jobs.append((nulls, (f["usr"], "pi")))
            elif c.endswith("::endUnit"): jobs += [(nulls, (f["usr"], "end")), (moved, f["usr"])]
        elif c == "unit_update_attributes": jobs.append((nulls, (f["usr"], "attrs")))
    total = {}
    for viol, done in pmap(lambda j: job(P, j), jobs):
        for k, v in done.items(): total[k] = total.get(k, 0) + v
        for k, (file, l, t) in viol.items(): R.violation(k, "%s:%s" % (file.replace("/repo/", ""), l), t)
    for k, v in sorted(total.items()):
        R.ok("%s: %d" % (k, v), v)
        R.count(k, v)
    R.require("paths of the callbacks inside a unit", total.get("paths of the callbacks inside a unit", 0), 10)
    R.require("start tags", total.get("start tags", 0), 1)
    R.require("ends of content", total.get("ends of content", 0), 1)
    R.require("ends of units read", total.get("ends of units read", 0), 1)
    return R.finish(P)
