"""C21: transformations are applied in order to every result of the one before, and a result has one type with its value."""
import json
from .. import facts, api
from ..interp import *
from ..effects import effects
from ..report import Report
from ..absapi import OBJ, OBJLOC

INT1 = ("int", 1)
UNITS, BOOL, NUMBER, STRING = 1, 2, 3, 4
ACCESS = {"srcml_transform_get_unit": UNITS, "srcml_transform_get_unit_size": UNITS, "srcml_transform_get_bool": BOOL, "srcml_transform_get_number": NUMBER, "srcml_transform_get_string": STRING}
NEUTRAL = {"srcml_transform_get_unit": INT0, "srcml_transform_get_unit_size": INT0, "srcml_transform_get_bool": ("int", -1), "srcml_transform_get_string": INT0}
NAMES = {0: "no result", 1: "units", 2: "a boolean", 3: "a number", 4: "a string"}


def where(f, l=None): return "%s:%s" % (f["file"].replace("/repo/", ""), l or f["line"])


def inits(t, out):
    """locations whose initial contents a term depends on"""
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "init": out.add(t[1])
        for y in t: inits(y, out)
    return out


def one(P, n):
    f = [f for f in P.fns(n) if f.get("blocks")]
    if len(f) != 1: raise facts.AnalysisBroken("C21: function %s not found" % n)
    return f[0]


# ------------------------------------------------------------------ the accessors
def accessors(P, R):
    f = one(P, "srcml_transform_get_type")
    locs = set()
    for o in Interp(P, max_depth=2).analyze(f, args={0: OBJ}):
        if o.kind == "ret" and o.val[0] != "int": inits(o.val, locs)
    if len(locs) != 1: raise facts.AnalysisBroken("C21: the type of a result is not held in one place: %s" % locs)
    typeloc = list(locs)[0]
    pay = {}
    for n, T in sorted(ACCESS.items()):
        f = one(P, n)
        for t in range(5):
            def setup(I, st, fr):
                st.mem[typeloc] = ("int", t)
                st.assume(OBJ, True)
            for o in Interp(P, max_depth=3).analyze(f, setup=setup, args={0: OBJ}):
                if o.kind != "ret": continue
                src = {l for l in inits(o.val, set()) if l != typeloc}
                const = o.val[0] in ("int", "flt") or o.val == NEUTRAL.get(n)
                if t != T and not const:
                    R.violation("%s|%d" % (n, t), where(f), "%s answers %s although the result is %s" % (n, show(o.val), NAMES[t]))
                elif t != T and n in NEUTRAL and o.val != NEUTRAL[n]:
                    R.violation("%s|%d|neutral" % (n, t), where(f), "%s answers %s instead of %s when the result is %s" % (n, show(o.val), show(NEUTRAL[n]), NAMES[t]))
                else: R.ok({"accessor": n, "type": NAMES[t], "answer": show(o.val)})
                if t == T: pay.setdefault(n, set()).update(src)
        if not pay.get(n): R.violation("%s|never" % n, where(f), "%s never answers with the value of the result" % n)
    return typeloc, pay


# ------------------------------------------------------------------ building the list
class Appends(Hooks):
    def __init__(self): self.loc = None

    def call(self, I, st, qn, args, x, fr):
        n = qn.split("::")[-1]
        if n not in ("push_back", "emplace_back", "push_front", "emplace_front", "insert", "emplace", "clear", "pop_back", "erase", "resize", "assign") or not args: return
        l = I.deref_loc(args[0]) if args[0][0] != "L" else args[0][1]
        vals = tuple(self.value(I, st, a) for a in args[1:])
        st.ts["ops"] = st.ts.get("ops", ()) + ((n, l, vals, x.get("l")),)

    def value(self, I, st, a):
        return plain(I.read(st, a[1]) if a[0] == "L" else a)


def listops(st): return st.ts.get("ops", ())


def analysed(P, E, f, **kw):
    I = Interp(P, Appends(), max_depth=4, budget=60000, inline_filter=lambda g, fr: "/src/libsrcml/" in g["file"] and not g["qn"].endswith("::apply") and not (g["qn"].split("::")[-1].startswith("~")), effects=E)
    return I, I.analyze(f, **kw)


def plain(v):
    """a string and the characters it was made from are the same text"""
    while isinstance(v, tuple) and v and v[0] in ("strof", "cstr") and len(v) == 2: v = v[1]
    return v


def flat(v, out):
    """parts of a concatenation"""
    v = plain(v)
    if v[0] == "app" and ("operator+" in str(v[1]) or "append" in str(v[1])):
        for y in v[2:]: flat(y, out)
    else: out.append(v)
    return out


def appends(P, E, R):
    pub = api.public(P)
    names = sorted(n for n in pub if n.startswith("srcml_append_transform_") and "param" not in n)
    f0 = pub["srcml_append_transform_xpath"]
    listloc = {}
    n = 0
    for name in names:
        f = pub[name]
        arch = ("p", f["params"][0]["v"])
        I, outs = analysed(P, E, f)
        okpaths = 0
        for o in outs:
            if o.kind != "ret": continue
            ops = [(k, l[2], v, ln, l) for k, l, v, ln in listops(o.st) if l[0] == "f" and l[1] == ("d", arch)]
            n += 1
            if o.val != INT0:
                if ops: R.violation("%s|failed" % name, where(f, ops[0][3]), "%s changes the list of transformations (%s) although it fails with %s" % (name, ops[0][0], show(o.val)))
                else: R.ok()
                continue
            okpaths += 1
            if not ops:
                # the attribute completes the transformation appended last
                wr = {l[-1]: plain(v) for l, v in o.st.mem.items() if l[0] == "f" and "back" in str(l) and within(("d", arch), l)}
                ps = {("p", p["v"]): p["n"] for p in f["params"][2:]}
                got = {v for v in wr.values()}
                if not name.endswith("_attribute") or not set(ps) <= got:
                    R.violation("%s|none" % name, where(f), "%s reports success without appending a transformation%s" % (name, " or completing the last one" if name.endswith("_attribute") else ""))
                else:
                    listloc.setdefault("merge", []).append((f, {ps[v]: k for k, v in wr.items() if v in ps}))
                    R.ok({"function": name, "effect": "completes the last transformation"})
                continue
            if [k for k, *_ in ops] not in (["push_back"], ["emplace_back"]):
                R.violation("%s|once" % name, where(f, ops[0][3]), "%s changes the list by %s, not by one transformation at its end" % (name, ", ".join(k for k, *_ in ops)))
                continue
            listloc.setdefault("list", set()).add(ops[0][1])
            new = ops[0][2][0] if ops[0][2] else None
            R.ok({"function": name, "effect": "one transformation at the end"})
            if "xpath" in name and new is not None:
                obj = new[1] if new[0] in ("addr", "obj") else ("d", new)
                have = {l[2]: plain(v) for l, v in o.st.mem.items() if l[0] == "f" and l[1] == obj}
                fields(R, f, name, have, listloc, I, o.st)
        if not okpaths: R.violation("%s|never" % name, where(f), "%s never succeeds" % name)
    if len(listloc.get("list", ())) != 1: raise facts.AnalysisBroken("C21: the transformations are not in one list: %s" % listloc.get("list"))
    lst = list(listloc["list"])[0]
    # what a merged attribute sets is what a new transformation would have
    fresh = listloc.get("fresh", {}).get("srcml_append_transform_xpath_attribute", {})
    for f, m in listloc.get("merge", ()):
        for p, k in m.items():
            if fresh.get(p) and fresh[p] != k: R.violation("merge|" + p, where(f), "%s: an attribute that completes the last transformation stores %s in %s, a new one in %s" % (f["qn"], p, k, fresh[p]))
            else: R.ok()
    x, e = listloc.get("fresh", {}).get("srcml_append_transform_xpath_element", {}), fresh
    if x and e:
        both = set(x[p] for p in x if p not in ("xpath_string",)) & set(e[p] for p in e if p != "xpath_string")
        if both: R.violation("fields", where(f0), "the element and the attribute of an XPath transformation share %s" % ", ".join(sorted(both)))
        else: R.ok()
    R.cov["append functions"] = len(names)
    R.require("append functions", len(names), 9)
    return lst


def fields(R, f, name, have, listloc, I, st):
    """every argument is kept in a field of its own"""
    keep = listloc.setdefault("fresh", {}).setdefault(name, {})
    used = {}
    for p in f["params"][1:]:
        s = ("p", p["v"])
        fs = sorted(k for k, v in have.items() if v == s)
        if len(fs) != 1:
            R.violation("%s|%s" % (name, p["n"]), where(f), "%s keeps %s in %s of the transformation" % (name, p["n"], " and ".join(fs) or "no field"))
            continue
        if keep.setdefault(p["n"], fs[0]) != fs[0]: R.violation("%s|%s|field" % (name, p["n"]), where(f), "%s keeps %s in different fields" % (name, p["n"]))
        else: R.ok()


def params(P, E, R, lst):
    pub = api.public(P)
    for name, quoted in (("srcml_append_transform_param", False), ("srcml_append_transform_stringparam", True)):
        f = pub[name]
        arch, pn, pv = [("p", p["v"]) for p in f["params"]]
        I, outs = analysed(P, E, f)
        ok = 0
        for o in outs:
            if o.kind != "ret": continue
            ops = listops(o.st)
            ops = [q for q in ops if within(("d", arch), q[1])]
            if o.val != INT0:
                if ops: R.violation("%s|failed" % name, where(f, ops[0][3]), "%s changes parameters although it fails with %s" % (name, show(o.val)))
                else: R.ok()
                continue
            ok += 1
            tgt = {q[1] for q in ops}
            seq = [q[2][0] if q[2] else None for q in ops]
            if [q[0] for q in ops] not in (["push_back"] * 2, ["emplace_back"] * 2) or len(tgt) != 1:
                R.violation("%s|pair" % name, where(f), "%s does not append a name and a value to one transformation (%s)" % (name, ", ".join(q[0] for q in ops)))
                continue
            t = list(tgt)[0]
            if not ("back" in repr(t) and t[0] == "f" and ("f", ("d", arch), lst) in pathof(t)):
                R.violation("%s|last" % name, where(f), "%s appends the parameter to %s, not to the transformation appended last" % (name, show(t)))
                continue
            if seq[0] != pn:
                R.violation("%s|name" % name, where(f), "%s appends %s where the name of the parameter belongs" % (name, show(seq[0])))
                continue
            parts = flat(seq[1], [])
            if not quoted and seq[1] != pv:
                R.violation("%s|value" % name, where(f), "%s appends %s instead of the value" % (name, show(seq[1])))
            elif quoted and not (len(parts) == 3 and parts[1] == pv and parts[0] == parts[2] and parts[0] in (("str", '"'), ("str", "'"))):
                R.violation("%s|value" % name, where(f), "%s appends %s, which is not the value in quotes" % (name, show(seq[1])))
            else: R.ok({"function": name, "parameter": [show(s) for s in seq]})
        if not ok: R.violation("%s|never" % name, where(f), "%s never succeeds" % name)
    f = pub["srcml_clear_transforms"]
    arch = ("p", f["params"][0]["v"])
    I, outs = analysed(P, E, f)
    for o in outs:
        if o.kind != "ret" or o.val != INT0: continue
        if not any(k == "clear" and l == ("f", ("d", arch), lst) for k, l, v, ln in listops(o.st)) and o.st.mem.get(("f", ("d", arch), lst), ("?",))[0] not in ("cleared",) and "cleared" not in repr(o.st.mem.get(("f", ("d", arch), lst))):
            R.violation("clear", where(f), "srcml_clear_transforms reports success without clearing the transformations")
        else: R.ok({"function": "srcml_clear_transforms", "effect": "cleared"})


def within(a, t):
    return t == a or isinstance(t, tuple) and any(within(a, y) for y in t)


def pathof(l):
    """the locations an access path goes through"""
    out = set()

    def walk(t):
        if isinstance(t, tuple):
            if len(t) >= 3 and t[0] == "f": out.add(t)
            for y in t: walk(y)
    walk(l)
    return out


# ------------------------------------------------------------------ what each kind of transformation answers
class Answers(Hooks):
    def __init__(self, cls, fi, P):
        self.out = []
        self.cls = cls
        self.bad = {}
        self.first, self.copies, self.given = False, 0, 0
        qn = lambda x: notmpl(P.decls.get(x.get("fn"), {}).get("qn", ""))
        ls = loops(fi)
        ab = blockof(fi, lambda x: qn(x) == "xmlXPathNodeSetAdd") if cls == "xsltTransformation" else []
        cb = blockof(fi, lambda x: "=" == x.get("op") and x["k"] == "BinaryOperator" and "xsl_parameters" in json.dumps(sub(fi, x["ops"][1]))) if cls == "xsltTransformation" else []
        self.copy = [innermost(ls, b, "copying")[1] for b in cb if any(b in l for l in ls.values())]
        self.head, self.body = innermost(ls, ab[0], "adding") if len(ab) == 1 and any(ab[0] in b for b in ls.values()) else (None, ())

    # ---- the parameters of a stylesheet
    def write(self, I, st, loc, val, x, fr):
        if loc[0] != "ix" or val[0] != "cstr": return
        o = val[1][1] if val[1][0] in ("init", "L", "addr") else val[1]
        if not (isinstance(o, tuple) and o and o[0] == "ix" and o[1][0] == "f" and o[1][2] == "xsl_parameters"): return
        self.copies += 1
        if o[2] == INT0 or o[2][0] != "int" and o[2][0] != "loop": self.first = True
        if loc[2] != o[2]: self.bad.setdefault("parameters", (x.get("l"), "passes the parameters on out of order"))

    def call(self, I, st, qn, args, x, fr):
        if args and show(args[0]).endswith("xsltApplyStylesheetUser") or qn.startswith("xsltApplyStylesheet"):
            self.given += 1
            a = args[-4] if len(args) > 5 else args[-1]
            if a == INT0: self.bad.setdefault("noparameters", (x.get("l"), "applies the stylesheet without its parameters"))
        if qn == "xmlXPathNodeSetAdd" and fr.parent is None and self.head is not None: st.ts["added"] = args[1]

    # ---- the elements that a stylesheet produced
    def branch(self, I, st, term, val, fr):
        if fr.parent is not None or self.cls != "xsltTransformation": return
        st.ts["last"] = "xsl_parameters" in repr(term)
        n, t = 0, term
        while t[0] == "app" and (t[1] == "!" or t[1] == "==" and len(t) == 4 and t[3] == INT0): n, t = n + 1, t[2]
        if val == (n % 2 == 1) and (t[0] == "loop" or t[0] != "app" and show(t).endswith("->next")): st.ts["nomore"] = True
        if t[0] == "app" and t[1] == "==" and t[3] == INT1 and show(t[2]).endswith("->type"): st.ts["elem"] = (int(bool(val) != bool(n % 2)), show(t[2])[:-6])

    def edge(self, I, st, a, b, fr):
        if fr.parent is not None or self.head is None: return
        if any(a in l and b not in l for l in self.copy) and not st.ts.get("last"): self.bad.setdefault("parameters", (None, "leaves out parameters"))
        if b == self.head: st.ts["nomore"] = True
        inl, wasin = b in self.body, a in self.body
        if b == self.head and wasin:
            e, t = st.ts.get("elem"), st.ts.get("added")
            if t is None and (e is None or e[0]): self.bad.setdefault("elements", (None, "leaves out elements that the stylesheet produced"))
            if t is not None and e is not None and show(t) != e[1]: self.bad.setdefault("elements", (None, "answers %s for each element that the stylesheet produced" % show(t)))
        elif wasin and not inl and a != self.head and ("elem" in st.ts or "added" in st.ts): self.bad.setdefault("elements", (None, "leaves out elements that the stylesheet produced"))
        if b == self.head:
            st.ts.pop("elem", None)
            st.ts.pop("added", None)

    def ret(self, I, st, val, el, fr):
        if fr.parent is not None or el is None: return
        if not val or val[0] != "obj": raise facts.AnalysisBroken("C21: what %s returns is not known" % fr.fi.f["qn"])
        loc = val[1]
        v = {k: I.read(st, ("f", loc, k)) for k in FIELDS}
        self.out.append((v, dict(st.facts), st.copy(), el.get("l")))
        if self.cls == "xsltTransformation" and v["failed"] == INT0 and v["nodeType"] == INT1 and "nomore" not in st.ts:
            self.bad.setdefault("more", (el.get("l"), "may leave out elements that follow the first one that the stylesheet produced"))


FIELDS = ("nodeType", "nodeset", "numberValue", "boolValue", "stringValue", "failed", "unitWrapped", "doc")
NATIVE = {"xmlXPathCompiledEval": "the expression cannot be evaluated", "xsltApplyStylesheetUser": "the stylesheet cannot be applied"}


def applies(P, E, R):
    n = 0
    for f in sorted(P.funcs.values(), key=lambda f: f["qn"]):
        if not f["qn"].endswith("Transformation::apply") or not f.get("blocks"): continue
        n += 1
        cls = f["cls"]
        h = Answers(cls, Interp(P, None, effects=E).fi(f), P)
        I = Interp(P, h, max_depth=4, budget=60000, inline_filter=lambda g, fr: g.get("cls") == "TransformationResult" or notmpl(g["qn"]).startswith("std::unique_ptr") or
                   (g["file"] == f["file"] and g.get("cls") in (None, cls) and ("TransformationResult" in P.typestr(g["ret"]) if hasattr(P, "typestr") else len(g["blocks"]) <= 4) and g is not f), effects=E)
        I.analyze(f)
        if not h.out: raise facts.AnalysisBroken("C21: %s has no result" % f["qn"])
        for v, fa, st, l in h.out: answer(P, R, f, v, st, l)
        if h.copies and not h.first: h.bad.setdefault("parameters", (None, "leaves out the first parameters"))
        if h.given: R.ok({"transformation": cls, "parameters": "%d applications" % h.given}, h.given)
        for k, (l, t) in h.bad.items(): R.violation("%s|%s" % (cls, k), where(f, l), "%s %s" % (f["qn"], t))
    R.require("kinds of transformation", n, 3)


def field(t, name):
    """does the term read the field of a libxml2 object"""
    return any(l[0] == "f" and l[2] == name for l in inits(t, set()))


def answer(P, R, f, v, st, l):
    cls = f["cls"]
    if v["failed"] not in (INT0, INT1): raise facts.AnalysisBroken("C21: whether %s failed is not known" % f["qn"])
    known = {show(t): c for t, c in st.facts.items()}
    val = lambda s: next((c for t, c in known.items() if t.endswith(s)), None)
    single = lambda c: c[0] if c and c[0] == c[1] else None
    is0 = lambda c: c is not None and c[0] == c[1] == 0
    failed = v["failed"] == INT1
    ty = st.con(v["nodeType"])
    k = single(ty)
    bad = lambda key, text: R.violation("%s|%s" % (cls, key), where(f, l), "%s %s" % (f["qn"], text))
    for n, text in NATIVE.items():
        if is0(known.get("result of " + n)) and not failed: return bad("failure", "reports no failure although %s" % text)
    if failed:
        if any(known.get("result of " + n) and not is0(known["result of " + n]) and 0 in known["result of " + n][2] for n in NATIVE): return bad("fails", "reports a failure although the evaluation succeeded")
        return R.ok({"transformation": cls, "answer": "failure"})
    t = single(val("xmlXPathCompiledEval->type"))
    if t in (BOOL, NUMBER, STRING):
        p, native = {BOOL: ("boolValue", "boolval"), NUMBER: ("numberValue", "floatval"), STRING: ("stringValue", "stringval")}[t]
        if k != t: return bad("type|%d" % t, "answers with type %s for an expression that is %s" % (k, NAMES[t]))
        if not reads(v[p], native): return bad("value|%d" % t, "answers %s for an expression that is %s" % (show(v[p]), NAMES[t]))
        if v["nodeset"] != INT0: return bad("set|%d" % t, "answers with nodes for an expression that is %s" % NAMES[t])
        return R.ok({"transformation": cls, "answer": NAMES[t]})
    if val("xmlRelaxNGValidateDoc") is not None or cls == "relaxngTransformation":
        ok = is0(val("xmlRelaxNGValidateDoc"))
        if (k == UNITS) != ok: return bad("valid", "answers %s for a document that is %s" % (NAMES.get(k, k), "valid" if ok else "not valid"))
    if t is None and cls == "xpathTransformation": return      # no other type of expression is documented
    if k == STRING:
        if not (reads(v["stringValue"], "xmlNodeListGetRawString") or is0(val("xmlNodeListGetRawString"))): return bad("text", "answers %s for a result that is text" % show(v["stringValue"]))
        return R.ok({"transformation": cls, "answer": "text"})
    if k not in (0, UNITS): return bad("type", "answers with type %s for nodes" % (k if k is not None else show(v["nodeType"])))
    if (k == UNITS) != (v["nodeset"] != INT0): return bad("nodes|%d" % k, "answers with type %s and %s nodes" % (NAMES[k], "no" if v["nodeset"] == INT0 else "with"))
    if k == 0 and cls == "xpathTransformation":
        c = val("->nodesetval->nodeNr")
        if not (is0(val("->nodesetval")) or is0(c)): return bad("dropped", "answers that there is no result although nodes were selected")
    if k == 0 and cls == "xsltTransformation" and not is0(val("->children")): return bad("dropped", "answers that there is no result although the stylesheet produced one")
    R.ok({"transformation": cls, "answer": NAMES[k]})


def reads(t, name):
    """the term is that value (a boolean may be negated twice)"""
    n, s = 0, show(t)
    while s.startswith("!("): n, s = n + 1, s[2:-1]
    return n % 2 == 0 and (s.endswith("->" + name) or s == "result of " + name)


# ------------------------------------------------------------------ applying them
def loops(fi):
    """header -> blocks of the loop"""
    pred = {}
    for b in fi.blocks:
        for t in fi._succ(b): pred.setdefault(t, set()).add(b)
    out = {}
    for n, h in fi.backedges:
        body, todo = {h}, [n]
        while todo:
            b = todo.pop()
            if b in body: continue
            body.add(b)
            todo += pred.get(b, ())
        out.setdefault(h, set()).update(body)
    return out


def blockof(fi, pick):
    """blocks with an expression that is picked"""
    return sorted({b["id"] for b in fi.blocks.values() for e in b["el"] if e["k"] == "E" and pick(fi.ex[e["id"]])})


def sub(fi, i):
    x = fi.ex[i]
    return [x] + [sub(fi, o) for o in x.get("ops", ())]


def innermost(ls, b, what):
    c = sorted((len(body), h) for h, body in ls.items() if b in body)
    if not c: raise facts.AnalysisBroken("C21: %s is not in a loop" % what)
    return c[0][1], ls[c[0][1]]


class Applying(Hooks):
    def __init__(self, f, fi, P, lst, res, unitvec):
        self.P, self.f = P, f
        self.par = [("p", p["v"]) for p in f["params"]]
        self.helpers = set()
        self.afn, self.ahead, self.aloop = self.loopof(fi, lambda q: q.endswith("Transformation::apply"), "the application of a transformation")
        self.ufn, self.uhead, self.uloop = self.loopof(fi, lambda q: q == "srcml_unit_clone", "the creation of a result unit")
        self.res, self.unitvec = res, unitvec
        self.bad = {}
        self.n = 0

    def loopof(self, fi, target, what):
        """the function, and the loop in it, that does that for each node: the function itself or a helper in its file"""
        cands = {g["usr"]: g for g in self.P.funcs.values() if g["file"] == self.f["file"] and g.get("blocks") and (g is self.f or not g["qn"].startswith("srcml_"))}
        callees = lambda g: [(e["id"], x.get("fn")) for e in (e for b in g["blocks"] for e in b["el"] if e["k"] == "E") for x in [g["exprs"][str(e["id"])] if str(e["id"]) in g["exprs"] else g["exprs"][e["id"]]] if x.get("fn")]
        calls = {u: callees(g) for u, g in cands.items()}
        hit = {u for u, c in calls.items() if any(target(notmpl(self.P.decls.get(t, {}).get("qn", ""))) for i, t in c)}
        wanted, level = set(hit), set(hit)
        done = set()
        while level:
            for u in sorted(level):
                gi = fi if cands[u] is self.f else Interp(self.P, None).fi(cands[u])
                bs = blockof(gi, lambda x: x.get("fn") in done or target(notmpl(self.P.decls.get(x.get("fn"), {}).get("qn", ""))))
                ls = loops(gi)
                bs = [b for b in bs if any(b in body for body in ls.values())]
                if len(bs) > 1: raise facts.AnalysisBroken("C21: %s is at %d places" % (what, len(bs)))
                if bs:
                    self.helpers |= wanted | self.callers(calls, u)
                    h, body = innermost(ls, bs[0], what)
                    return cands[u], h, body
            done |= level
            level = {u for u, c in calls.items() if u not in done and any(t in done for i, t in c)}
            wanted |= level
        raise facts.AnalysisBroken("C21: %s is not in a loop" % what)

    def callers(self, calls, u):
        out = {u}
        while True:
            n = {v for v, c in calls.items() if any(t in out for i, t in c)} - out
            if not n: return out
            out |= n

    def note(self, key, l, text): self.bad.setdefault(key, (l, text))

    # ---- the transformations
    def settle(self, I, st, l):
        """what the last application answered has been taken care of"""
        t = st.ts.get("call")
        if t is None: return
        fld = lambda k: st.ts.get(k) if k in st.ts else st.truth(("app", "fld", t, ("str", k)))
        self.n += 1
        if fld("failed") != 0: self.note("failure", l, "goes on after a transformation failed")
        elif not st.ts.get("merged") and fld("nodeset") != 0 and fld("nodeType") != 0: self.note("lost", l, "loses the nodes that a transformation selected")
        for k in ("call", "merged", "failed", "nodeset", "nodeType"): st.ts.pop(k, None)

    def result(self, I, st, qn, val, x, fr):
        if not qn.endswith("Transformation::apply"): return
        self.settle(I, st, x.get("l"))
        t = I.read(st, ("f", val[1], "failed"))
        if t[:2] != ("app", "fld"): raise facts.AnalysisBroken("C21: the answer of a transformation is not known")
        st.ts["call"] = t[2]
        st.ts["applied"] = True
        for k in ("typed", "scope", "value"): st.ts.pop(k, None)

    def branch(self, I, st, term, val, fr):
        n, t = 0, term
        while t[0] == "app" and (t[1] == "!" or t[1] == "==" and len(t) == 4 and t[3] == INT0): n, t = n + 1, t[2]
        if t[0] == "app" and t[1] == "==" and t[3][0] == "int" and show(t[2]).endswith("->type") and "nodeTab" in show(t[2]) and val == (n % 2 == 0): st.ts["ntype"] = t[3][1]
        if t[0] == "app" and t[1] == "==" and t[3][0] == "int" and val == (n % 2 == 0):
            o = origin(t[2])
            if o is not None and o[1] == "nodeType": st.ts["scope"] = frozenset([t[3][1]])
        if t[0] == "call" and t[-1] == self.f["qn"]: st.ts["status"] = int(bool(val) != bool(n % 2))
        if t[0] == "app" and t[1] == "fld" and t[2] == st.ts.get("call") and t[3][1] in ("failed", "nodeset", "nodeType"): st.ts[t[3][1]] = int(bool(val) != bool(n % 2))

    def call(self, I, st, qn, args, x, fr):
        n = qn.split("::")[-1]
        if qn == "xmlXPathNodeSetMerge":
            if len(args) > 1 and args[1][:3] == ("app", "fld", st.ts.get("call")): st.ts["merged"] = True
        if n in ("push_back", "emplace_back", "insert") and args:
            l = args[0][1] if args[0][0] == "L" else I.deref_loc(args[0])
            if l[0] == "f" and l[2] == self.unitvec:
                st.ts["units"] = min(2, st.ts.get("units", 0) + 1)
                if n == "insert": self.note("order", x.get("l"), "does not append the units of the result in order")
        if qn == "srcml_unit_clone":
            if args[0] != self.par[1]: self.note("clone", x.get("l"), "makes a result unit from %s instead of the transformed unit" % show(args[0]))
        if qn == self.f["qn"]: st.ts["recursed"] = True
        if n == "swap" and any(self.is_unit(I, st, a) for a in args): st.ts["replaced"] = True
        if n in ("append", "assign", "operator+=", "operator=") and len(args) > 1:
            l = args[0][1] if args[0][0] == "L" else I.deref_loc(args[0])
            if l[0] == "f" and l[2] == "srcml" and show(args[1]).endswith("->content") and st.ts.get("ntype") != 8:
                self.note("escape", x.get("l"), "stores the raw content of a node as markup")

    def is_unit(self, I, st, a):
        l = a[1] if a[0] == "L" else I.deref_loc(a) if a[0] in ("addr", "ref") else None
        return l == ("d", self.par[1])

    def edge(self, I, st, a, b, fr):
        if fr.fi.f is self.afn: self.nodes(st, a, b)
        if fr.fi.f is self.ufn: self.units(st, a, b)

    def nodes(self, st, a, b):
        inl, wasin = b in self.aloop, a in self.aloop
        if b == self.ahead and wasin:
            # next node
            if not st.ts.get("applied") and st.ts.get("ntype") not in (2, 18): self.note("skipped", None, "skips a node that the transformation before selected")
            st.ts["applied"] = False
        elif b == self.ahead: st.ts["applied"] = False
        if b == self.ahead: st.ts.pop("ntype", None)
        elif wasin and not inl and a != self.ahead:
            t = st.ts.get("call")
            fld = lambda k: st.ts.get(k) if k in st.ts else st.truth(("app", "fld", t, ("str", k))) if t else None
            if not (fld("failed") == 1 or fld("nodeset") == 0 and fld("nodeType") != 0): self.note("early", None, "leaves out nodes that the transformation before selected")

    def units(self, st, a, b):
        if b == self.uhead: st.ts.pop("ntype", None)
        inl, wasin = b in self.uloop, a in self.uloop
        if b == self.uhead and wasin:
            if st.ts.get("units") != 1: self.note("units", None, "stores %s of a selected node" % ("no unit" if not st.ts.get("units") else "more than one unit"))
            st.ts["units"] = 0
        elif b == self.uhead: st.ts["units"] = 0
        elif wasin and not inl and a != self.uhead: self.note("unitsearly", None, "leaves out selected nodes")

    # ---- the result
    def write(self, I, st, loc, val, x, fr):
        if loc[0] != "f" or loc[2] not in self.res or self.resultof(loc[1]) is None: return
        T = self.res[loc[2]]
        o = origin(val)
        if T == "type":
            if o is not None and o[1] != "nodeType": self.note("type", x.get("l"), "takes the type of the result from %s" % o[1])
            elif o is None and val[0] != "int": self.note("type", x.get("l"), "takes the type of the result from %s" % show(val))
            else: st.ts["typed"] = o[1] if o else val[1]
        elif o is not None:
            if o[1] != NATIVES[T]: self.note("value|%d" % T, x.get("l"), "answers %s where the result is %s" % (o[1], NAMES[T]))
            else: st.ts["value"] = T
        elif val[0] == "some" and val[1][0] not in ("int", "str", "flt"): self.note("value|%d" % T, x.get("l"), "answers %s where the result is %s" % (show(val), NAMES[T]))

    def resultof(self, l):
        return l if l[0] in ("h", "d") or l[0] == "f" else None

    def ret(self, I, st, val, el, fr):
        if fr.parent is not None or val is None: return
        l = el.get("l") if el else None
        self.n += 1
        if st.truth(val) == 1: return
        if st.truth(self.par[2]) == 0:
            if st.ts.get("recursed") and not st.ts.get("replaced"): self.note("replace", l, "may report success without a place for the results, but does not replace the unit")
            return
        if "call" not in st.ts and "typed" not in st.ts: return
        t = st.ts.get("call")
        if st.ts.get("scope") and not (st.ts["scope"] & {0, 1}) and st.ts.get("value") not in st.ts["scope"]:
            self.note("novalue", l, "reports a result that is %s without its value" % NAMES.get(min(st.ts["scope"]), "?"))
        if t is not None and "typed" not in st.ts: self.note("untyped", l, "reports success without the type of the result")
        self.settle(I, st, l)


NATIVES = {BOOL: "boolValue", NUMBER: "numberValue", STRING: "stringValue"}


def origin(v):
    """(object, field) that a value was copied from"""
    while True:
        if v[0] in ("some", "strof", "cstr") and len(v) == 2: v = v[1]
        elif v[0] == "app" and v[1] == "!" and v[2][0] == "app" and v[2][1] == "!": v = v[2][2]
        elif v[0] == "app" and v[1] == "cast": v = v[2]
        else: break
    if v[0] == "app" and v[1] == "fld": return v[2], v[3][1]
    if v[0] == "loop" and v[2][0] == "f": return v[2][1], v[2][2]
    if v[0] == "init" and v[1][0] == "f": return v[1][1], v[1][2]


def applying(P, E, R, lst, typeloc, pay):
    f = [f for f in P.fns("srcml_unit_apply_transforms") if f.get("blocks")][0]
    res = {typeloc[2]: "type"}
    for n, ls in pay.items():
        if ACCESS[n] != UNITS:
            for l in ls: res[l[2]] = ACCESS[n]
    vec = [l for l in pay["srcml_transform_get_unit_size"]][0][2]
    I = Interp(P, None, max_depth=4, budget=80000, inline_filter=lambda g, fr: g.get("cls") == "TransformationResult" or notmpl(g["qn"]).startswith("std::unique_ptr") or
               (g["usr"] in I.H.helpers or g["file"] == f["file"] and len(g["blocks"]) <= 8 and not g.get("cls") and not g["qn"].startswith("srcml_")) and g is not f, effects=E)
    h = Applying(f, I.fi(f), P, lst, res, vec)
    I.H = h
    I.esp = True
    I.joinkey = lambda st: frozenset(st.ts.items())
    I.analyze(f)
    if h.n < 20: raise facts.AnalysisBroken("C21: the paths of %s were not followed" % f["qn"])
    R.ok({"function": f["qn"], "paths": "%d answers and returns" % h.n}, h.n)
    for k, (l, t) in h.bad.items(): R.violation("apply|" + k, where(f, l), "srcml_unit_apply_transforms %s" % t)


def run_check():
    P = facts.load(("libsrcml", "parser"))
    E = effects(P)
    R = Report("C21", "The accessors of a result are interpreted for every type of result; the functions that build the list of transformations on all of their paths (one transformation at the end, its arguments each in "
               "their own field; parameters as name and value on the last one); the three kinds of transformation on every type of answer of libxml2 and libxslt; and srcml_unit_apply_transforms as a monitor over its "
               "loops: every node of a transformation's results is transformed, what it selects is kept, failures end it, every selected node becomes one unit, and the type and value of the result are those of the last answer.")
    typeloc, pay = accessors(P, R)
    lst = appends(P, E, R)
    params(P, E, R, lst)
    applies(P, E, R)
    applying(P, E, R, lst, typeloc, pay)
    R.assumptions.append("What libxml2 and libxslt compute (which nodes an expression selects, what a stylesheet produces) is not decided.")
    return R.finish(P)
