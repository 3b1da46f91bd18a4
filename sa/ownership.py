"""Ownership of everything a function obtains: each object created must, on every path to an exit, have been released,
returned, stored where it outlives the function, or handed to something that takes it over."""
from .session import *
from . import session

MORE = {
    "xmlReadMemory": ("document", None, None), "xmlReadFile": ("document", None, None), "xmlReadFd": ("document", None, None), "xmlReadIO": ("document", None, None),
    "xmlReadDoc": ("document", None, None), "xmlNewDoc": ("document", None, None), "xmlParseMemory": ("document", None, None), "xmlParseFile": ("document", None, None), "xmlCopyDoc": ("document", None, None),
    "xsltApplyStylesheetUser": ("document", None, None), "xsltApplyStylesheet": ("document", None, None),
    "xsltParseStylesheetDoc": ("stylesheet", 0, None),
    "xmlNewParserCtxt": ("parser context", None, None), "xmlCreateMemoryParserCtxt": ("parser context", None, None), "xmlCreateIOParserCtxt": ("parser context", None, None),
    "xmlCreateFileParserCtxt": ("parser context", None, None), "xmlCreateURLParserCtxt": ("parser context", None, None), "xmlCreatePushParserCtxt": ("parser context", None, None), "xmlCreateDocParserCtxt": ("parser context", None, None),
    "xmlNewIOInputStream": ("input stream", None, None), "xmlNewTextReader": ("text reader", None, None),
    "xmlXPathNewContext": ("XPath context", None, None), "xmlXPathCompile": ("compiled expression", None, None), "xmlXPathCtxtCompile": ("compiled expression", None, None),
    "xmlXPathCompiledEval": ("XPath object", None, None), "xmlXPathEval": ("XPath object", None, None), "xmlXPathEvalExpression": ("XPath object", None, None),
    "xmlXPathNodeSetCreate": ("node set", None, None),
    "xmlNewNs": ("namespace", None, None), "xmlNewNode": ("node", None, None), "xmlNewText": ("node", None, None), "xmlCopyNode": ("node", None, None), "xmlDocCopyNode": ("node", None, None),
    "xmlDocSetRootElement": ("detached tree", None, None),
    "xmlRelaxNGNewDocParserCtxt": ("RelaxNG parser", None, None), "xmlRelaxNGNewMemParserCtxt": ("RelaxNG parser", None, None), "xmlRelaxNGNewParserCtxt": ("RelaxNG parser", None, None),
    "xmlRelaxNGParse": ("schema", None, None), "xmlRelaxNGNewValidCtxt": ("validation context", None, 0),
    "xmlGetNsProp": ("string", None, None), "xmlGetProp": ("string", None, None), "xmlGetNoNsProp": ("string", None, None), "xmlNodeListGetString": ("string", None, None), "xmlNodeListGetRawString": ("string", None, None),
    "xmlNodeGetContent": ("string", None, None), "xmlStrdup": ("string", None, None), "xmlStrndup": ("string", None, None), "xmlEncodeSpecialChars": ("string", None, None), "xmlEncodeEntitiesReentrant": ("string", None, None),
    "xmlBufferDetach": ("string", None, None), "xmlCharStrdup": ("string", None, None), "xmlBuildQName": ("string", None, None), "xmlMalloc": ("memory", None, None),
    "malloc": ("memory", None, None), "calloc": ("memory", None, None), "strdup": ("string", None, None), "dup": ("file descriptor", None, None), "fdopen": ("FILE", 0, None),
    "dlopen": ("library handle", None, None),
}
FREE = {
    "xmlFreeDoc": 0, "xsltFreeStylesheet": 0, "xmlFreeParserCtxt": 0, "xmlFreeInputStream": 0, "xmlXPathFreeContext": 0, "xmlXPathFreeCompExpr": 0, "xmlXPathFreeObject": 0,
    "xmlXPathFreeNodeSet": 0, "xmlFreeNs": 0, "xmlFreeNode": 0, "xmlRelaxNGFreeParserCtxt": 0, "xmlRelaxNGFree": 0, "xmlRelaxNGFreeValidCtxt": 0, "xmlFree": 0, "free": 0, "xmlFreeTextReader": 0,
    "xmlXPathFreeNodeSetList": 0, "dlclose": 0,
}
# do not accept null
NONNULL = ("dlclose", "fclose")
# arguments a library function takes over
TAKES = {
    "inputPush": (1,), "xmlReplaceNode": (1,), "xmlAddChild": (1,), "xmlAddSibling": (1,), "xmlAddNextSibling": (1,), "xmlAddPrevSibling": (1,), "xmlDocSetRootElement": (1,),
    "xmlSetTreeDoc": (), "xmlNewIOInputStream": (1,), "xmlXPathNewNodeSetList": (0,), "xmlXPathWrapNodeSet": (0,), "xmlSwitchInputEncoding": (1,),
}
CONTAINERS = ("std::vector", "std::list", "std::deque", "std::set", "std::map", "std::stack", "std::queue", "std::unordered_map", "std::unordered_set")
SEAT = ("push_back", "emplace_back", "insert", "emplace", "push", "push_front", "swap", "assign", "operator=")


def named(I, cal, fr=None, x=None):
    """the library function a call through a pointer variable or member stands for"""
    e = fr.fi.ex.get(x["ops"][0]) if x is not None and x.get("ops") else None
    while e is not None and e["k"] in ("ImplicitCastExpr", "ParenExpr") : e = fr.fi.ex.get(e["ops"][0])
    n = None
    if e is not None and e["k"] == "MemberExpr": n = e.get("f")
    elif e is not None and e["k"] == "DeclRefExpr": n = str(e.get("v", "")).split("#")[0]
    if n in MORE or n in FREE: return n
    if cal[0] == "init": cal = cal[1]
    if cal[0] == "f": return cal[2]
    if cal[0] == "g":
        v = I.P.vars.get(cal[1])
        return v["n"] if v and "n" in v else str(cal[1]).split("@")[-1]
    return None


class Own(Res):
    def __init__(self, label="", opaque=(), summaries=({}, {}, {})):
        Res.__init__(self, label, opaque)
        self.made = 0
        self.freed = 0
        # functions of the repository, by what they return and release
        self.news, self.frees, self.takes = (tuple(summaries) + ({},))[:3]

    def touch(self, st, what): pass

    def take(self, st, a):
        r = st.ts.get(("r", a))
        if r and r[1] == "live": st.ts[("r", a)] = (r[0], "moved", r[2], r[3])

    def lend(self, st, a):
        r = st.ts.get(("r", a))
        if r and r[1] == "live": st.ts[("r", a)] = (r[0], "lent", r[2], r[3])

    def call(self, I, st, qn, args, x, fr):
        vals = [I.read(st, a[1]) if a[0] == "L" else a for a in args]
        if qn == "*":
            n = named(I, vals[0], fr, x)
            if n:
                qn, vals = n, vals[1:]
                self.args = vals
                st.ts[("ind",)] = n
                if qn in FREE:
                    self.freed += 1
                    self.release(I, st, vals[FREE[qn]], x, fr, qn)
            else:
                self.args = vals[1:]
                st.ts.pop(("ind",), None)
                for a in vals[1:]: self.lend(st, a)
            return
        d = I.P.decls.get(x.get("fn"), {})
        if not d.get("sys"):
            f = I.P.funcs.get(x.get("fn"))
            if f is None and x.get("ind"):
                f = I.P.funcs.get(I.indirect)
            if f is None or not I.can_inline(fr, f):
                # the callee may keep or release what it gets
                gone = self.frees.get(x.get("fn"), ())
                for i in gone:
                    if i < len(vals):
                        self.freed += 1
                        self.release(I, st, vals[i], x, fr, qn)
                takes = self.takes.get(x.get("fn"), ())
                for i, a in enumerate(vals):
                    if i in takes and st.ts.get(("r", a), (0, 0))[1] in ("rel", "owned"): self.bad("double|%s" % st.ts[("r", a)][0], fr, x, "%s is handed over although it is gone" % st.ts[("r", a)][0])
                    if i not in gone and i not in takes: self.lend(st, a)
                for a in args:
                    if a[0] in ("L", "obj"):
                        for l, v in list(st.mem.items()):
                            if prefix_of(a[1], l): self.lend(st, v)
                # what the function under analysis stored away may be replaced by the callee
                if not d.get("ctor"):
                    for k in [k for k, r in st.ts.items() if k[0] == "r" and len(k) == 2 and r[1] == "live"]:
                        if escapes(st, k[1], None): self.lend(st, k[1])
        if d.get("sys"):
            if qn in FREE:
                self.args = vals
                self.freed += 1
                if not self.deleter(I, fr): self.release(I, st, vals[FREE[qn]], x, fr, qn)
                return
            if qn in RELEASE: self.freed += 1
            for k in TAKES.get(qn, ()):
                if k < len(vals): self.take(st, vals[k])
            if d.get("n") in SEAT and notmpl(d.get("cls", "")) in CONTAINERS:
                for a in vals[1:]: self.take(st, a)
        Res.call(self, I, st, qn, args, x, fr)

    def release(self, I, st, v, x, fr, how):
        if how in NONNULL and (st.truth(v) == 0 or st.truth(v) != 1 and ("r", v) in st.ts):
            self.bad("null|" + how, fr, x, "%s is called with a handle that may be null" % how)
            return
        if st.ts.get(("r", v), (0,))[0] == "XPath object":
            w = I.read(st, ("f", ("d", v), "nodesetval"))
            if st.truth(w) != 0 and any(smart(I.P, l) for l in holders(st, w)): self.bad("double|node set", fr, x, "the node set of an XPath object is freed with it and by a smart pointer")
        # elements of containers have the same name in every round of a loop
        if ("r", v) not in st.ts and any(t and t[0] == "call" and str(t[-1]).split("::")[0] in ("std", "__gnu_cxx", "boost") and not str(t[-1]).endswith("::operator()") for t in subterms(v)): return
        Res.release(self, I, st, v, x, fr, how)

    def deleter(self, I, fr): return False

    def constructed(self, I, st, qn, args, x, fr):
        for i in self.takes.get(x.get("fn"), ()):
            a = I.read(st, args[i][1]) if i < len(args) and args[i][0] == "L" else args[i] if i < len(args) else None
            r = st.ts.get(("r", a))
            if r and r[1] == "live": st.ts[("r", a)] = (r[0], "owned", r[2], r[3])

    def result(self, I, st, qn, val, x, fr):
        if qn == "*":
            n = st.ts.pop(("ind",), None)
            if n in MORE and val[0] == "call":
                self.create(I, st, n, val, x)
            return
        d = I.P.decls.get(x.get("fn"), {})
        if qn in MORE and d.get("sys") and val[0] == "call": self.create(I, st, qn, val, x)
        elif x.get("fn") in self.news and val[0] == "call" and not d.get("sys"):
            self.made += 1
            st.ts[("r", val)] = (self.news[x["fn"]], "live", None, None)
        else:
            if qn in CREATE and d.get("sys"): self.made += 1
            Res.result(self, I, st, qn, val, x, fr)

    def create(self, I, st, n, val, x):
        kind, own, ref = MORE[n]
        self.made += 1
        o = self.args[own] if own is not None and own < len(self.args) else None
        r = self.args[ref] if ref is not None and ref < len(self.args) else None
        if o is not None:
            k = st.ts.get(("r", o))
            if k: st.ts[("r", o)] = (k[0], "owned", k[2], k[3])
            else: o = None
        if r is not None and ("r", r) not in st.ts: r = None
        st.ts[("r", val)] = (kind, "live", o, r)
        if kind == "file descriptor" : pass

    def alloc(self, I, st, val, x, fr):
        self.made += 1
        Res.alloc(self, I, st, val, x, fr)

    def delete(self, I, st, v, x, fr):
        self.freed += 1
        if notmpl(x.get("smart") or "") == "std::shared_ptr" or "shared_ptr" in (x.get("smart") or ""):
            # another owner is left
            if any(l != x.get("at") for l in holders(st, v) if l[0] != "t"): return
        Res.delete(self, I, st, v, x, fr)


def holders(st, v, mine=True):
    """locations that hold the value"""
    return [l for l, w in st.mem.items() if w == v or (isinstance(w, tuple) and len(w) == 2 and w[0] in ("some", "addr") and w[1] == v)]


def escapes(st, v, val, seen=()):
    """the object is returned or reachable from something that outlives the function"""
    if val is not None and (val == v or contains(val, v)): return True
    if val is not None and val[0] in ("obj", "L"):
        for l in holders(st, v):
            if prefix_of(val[1], l): return True
    for l, w in st.mem.items():
        if w != v and not (isinstance(w, tuple) and contains(w, v)): continue
        r = root(l)
        if r[0] in ("g", "d", "p"): return True
        if r[0] == "h":
            a = ("addr", r)
            if a in seen: continue
            q = st.ts.get(("r", a))
            if q and q[1] in ("moved", "owned"): return True
            if escapes(st, a, val, seen + (v, a)): return True
    return False


def leaked(P, o, params=()):
    """[(value, record)] of everything that is lost when the function is left"""
    out = []
    st = o.st
    for k, r in st.ts.items():
        if k[0] != "r" or len(k) != 2 or r[1] != "live" or not lives(st, k[1], r[0]) or escapes(st, k[1], o.val): continue
        hs = [l for l in holders(st, k[1])]
        # members of an object whose constructor threw are destroyed by the language: smart pointers release what they hold
        if hs and all(smart(P, l) and ("r", ("addr", root(l))) not in st.ts and root(l)[0] == "h" for l in hs): continue
        # what a smart pointer parameter still holds is released by the caller's end of the call
        if any(l[0] == "v" and l[2] in params for l in hs): continue
        # unwinding destroys the local smart pointers
        if o.kind == "exc" and any(smart(P, l) for l in hs): continue
        out.append((k[1], r))
    return out


def smart(P, l):
    """the location is a smart pointer"""
    if l[0] == "f": ts = P.fieldtypes(l[2]) if hasattr(P, "fieldtypes") else fieldtypes(P, l[2])
    elif l[0] in ("v", "t"): ts = vartypes(P, l[-1]) if l[0] == "v" else ()
    else: ts = ()
    return any(P.type(t)["k"] == "rec" and notmpl(P.type(t)["r"]) in SMART for t in ts)


_ft = {}


def fieldtypes(P, n):
    if id(P) not in _ft:
        m = {}
        for r in P.records.values():
            for f in r["fields"]: m.setdefault(f["n"], []).append(f["t"])
        _ft[id(P)] = m
    return _ft[id(P)].get(n, ())


def vartypes(P, v):
    d = P.vars.get(v)
    return (d["t"],) if d else ()


def joinkey(st):
    """what must be kept apart where paths meet: the state of every resource, where it is held and whether it exists"""
    rs = {k[1] for k in st.ts if k[0] == "r" and len(k) == 2}
    return (frozenset(st.ts.items()), frozenset((l, v) for l, v in st.mem.items() if v in rs), frozenset((t, c) for t, c in st.facts.items() if t in rs))


def lives(st, v, kind):
    """the object exists on this path"""
    if kind in ("file descriptor", "conversion descriptor"):
        c = st.con(v)
        return not (c[0] == c[1] == -1) and st.truth(("app", "==", v, ("int", -1))) != 1
    return st.truth(v) != 0


def inlining(P, E):
    """destructors and deleters of smart pointers, lambdas, and small helpers that create or release something"""
    names = set(CREATE) | set(RELEASE) | set(MORE) | set(FREE)
    rel = {u for u in P.funcs if E.extc[u] & names or any(x["k"] in ("CXXNewExpr", "CXXDeleteExpr") for x in P.funcs[u]["exprs"].values())}
    # helpers that call back
    rel |= {u for u, f in P.funcs.items() if len(f.get("blocks", ())) <= 6 and "/src/" in f["file"] and any(x.get("ind") for x in f["exprs"].values())}

    def flt(g, fr):
        if g["qn"].startswith("std::default_delete"): return True
        if g["usr"] not in rel and not g.get("lambda") and not (len(g.get("blocks", ())) <= 3 and P.decls.get(g["usr"], {}).get("ctor")): return False
        p = fr
        while p is not None:
            if p.fi.f["usr"] == g["usr"]: return False
            p = p.parent
        return len(g.get("blocks", ())) <= 10
    return flt


def summary(P, E, f, interp):
    """(kind of the resource the function returns to its caller, parameters it releases)"""
    h = Own(f["qn"])
    I = interp(P, E, h)
    I.budget = 6000

    def setup(I, st, fr):
        for p in f["params"]:
            if P.type(p["t"])["k"] == "ptr": st.ts[("r", ("p", p["v"]))] = ("given", "live", None, None)
    try: outs = I.analyze(f, setup=setup, tag="s")
    except BudgetExceeded: return None, (), ()
    kinds, gone, taken = set(), None, None
    for o in outs:
        if o.kind != "ret": continue
        t = {i for i, p in enumerate(f["params"]) if (o.st.ts.get(("r", ("p", p["v"]))) or (0, 0))[1] in ("owned", "moved")}
        taken = t if taken is None else taken & t
        r = o.st.ts.get(("r", o.val)) if o.val is not None else None
        if r and r[0] != "given" and r[1] == "live": kinds.add(r[0])
        elif o.val is not None and o.st.truth(o.val) != 0: kinds.add(None)
        g = {i for i, p in enumerate(f["params"]) if o.st.truth(("p", p["v"])) == 0 or (o.st.ts.get(("r", ("p", p["v"]))) or (0, 0))[1] == "rel"}
        gone = g if gone is None else gone & g
    gone = {i for i in gone or () if any((o.st.ts.get(("r", ("p", f["params"][i]["v"]))) or (0, 0))[1] == "rel" for o in outs)}
    t = P.type(f["ret"])
    return next(iter(kinds)) if len(kinds) == 1 and t["k"] == "ptr" else None, tuple(sorted(gone)), tuple(sorted(taken or ()))


def flowing(P, f):
    """For a function too large to interpret: the result of each creator is put into a smart pointer, or a variable that is released, stored or
    known to be null on every path to the exit. [(creator, line, kept)]"""
    from .flow import Fn
    F = Fn(P, f)
    ex = F.ex
    out = []
    names = set(CREATE) | set(MORE)
    initof = {}
    for b in F.blocks.values():
        for e in b["el"]:
            if e["k"] == "D":
                for v in e["vars"]:
                    if "init" in v: initof[v["init"]] = v["v"]

    def smartctor(x):
        d = P.decls.get(x.get("fn"), {})
        return notmpl(d.get("cls", "")) in SMART and (d.get("ctor") or d.get("n") in ("reset", "operator="))

    def up(i):
        while i in F.parent and (ex[F.parent[i]]["k"].endswith("CastExpr") or ex[F.parent[i]]["k"] in ("ParenExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "MaterializeTemporaryExpr")): i = F.parent[i]
        return i

    def core(i):
        while ex[i]["k"].endswith("CastExpr") or ex[i]["k"] in ("ParenExpr", "ExprWithCleanups"): i = ex[i]["ops"][0]
        return i

    def isvar(i, v): return ex[core(i)]["k"] == "DeclRefExpr" and ex[core(i)].get("v") == v

    def isnull(i): return ex[core(i)]["k"] in ("CXXNullPtrLiteralExpr", "GNUNullExpr", "IntegerLiteral")

    def consumes(x, v):
        d = P.decls.get(x.get("fn"), {})
        n = d.get("qn", "")
        ops = x.get("ops", ())
        if x.get("ind") and ops:
            c = ex[core(ops[0])]
            n = c.get("f") if c["k"] == "MemberExpr" else P.vars.get(c.get("v"), {}).get("n") or str(c.get("v", "")).split("@")[-1].split("#")[0]
            return n in FREE and any(isvar(o, v) for o in ops[1:])
        if d.get("sys"):
            if n in FREE or n in RELEASE: return any(isvar(o, v) for o in ops)
            if n in TAKES: return any(isvar(ops[k], v) for k in TAKES[n] if k < len(ops))
            if d.get("n") in SEAT or smartctor(x): return any(isvar(o, v) for o in ops)
            return False
        return x.get("fn") in P.funcs and any(isvar(o, v) for o in ops)

    def nulledge(c, v):
        """0: the true edge is the null one, 1: the false edge, None: not a test of v"""
        if c is None or c not in ex: return None
        neg = False
        c = core(c)
        while ex[c]["k"] == "UnaryOperator" and ex[c].get("op") == "!":
            neg = not neg
            c = core(ex[c]["ops"][0])
        x = ex[c]
        if isvar(c, v): return 0 if neg else 1
        if x["k"] == "BinaryOperator" and x["op"] in ("==", "!="):
            a, b = x["ops"]
            if isvar(a, v) and isnull(b) or isvar(b, v) and isnull(a): return (0 if x["op"] == "==" else 1) ^ neg
        return None

    for i, x in ex.items():
        d = P.decls.get(x.get("fn"), {})
        n = d.get("qn", "")
        if not (d.get("sys") and n in names) or x["k"] != "CallExpr": continue
        t = up(i)
        p = ex.get(F.parent.get(t), {})
        if smartctor(p): out.append((n, x["l"], True)); continue
        if p.get("k") == "ReturnStmt": out.append((n, x["l"], True)); continue
        # MORE: what the creator takes over itself
        v = initof.get(t) or initof.get(i)
        if v is None and p.get("k") == "BinaryOperator" and p["op"] == "=" and ex[core(p["ops"][0])]["k"] == "DeclRefExpr": v = ex[core(p["ops"][0])].get("v")
        if v is None:
            out.append((n, x["l"], p.get("k") in ("CallExpr", "CXXMemberCallExpr", "BinaryOperator", "CXXConstructExpr")))
            continue
        # an owning variable
        vt = [w["t"] for b in F.blocks.values() for e in b["el"] if e["k"] == "D" for w in e["vars"] if w["v"] == v]
        if vt and P.type(vt[0])["k"] == "rec": out.append((n, x["l"], True)); continue
        pos = F.where(i)
        if pos is None: continue
        work, seen, kept = [(pos[0], pos[1] + 1)], set(), True
        while work:
            b, k = work.pop()
            bl = F.blocks[b]
            done = False
            for e in bl["el"][k:]:
                if e["k"] == "E" and consumes(ex[e["id"]], v): done = True; break
                if e["k"] == "E" and ex[e["id"]]["k"] == "BinaryOperator" and ex[e["id"]]["op"] == "=" and isvar(ex[e["id"]]["ops"][1], v) and ex[core(ex[e["id"]]["ops"][0])]["k"] != "DeclRefExpr": done = True; break
            if done: continue
            if b == f["exit"]: kept = False; break
            ne = nulledge(bl.get("cond"), v)
            for m, s in enumerate(bl["succ"]):
                if s is None or s < 0 or s not in F.blocks or m == ne or s in seen: continue
                seen.add(s)
                work.append((s, 0))
        out.append((n, x["l"], kept))
    return out


def invokers(P):
    """the call operator behind each lambda that is used as a function pointer"""
    c = P.__dict__.get("_invokers")
    if c is None:
        ops = {}
        for u, f in P.funcs.items():
            if f.get("lambda") and f["qn"].endswith("::operator()"): ops.setdefault((f["file"], f["line"], len(f["params"])), []).append(u)
        c = P._invokers = {}
        for u, f in P.funcs.items():
            if f.get("lambda") and f["qn"].endswith("::__invoke"):
                o = ops.get((f["file"], f["line"], len(f["params"])), [])
                if len(o) == 1: c[u] = o[0]
    return c
