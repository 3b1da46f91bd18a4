"""Resources and sessions: what happens to streams, buffers and parsers when the public functions of a handle are
called one after another.  A session is explored as a graph of abstract states: each step interprets one public
function on the abstract state the earlier steps left; equal states are visited once, so every call sequence is covered."""
from .interp import *
from . import facts, api
from .effects import effects

OBJ = ("p", "obj")
OBJLOC = ("d", OBJ)

# contracts of the C library functions the code obtains resources from: kind, argument whose ownership passes to the
# new object when it is created, arguments the new object keeps referring to
CREATE = {
    "xmlOutputBufferCreateFilename": ("output buffer", None, None), "xmlOutputBufferCreateFile": ("output buffer", None, None),
    "xmlOutputBufferCreateFd": ("output buffer", None, None), "xmlOutputBufferCreateIO": ("output buffer", None, None),
    "xmlOutputBufferCreateBuffer": ("output buffer", None, 0), "xmlAllocOutputBuffer": ("output buffer", None, None),
    "xmlBufferCreate": ("memory buffer", None, None), "xmlBufferCreateSize": ("memory buffer", None, None),
    "xmlNewTextWriter": ("text writer", 0, None), "xmlNewTextWriterMemory": ("text writer", None, 0), "xmlNewTextWriterFilename": ("text writer", None, None),
    "xmlParserInputBufferCreateFilename": ("input buffer", None, None), "xmlParserInputBufferCreateFile": ("input buffer", None, None),
    "xmlParserInputBufferCreateFd": ("input buffer", None, None), "xmlParserInputBufferCreateIO": ("input buffer", None, None),
    "xmlParserInputBufferCreateMem": ("input buffer", None, None), "xmlAllocParserInputBuffer": ("input buffer", None, None),
    "open": ("file descriptor", None, None), "fopen": ("FILE", None, None), "iconv_open": ("conversion descriptor", None, None),
}
RELEASE = {
    "xmlOutputBufferClose": 0, "xmlFreeTextWriter": 0, "xmlBufferFree": 0, "xmlFreeParserInputBuffer": 0,
    "close": 0, "fclose": 0, "iconv_close": 0,
}
STREAMS = ("output buffer", "text writer")


class Res(Hooks):
    """typestate of every resource, kept in State.ts as ("r", term) -> (kind, status, owned term, referred term)"""

    def __init__(self, label="", opaque=()):
        self.viol = []
        self.label = label
        self.opaque = set(opaque)
        self.args = None
        self.ext = 0

    def bad(self, key, fr, x, text):
        self.viol.append((key, fr.fi.f, x.get("l"), text, " > ".join(reversed(fr.chain()))))

    def touch(self, st, what):
        st.ts[("touch",)] = st.ts.get(("touch",), frozenset()) | {what}

    # ---- creation
    def call(self, I, st, qn, args, x, fr):
        d = I.P.decls.get(x.get("fn"), {})
        args = [I.read(st, a[1]) if a[0] == "L" else a for a in args]
        self.args = args
        if qn in RELEASE and d.get("sys", True):
            self.release(I, st, args[RELEASE[qn]], x, fr, qn)
            return
        if x.get("fn") in I.P.funcs and not d.get("sys"):
            if qn in self.opaque or (I.inline_filter and not I.inline_filter(I.P.funcs[x["fn"]], fr)):
                for a in args:
                    r = st.ts.get(("r", a))
                    if r and r[1] == "rel": self.bad("use|%s" % r[0], fr, x, "%s is used after it was released" % r[0])
                    if r:
                        self.touch(st, qn)
                        # an owning pointer passed by value: the callee releases or keeps it
                        for o in x.get("ops", ()):
                            t = I.P.type(fr.fi.ex[o]["t"])
                            if t["k"] == "rec" and notmpl(t["r"]) == "std::unique_ptr" and self.valof(I, fr, o, st) == a:
                                st.ts[("r", a)] = (r[0], "moved", r[2], r[3])
            return
        if d.get("sys", True):
            for a in args:
                r = st.ts.get(("r", a))
                if r is None: continue
                if r[1] == "rel": self.bad("use|%s" % r[0], fr, x, "%s passed to %s after it was released" % (r[0], qn))
                elif not qn.startswith("std::"):
                    self.touch(st, qn)
                    self.needref(I, st, a, r, x, fr, qn)

    def valof(self, I, fr, o, st):
        v = I.ev(fr, fr.fi, o, st)
        return I.read(st, v[1]) if v[0] == "L" else v

    def needref(self, I, st, a, r, x, fr, what):
        if r[3] is not None:
            q = st.ts.get(("r", r[3]))
            if q and q[1] == "rel": self.bad("ref|%s" % r[0], fr, x, "%s on an %s whose %s was already freed" % (what, r[0], q[0]))
        if r[2] is not None:
            q = st.ts.get(("r", r[2]))
            if q and q[1] == "rel": self.bad("ref|%s" % r[0], fr, x, "%s on a %s whose %s was already closed" % (what, r[0], q[0]))
            if q: self.needref(I, st, r[2], q, x, fr, what)

    def result(self, I, st, qn, val, x, fr):
        c = CREATE.get(qn)
        d = I.P.decls.get(x.get("fn"), {})
        if c is None or not d.get("sys", True) or val[0] != "call": return
        kind, own, ref = c
        o = self.args[own] if own is not None and own < len(self.args) else None
        r = self.args[ref] if ref is not None and ref < len(self.args) else None
        if o is not None and ("r", o) in st.ts:
            k = st.ts[("r", o)]
            st.ts[("r", o)] = (k[0], "owned", k[2], k[3])
        else: o = None
        if r is not None and ("r", r) not in st.ts: r = None
        st.ts[("r", val)] = (kind, "live", o, r)
        self.touch(st, "create " + kind)

    def alloc(self, I, st, val, x, fr):
        t = I.P.type(x["at"])
        st.ts[("r", val)] = (t["s"].replace("struct ", "").replace("class ", ""), "live", None, None)

    # ---- release
    def release(self, I, st, v, x, fr, how):
        if st.truth(v) == 0: return
        r = st.ts.get(("r", v))
        if r is None:
            st.ts[("r", v)] = ("object", "rel", None, None)
            self.touch(st, how)
            return
        if r[1] in ("rel", "owned", "moved"):
            own = None
            if r[1] == "owned":
                for k, q in st.ts.items():
                    if k[0] == "r" and len(k) == 2 and q[2] == v: own = (k[1], q)
                if own and st.truth(own[0]) == 0: own = None
                if own is None:
                    st.ts[("r", v)] = (r[0], "rel", r[2], r[3])
                    self.touch(st, how)
                    return
            self.bad("double|%s" % r[0], fr, x, "%s is released %s" % (r[0], "although a %s owns it" % own[1][0] if own else "a second time" if r[1] == "rel" else "after ownership was given away"))
            return
        self.touch(st, how)
        self.needref(I, st, v, r, x, fr, how)
        st.ts[("r", v)] = (r[0], "rel", r[2], r[3])
        if r[2] is not None:
            q = st.ts.get(("r", r[2]))
            if q: st.ts[("r", r[2])] = (q[0], "rel", q[2], q[3])

    def delete(self, I, st, v, x, fr): self.release(I, st, v, x, fr, "delete")

    def deref(self, I, st, term, x, fr):
        r = st.ts.get(("r", term))
        if r and r[1] == "rel" and not (fr.fi.f["n"].startswith("~") if "n" in fr.fi.f else "::~" in fr.fi.f["qn"]):
            self.bad("use|%s" % r[0], fr, x, "%s is used after it was released" % r[0])
        if r and x["k"] == "CXXMemberCallExpr": self.touch(st, I.P.decls[x["fn"]]["qn"])


def subst(t, m):
    r = m.get(t)
    if r is not None: return r
    if isinstance(t, tuple) and t and any(isinstance(y, tuple) for y in t):
        n = tuple(subst(y, m) if isinstance(y, tuple) else y for y in t)
        return n if n != t else t
    return t


class Session:
    """the abstract states a handle can be in"""

    def __init__(self, P, rec, depth=9, opaque=(), budget=200000):
        self.P = P
        self.rec = rec
        self.E = effects(P)
        self.depth = depth
        self.opaque = set(opaque)
        self.budget = budget
        self.relevant = {u for u in P.funcs if (self.E.extc[u] & (set(CREATE) | set(RELEASE))) or any(not n.startswith("std::") for n in self.E.newc[u]) or self._deletes(u)}
        self.functions = set()

    def _deletes(self, u):
        """frees something, directly or further down"""
        return any(any(x["k"] == "CXXDeleteExpr" for x in self.P.funcs[v]["exprs"].values()) for v in self.E.reach[u] if v in self.P.funcs)

    def inline(self, f, fr):
        if f["qn"] in self.opaque: return False
        if f["usr"] in self.relevant: return True
        # helpers on the handles themselves: their results steer the control flow
        for p in f["params"]:
            t = self.P.type(p["t"])
            if t["k"] in ("ptr", "ref"):
                t = self.P.type(t["p"])
                if t["k"] == "rec" and t["r"] in ("srcml_archive", "srcml_unit"): return f.get("cls") is None
        # texts do not steer the session
        t = self.P.type(f["ret"])
        if t["k"] == "ptr" and self.P.type(t["p"])["s"] in ("const char", "char"): return False
        return len(f.get("blocks", ())) <= 3 and f["qn"].split("::")[0] not in self.noinline

    ints = ()
    smallints = None
    esp = True
    noinline = ("srcMLOutput", "srcml_translator", "srcml_sax2_reader", "srcml_reader_handler", "srcSAXController", "StreamMLParser")

    def step(self, f, st, args, hooks, tag, obj=OBJ):
        I = Interp(self.P, hooks, max_depth=self.depth, budget=self.budget, opaque=self.opaque, inline_filter=self.inline, effects=self.E)
        I.esp = self.esp

        def setup(I, s, fr):
            if st is not None:
                own = dict(s.mem)
                s.mem = dict(st.mem)
                s.mem.update(own)
                s.facts.update(st.facts)
                s.ts = dict(st.ts)
            if obj is not None: s.facts.setdefault(obj, (NEG, POS, frozenset([0])))
            for v in args.values():
                if v[0] == "p" and v != obj and not (v in s.facts): s.facts[v] = (NEG, POS, frozenset([0])) if v[1].startswith("arg") else FULL
        a = dict(args)
        if obj is not None: a[0] = obj
        outs = I.analyze(f, setup=setup, args=a, tag=tag)
        self.functions |= I.stats["functions"]
        return outs

    # ---- canonical form of the state a step leaves
    def canon(self, st, objloc, keep=(), given=None):
        """returns (state, leaks): session fields and reachable resources under canonical names"""
        P = self.P
        I = Interp(P)
        m, mem, facts_, ts = {}, {}, {}, {}
        if objloc != OBJLOC:
            m[objloc] = OBJLOC
            m[("addr", objloc)] = OBJ
        todo = [(objloc, OBJLOC, self.rec, "")]
        seenres = []
        names = {}

        def resource(v, path):
            if v in names: return names[v]
            r = st.ts.get(("r", v))
            n = ("addr", ("h", ("S", path))) if v[0] == "addr" else ("p", "S." + path)
            names[v] = n
            m[v] = n
            if v[0] == "addr": m[v[1]] = n[1]
            seenres.append(v)
            if r and v[0] == "addr" and r[0] in P.records: todo.append((v[1], n[1], r[0], path + "."))
            if r:
                for q, w in ((r[2], "own"), (r[3], "ref")):
                    if q is not None and q not in names and st.truth(q) != 0: resource(q, path + "." + w)
            return n

        while todo:
            loc, new, rec, path = todo.pop(0)
            r = P.records.get(rec)
            if not r: continue
            for fd in r["fields"]:
                l, nl = ("f", loc, fd["n"]), ("f", new, fd["n"])
                t = P.type(fd["t"])
                if t["k"] == "rec":
                    if t["r"] in P.records and P.records[t["r"]]["mine"] and notmpl(t["r"]) not in SMART: todo.append((l, nl, t["r"], path + fd["n"] + "."))
                    elif notmpl(t["r"]) not in SMART: continue
                if t["k"] not in ("ptr", "enum", "bool", "int", "rec"): continue
                if t["k"] == "rec" and notmpl(t["r"]) not in SMART: continue
                v = I.read(st, l)
                if t["k"] in ("ptr", "rec"):
                    if v == INT0 or st.truth(v) == 0: mem[nl] = INT0
                    elif ("r", v) in st.ts: mem[nl] = resource(v, path + fd["n"])
                    elif v[0] in ("p", "addr", "call") and t["k"] == "ptr" and P.type(t["p"])["s"] not in ("const char", "char"):
                        n = m.get(v) or (("p", v[1]) if v[0] == "p" and v[1].startswith("user.") else ("p", "user." + path + fd["n"]))
                        if v != OBJ: m.setdefault(v, n)
                        mem[nl] = m.get(v, v)
                        if st.truth(v) == 1: facts_[mem[nl]] = (NEG, POS, frozenset([0]))
                elif t["k"] in ("enum", "bool") or t["k"] == "int" and fd["n"] in self.ints:
                    c = st.con(v)
                    if c[0] == c[1]: mem[nl] = ("int", c[0])
                elif t["k"] == "int" and self.smallints:
                    c = st.con(v)
                    lo, hi = self.smallints
                    if c[0] == c[1]:
                        if lo <= c[0] <= hi: mem[nl] = ("int", c[0])
                    if nl not in mem and 0 <= c[0]:
                        n = ("p", "S." + path + fd["n"])
                        mem[nl] = n
                        facts_[n] = (min(c[0], 1), POS, frozenset())
        for l in keep:
            if l in st.mem: mem[l] = st.mem[l]
        for v in seenres:
            r = st.ts.get(("r", v))
            if r: ts[("r", names[v])] = (r[0], r[1], names.get(r[2]), names.get(r[3]))
            if st.truth(v) == 1: facts_[names[v]] = (NEG, POS, frozenset([0]))
        leaks = []
        for k, r in st.ts.items():
            if k[0] == "r" and k[1] == given: continue
            if k[0] == "r" and len(k) == 2 and r[1] == "live" and k[1] not in names and st.truth(k[1]) != 0: leaks.append((k[1], r))
            if k[0] == "r" and len(k) == 2 and r[1] == "owned" and k[1] not in names and st.truth(k[1]) != 0:
                # owned by something that does not exist after all
                ow = [q for q, w in st.ts.items() if q[0] == "r" and len(q) == 2 and w[2] == k[1]]
                if ow and all(st.truth(q[1]) == 0 for q in ow): leaks.append((k[1], r))
        return State(mem, facts_, ts=ts), leaks

    @staticmethod
    def key(st): return (frozenset(st.mem.items()), frozenset(st.facts.items()), frozenset(st.ts.items()))
