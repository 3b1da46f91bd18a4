"""The token queues of StreamMLParser: every token the parser consumes is queued exactly once, in the order of the source, and no queue loses its tokens."""
from . import facts
from .interp import *
from .par import pmap

CLS = "StreamMLParser"
THIS = ("d", ("p", "this"))
CUR, OLD = ("tok", "current"), ("tok", "consumed")
LA = ("la", "current")
ISTATE = ("h", "parser input state")
LISTED = ("std::deque", "std::list", "std::vector")


def subst(t, a, b):
    if t == a: return b
    if isinstance(t, tuple): return tuple(subst(q, a, b) for q in t)
    return t


class Queues(Hooks):
    def __init__(self, W, f, scen, guess):
        self.W, self.f, self.scen, self.guess = W, f, scen, guess
        self.bad, self.nev, self.npush, self.nconsume, self.made = {}, 0, 0, 0, []

    # ---- state
    def q(self, st, n): return st.ts.get(("q", n), "M")

    def setq(self, st, n, v):
        st.ts[("q", n)] = v
        for k in [k for k in st.facts if k[0] in ("qempty", "qsize") and k[1] == n]: del st.facts[k]

    def pushed(self, st): return st.ts.get(("pushed",), 0)

    def name(self, st, loc):
        return loc[2] if loc[0] == "f" and loc[1] == THIS and loc[2] in self.W.queues else None

    def current(self, st):
        """the queues and the mode in use: (output, skipped, in preprocessing)"""
        out = []
        for fld in self.W.ptrs + self.W.modes:
            v = st.mem.get(("f", THIS, fld), ("init", ("f", THIS, fld)))
            out.append((fld, v))
        return tuple(out)

    def say(self, fr, kind, line, text):
        g = fr
        while g.parent is not None: g = g.parent
        self.bad.setdefault((kind, fr.fi.f["qn"].split("(")[0], line), (fr.fi.f, line, text))

    # ---- events
    def push(self, I, st, loc, v, x, fr):
        n = self.name(st, loc)
        if n is None: return
        self.npush += 1
        own = [m for m in self.W.queues if v[0] == "elem" and v[1] == m]
        if own:
            Y = own[0]
            if not st.ts.get(("pending", Y)): self.say(fr, "twice", x["l"], "a token of %s is put behind %s more than once" % (Y, n))
            st.ts.pop(("pending", Y), None)
            if v[2] == "front": st.ts[("fronted", Y)] = 1
            self.append(I, st, n, Y, x, fr, v[2])
            return
        if self.guess:
            self.say(fr, "guess", x["l"], "a token is queued for the output while the parser only guesses: it is written again when the text is read for good")
            return
        later = [m for m in self.W.order[self.W.order.index(n) + 1:] if m in self.scen_queues(st) and self.q(st, m) != "E"]
        text = v == CUR or v[0] == "made" and LA in v[2] and st.con(LA)[:2] in self.W.escaped
        if v == OLD: self.say(fr, "old", x["l"], "a token that has already been consumed is queued again")
        elif text:
            st.ts[("pushed",)] = self.pushed(st) + 1
            if v[0] == "made": self.made.append((x["l"], st.ts.get(("text", v))))
            if later: self.say(fr, "order", x["l"], "text is queued in %s before what still waits in %s: it changes places with text before it" % (n, later[0]))
            if self.q(st, n) == "V": self.say(fr, "moved", x["l"], "%s is used after its tokens were moved to another queue" % n)
        elif v[0] == "made": pass
        else: self.say(fr, "unknown", x["l"], "what is queued is neither the current token nor a new element")
        if self.q(st, n) == "E": self.setq(st, n, "M")

    def scen_queues(self, st):
        """the queues that can hold text that is not yet written"""
        return self.W.order

    def append(self, I, st, X, Y, x, fr, how="all"):
        o = self.W.order
        if X == Y: return
        if o.index(X) > o.index(Y) and self.q(st, Y) != "E": self.say(fr, "order", x["l"], "the tokens of %s are put behind those of %s, which come later in the source" % (Y, X))
        mid = [m for m in o[o.index(X) + 1:o.index(Y)] if self.q(st, m) not in ("E", "V")]
        if mid and self.q(st, Y) != "E": self.say(fr, "order", x["l"], "the tokens of %s are put behind those of %s, before the ones that wait in %s" % (Y, X, mid[0]))
        if self.q(st, X) == "V": self.say(fr, "moved", x["l"], "%s is used after its tokens were moved to another queue" % X)
        if self.q(st, Y) == "V" and how == "all": self.say(fr, "moved", x["l"], "the tokens of %s are moved twice" % Y)
        if self.q(st, Y) == "M":
            if how != "front": self.setq(st, Y, "V")
            if self.q(st, X) == "E": self.setq(st, X, "M")

    def consumed(self, I, st):
        """the current token is another one from here on"""
        for m in (st.mem, st.ev):
            for k, v in list(m.items()):
                if contains(v, CUR): m[k] = subst(v, CUR, OLD)
                elif contains(v, LA): m[k] = ("top", "la")
        st.facts = {k: v for k, v in st.facts.items() if not contains(k, LA) and not contains(k, CUR)}
        st.ts = {k: v for k, v in st.ts.items() if not contains(k, LA) and k != ("fmt",)}
        st.ts[("pushed",)] = 0

    def base_consume(self, I, st, x, fr):
        self.nconsume += 1
        n = self.pushed(st)
        if not self.guess and n != 1:
            self.say(fr, "lost" if n == 0 else "twice", x["l"], "a token is consumed that was not queued for the output: its text is lost" if n == 0 else "a token is consumed that was queued twice: its text is doubled")
        self.consumed(I, st)

    def grammar(self, I, st, x, fr, name):
        if self.pushed(st): self.say(fr, "early", x["l"], "the current token is queued before %s, which queues it again" % name)
        cur = self.current(st)
        self.check(st, fr, x["l"], cur, "when %s is called" % name)
        if self.W.live(cur) and len(self.W.live(cur)) == len(self.W.ptrs): self.W.need(cur)
        else: self.say(fr, "mode", x["l"], "which queues are in use is not known when %s is called" % name)
        self.consumed(I, st)
        if not self.guess:
            for m in self.W.live(cur) or self.W.queues: self.setq(st, m, "M")
        st.ts[("cur",)] = cur

    def check(self, st, fr, line, cur, when):
        live = self.W.live(cur)
        for m in self.W.queues:
            if self.q(st, m) == "V": self.say(fr, "emptied", line, "%s still holds moved tokens %s" % (m, when))
        if live is not None:
            for m in self.W.order[self.W.order.index(live[-1]) + 1:]:
                if self.q(st, m) != "E": self.say(fr, "stranded", line, "%s can hold tokens %s: text written after it goes before it" % (m, when))

    # ---- hooks
    def call(self, I, st, qn, args, x, fr):
        u = x.get("fn")
        if u in self.W.bases: return
        if u in self.W.grammar and not self.W.inlined(u): self.grammar(I, st, x, fr, qn.split("::")[-1])

    def result(self, I, st, qn, val, x, fr):
        st.mem[("f", ISTATE, "guessing")] = ("int", self.guess)
        cur = st.ts.get(("cur",))
        if cur is not None and x.get("fn") in self.W.grammar:
            for fld, v in cur: st.mem[("f", THIS, fld)] = v
            del st.ts[("cur",)]

    def edge(self, I, st, frm, to, fr):
        if to in fr.fi.heads:
            for m in self.W.queues:
                if st.ts.pop(("pending", m), None): st.ts[("left", m)] = 1

    def read(self, I, st, m, how):
        """an element of a queue is looked at"""
        st.ts[("pending", m)] = 1
        return ("elem", m, how)

    def drained(self, st, m):
        """a walk over a queue has come to its end: were all of its tokens moved?"""
        st.ts.pop(("pending", m), None)
        if st.ts.pop(("left", m), None): st.ts[("q", m)] = "M"
        elif self.q(st, m) == "M": st.ts[("q", m)] = "E"

    def branch(self, I, st, term, val, fr):
        for m in self.W.queues:
            if contains(term, ("qend", m)) and st.con(("qend", m))[:2] == (1, 1):
                self.drained(st, m)
                st.facts.pop(("qend", m), None)
            elif contains(term, ("qend", m)): st.facts.pop(("qend", m), None)
        for m in self.W.queues:
            if self.q(st, m) == "M" and (st.con(("qempty", m))[:2] == (1, 1) or st.con(("qsize", m))[:2] == (0, 0)): st.ts[("q", m)] = "E"
            elif term[0] == "app" and term[1] in ("<", "!=", "==") and ("qsize", m) in term and val == (term[1] == "=="):
                other = [t for t in term[2:] if t != ("qsize", m)]
                if other == [INT0] or other and other[0][0] == "loop": self.drained(st, m)


class QInterp(Interp):
    def run(self, fr, st):
        by = {}
        for o in super().run(fr, st):
            keep = self.W.ptrs + self.W.modes
            for l in [l for l in o.st.mem if l[0] == "f" and l[1] == THIS and l[2] not in keep]: del o.st.mem[l]
            for t in [t for t in o.st.facts if t[0] == "init" and t[1][0] == "f" and t[1][1] == THIS and t[1][2] not in keep]: del o.st.facts[t]
            k = (o.kind, o.val, o.extra, self.joinkey(o.st))
            if k in by: by[k].st = self._widen(fr, "out", by[k].st, o.st)
            else: by[k] = o
        return list(by.values())

    def _with_exc(self, fr, x, s, d):
        W = self.W
        if x.get("fn") in W.grammar and x.get("fn") not in W.bases:
            return [Outcome("val", s), Outcome("exc", s.copy(), None, x.get("try"))]
        return super()._with_exc(fr, x, s, d)


def own(f): return f.get("cls") == CLS or str(f.get("cls", "")).startswith(CLS + "::") or f["file"].endswith("/" + CLS + ".hpp")


class World:
    def __init__(self, P, E):
        self.P, self.E = P, E
        rec = P.records.get(CLS)
        if not rec: raise facts.AnalysisBroken("class %s not found" % CLS)
        self.queues, self.ptrs, self.modes = [], [], []
        for fl in rec["fields"]:
            t = P.type(fl["t"])
            if t["k"] == "rec" and notmpl(t["r"]) in LISTED and "Token" in t["s"]: self.queues.append(fl["n"])
            elif t["k"] == "ptr" and any(c.split("::")[1] + "<" in t["s"] for c in LISTED) and "Token" in t["s"]: self.ptrs.append(fl["n"])
            elif t["k"] == "bool": self.modes.append(fl["n"])
        self.fns = [f for f in P.funcs.values() if own(f)]
        mine = {f["usr"] for f in self.fns}
        # functions of the grammar and the runtime that lead back to the stream parser
        rev = {}
        for u, f in P.funcs.items():
            if not (f.get("cls") in (CLS, "srcMLParser") or "/parser/" in f["file"] or "parser/" in f["file"]): continue
            for x in f["exprs"].values():
                v = x.get("fn")
                if v is None: continue
                for w in [v] + (sorted(P.all_overriders(v)) if x.get("vc") else []): rev.setdefault(w, set()).add(u)
        eat = {f["usr"] for f in self.fns if f["n"] == "consume"} | {u for u, d in P.decls.items() if notmpl(d.get("qn", "")) in ("antlr::Parser::match", "antlr::LLkParser::match")}
        seen, todo = set(), list(eat)
        while todo:
            for v in rev.get(todo.pop(), ()):
                if v not in seen: seen.add(v); todo.append(v)
        self.bases = {u for u, d in P.decls.items() if notmpl(d.get("qn", "")) in ("srcMLParser::consume", "antlr::LLkParser::consume", "antlr::Parser::consume")}
        self.grammar = {u for u in seen | eat if u not in mine} - self.bases
        self.mine = mine
        self.scens, self.todo = {}, []
        self.order = list(self.queues)
        self.escaped = [(k["v"], k["v"]) for en in P.enums.values() for k in en.get("k", ()) if k["n"].split("::")[-1] == "CONTROL_CHAR" and k["n"].startswith("srcMLParser")]
        # flags that go with the choice of the queues
        wr = {f["usr"]: {ex[str(x["ops"][0])].get("f") for x in ex.values() if x["k"] == "BinaryOperator" and x["op"] == "=" and ex[str(x["ops"][0])].get("rec") == CLS} for f in self.fns for ex in (f["exprs"],)}
        calls = {f["usr"]: {x["fn"] for x in f["exprs"].values() if x.get("fn") in mine} for f in self.fns}
        A = {u for u in wr if wr[u] & set(self.ptrs) and P.funcs[u]["n"] != CLS}
        A |= {u for u in calls if calls[u] & A}
        A |= {v for u in A for v in calls[u]}
        self.modes = [m for m in self.modes if any(m in wr[u] for u in A)]

    def inlined(self, u): return u in self.mine

    def live(self, cur):
        """the queues a mode uses, in order"""
        out = []
        for fld, v in cur:
            if fld in self.ptrs and v[0] == "addr" and v[1][0] == "f" and v[1][2] in self.queues: out.append(v[1][2])
        return sorted(out, key=self.order.index) or None

    def need(self, cur):
        modes = tuple((f, v) for f, v in cur if f in self.ptrs or v[0] == "int")
        if modes not in self.scens:
            self.scens[modes] = None
            self.todo.append(modes)

    def interp(self, f, scen, guess):
        H = Queues(self, f, scen, guess)
        I = QInterp(self.P, H, max_depth=8, budget=200000, effects=self.E, inline_filter=lambda g, fr: own(g))
        I.W = self
        I.joinkey = lambda st: (frozenset(st.ts.items()), H.current(st), st.con(LA)[:2] in self.escaped, CUR in st.mem.values())
        models(I, H)
        return I, H


def models(I, H):
    def pv(st, a): return I.read(st, a[1]) if a[0] == "L" else a
    P = I.P

    def LTm(I, fr, fi, i, x, s, d, o, a):
        k = pv(s, a[0])
        return CUR if k == ("int", 1) else ("app", "LT", k)

    def LAm(I, fr, fi, i, x, s, d, o, a):
        k = pv(s, a[0])
        if k != ("int", 1): return ("call", (fr.id, i), "LA")
        return LA
    for c in ("antlr::LLkParser", "antlr::Parser", "srcMLParser"):
        I.models[c + "::LT"] = LTm
        I.models[c + "::LA"] = LAm

    def consume(I, fr, fi, i, x, s, d, o, a):
        H.base_consume(I, s, x, fr)
        return ("void",)
    for u in H.W.bases: I.models[notmpl(P.decls[u]["qn"])] = consume

    def ref_ctor(I, fr, fi, i, x, s, d, a): return pv(s, a[0]) if a else INT0

    def ref_any(I, fr, fi, i, x, s, d, o, a):
        n = d["n"]
        loc = I.deref_loc(o) if o is not None else None
        if n in ("operator->", "get") or n.startswith("operator antlr") or n.startswith("operator class") or n.startswith("operator T"): return ("ptrto", I.read(s, loc))
        if n == "operator*": return ("L", ("d", ("ptrto", I.read(s, loc))))
        if n == "operator=":
            v = pv(s, a[0])
            s.write(loc, v)
            return ("L", loc)
        return NotImplemented
    I.models["antlr::TokenRefCount::ctor"] = ref_ctor
    I.models["antlr::TokenRefCount::*"] = ref_any
    I.models["antlr::RefCount::operator->"] = lambda I, fr, fi, i, x, s, d, o, a: ("addr", ISTATE)

    def gettext(I, fr, fi, i, x, s, d, o, a): return ("text", o) if o is not None else NotImplemented

    def settext(I, fr, fi, i, x, s, d, o, a):
        if o is not None and o[0] == "ptrto" and o[1][0] == "made": s.ts[("text", o[1])] = pv(s, a[0])
        elif o is not None and o[0] == "ptrto" and o[1] in (CUR, OLD): H.say(fr, "text", x["l"], "the text of a source token is replaced")
        return ("void",)

    def settype(I, fr, fi, i, x, s, d, o, a):
        if o is not None and o[0] == "ptrto" and o[1] == CUR: H.say(fr, "type", x["l"], "the type of a source token is replaced")
        return ("void",)
    for c in {d.get("cls") for d in P.decls.values() if d.get("n") in ("getText", "setText") and d.get("cls")}:
        if not c: continue
        I.models[notmpl(c) + "::getText"] = gettext
        I.models[notmpl(c) + "::setText"] = settext
        I.models[notmpl(c) + "::setType"] = settype

    def factory(I, fr, fi, i, x, s, d, o, a):
        return ("made", (fr.fi.f["qn"].split("(")[0], i), tuple(pv(s, y) for y in a))
    for u, d in P.decls.items():
        if "ret" not in d or d.get("sys") or str(d.get("cls", "")).startswith("antlr"): continue
        t = P.type(d["ret"])
        if t["k"] == "ptr" and ("antlr::Token *" in t["s"] or "srcMLToken *" in t["s"]) and d.get("cls") != CLS: I.models[notmpl(d["qn"])] = factory

    def ident_ctor(I, fr, fi, i, x, s, d, a): return pv(s, a[0]) if a else INT0
    for c in ("std::_Deque_iterator", "std::move_iterator", "std::_List_iterator", "__gnu_cxx::__normal_iterator"): I.models[c + "::ctor"] = ident_ctor
    I.models["std::make_move_iterator"] = lambda I, fr, fi, i, x, s, d, o, a: pv(s, a[0])
    for n in ("std::begin", "std::end", "std::cbegin", "std::cend"):
        I.models[n] = lambda I, fr, fi, i, x, s, d, o, a: ("app", "it:" + d["n"].lstrip("c"), ("addr", I.as_loc(fr, 0, a[0], s)))
    for n in ("std::back_inserter", "std::inserter"):
        I.models[n] = lambda I, fr, fi, i, x, s, d, o, a: ("app", "back", ("addr", I.as_loc(fr, 0, a[0], s)))

    def qof(st, v):
        """the queue and end of an iterator"""
        if v[0] == "app" and len(v) >= 3 and v[1] in ("it:begin", "it:end", "it:cbegin", "it:cend", "back") and v[2][0] == "addr": return v[1].replace("it:c", "it:"), H.name(st, v[2][1])
        return None, None

    def whole(st, a, b, x, fr):
        k1, y1 = qof(st, a)
        k2, y2 = qof(st, b)
        if y1 is None and y2 is None: return None
        if y1 != y2 or (k1, k2) != ("it:begin", "it:end"):
            H.say(fr, "part", x["l"], "only a part of %s is moved to another queue" % (y1 or y2))
        return y1 or y2

    def transfer(I, fr, fi, i, x, s, d, o, a):
        if len(a) == 1: return a[0]
        if len(a) != 3: return NotImplemented
        v = [pv(s, y) for y in a]
        Y = whole(s, v[0], v[1], x, fr)
        k, X = qof(s, v[2])
        if Y is None and X is None: return NotImplemented
        if X is None or Y is None: H.say(fr, "unknown", x["l"], "tokens are moved from or to an unknown place")
        else: H.append(I, s, X, Y, x, fr)
        return ("void",)
    I.models["std::move"] = transfer
    I.models["std::copy"] = transfer

    old = I.models["std::deque::*"]

    def container(I, fr, fi, i, x, s, d, o, a):
        if o is None: return NotImplemented
        loc = I.deref_loc(o)
        X = H.name(s, loc)
        n = d["n"]
        if X is None: return old(I, fr, fi, i, x, s, d, o, a)
        H.nev += 1
        if n in ("emplace_back", "push_back"):
            H.push(I, s, loc, pv(s, a[0]), x, fr)
            return ("L", ("ix", loc, ("str", "back")))
        if n in ("front", "back", "operator[]", "at"):
            at = ("ix", loc, ("str", n) if not a else pv(s, a[0]))
            if n != "back": s.mem[at] = H.read(I, s, X, "front" if n == "front" else "any")
            return ("L", at)
        if n in ("begin", "end", "cbegin", "cend"): return ("app", "it:" + n, ("addr", loc))
        if n == "empty":
            if H.q(s, X) == "E": return ("int", 1)
            if H.q(s, X) == "V": return ("int", 0)
            t = ("qempty", X)
            s.facts.setdefault(t, (0, 1, frozenset()))
            return t
        if n == "size":
            if H.q(s, X) == "E": return INT0
            t = ("qsize", X)
            s.facts.setdefault(t, (0, POS, frozenset()))
            return t
        if n in ("reserve", "shrink_to_fit", "max_size", "get_allocator"): return ("void",)
        if n == "insert":
            v = [pv(s, y) for y in a]
            k, Z = qof(s, v[0])
            if Z != X or k != "it:end": H.say(fr, "order", x["l"], "tokens are inserted into %s not at its end" % X)
            if len(v) == 3:
                Y = whole(s, v[1], v[2], x, fr)
                if Y is None: H.say(fr, "unknown", x["l"], "what is inserted into %s are not the tokens of a queue" % X)
                else: H.append(I, s, X, Y, x, fr)
            elif len(v) == 2: H.push(I, s, loc, v[1], x, fr)
            return ("call", (fr.id, i), n)
        if n == "clear":
            if s.ts.pop(("pending", X), None) or s.ts.pop(("left", X), None) or H.q(s, X) == "M": H.say(fr, "dropped", x["l"], "%s is emptied without its tokens being moved to another queue" % X)
            H.setq(s, X, "E")
            return ("void",)
        if n == "swap":
            Z = H.name(s, a[0][1]) if a[0][0] in ("L", "obj") else None
            if Z is None: H.say(fr, "unknown", x["l"], "the tokens of %s are exchanged with those of something else" % X)
            else:
                A, B = (X, Z) if H.q(s, X) == "E" else (Z, X)
                if H.q(s, A) != "E": H.say(fr, "order", x["l"], "the tokens of %s and %s are exchanged" % (X, Z))
                H.append(I, s, A, B, x, fr)
                H.setq(s, B, "E")
            return ("void",)
        if n == "operator=":
            v = a[0]
            Z = H.name(s, v[1]) if v[0] == "L" else None
            if H.q(s, X) == "M": H.say(fr, "dropped", x["l"], "%s is overwritten" % X)
            H.setq(s, X, "E")
            if Z is not None: H.append(I, s, X, Z, x, fr)
            return ("L", loc)
        if n in ("pop_front", "erase"):
            if n == "erase":
                v = [pv(s, y) for y in a]
                if len(v) == 2 and whole(s, v[0], v[1], x, fr) == X and H.q(s, X) != "M":
                    H.setq(s, X, "E")
                    return ("void",)
                if qof(s, v[0]) != ("it:begin", X) or len(v) != 1: H.say(fr, "dropped", x["l"], "tokens are removed from %s" % X)
            if s.ts.pop(("fronted", X), None):
                s.ts.pop(("pending", X), None)
                return ("void",)
            s.ts.pop(("pending", X), None)
            s.ts[("pop", X)] = s.ts.get(("pop", X), 0) + 1
            if s.ts[("pop", X)] > 3: s.ts[("pop", X)] = 3
            H.setq(s, X, "M")
            return ("void",)
        if d.get("const"): return ("call", (fr.id, i), n)
        H.say(fr, "dropped", x["l"], "%s() changes the tokens waiting in %s" % (n, X))
        return ("call", (fr.id, i), n)
    for c in LISTED: I.models[c + "::*"] = container

    def step(I, fr, fi, i, x, s, d, o, a):
        """iterators over a queue: a walk is from one token to the next"""
        n = d["n"]
        loc = I.deref_loc(o) if o is not None else None
        v = I.read(s, loc) if loc is not None else pv(s, a[0]) if a else INT0
        k, Y = qof(s, v)
        if Y is None: return NotImplemented
        if n == "operator++": return ("L", loc) if not a and loc is not None else v
        if n in ("operator*", "operator->"):
            at = ("ix", ("f", THIS, Y), ("str", "walked"))
            s.mem[at] = H.read(I, s, Y, "any")
            return ("L", at) if n == "operator*" else ("addr", at)
        if n in ("operator!=", "operator=="):
            w = pv(s, a[-1])
            if qof(s, w)[1] != Y: return NotImplemented
            s.facts[("qend", Y)] = (0, 1, frozenset())
            return ("qend", Y) if n == "operator==" else app("==", ("qend", Y), INT0)
        return NotImplemented
    for c in ("std::_Deque_iterator", "std::move_iterator", "std::_List_iterator", "__gnu_cxx::__normal_iterator"):
        for n in ("operator++", "operator*", "operator->", "operator!=", "operator=="): I.models[c + "::" + n] = step
    for n in ("std::operator!=", "std::operator==", "__gnu_cxx::operator!=", "__gnu_cxx::operator=="):
        I.models[n] = step


    def fmt(I, fr, fi, i, x, s, d, o, a):
        v = [pv(s, y) for y in a]
        s.ts[("fmt",)] = tuple(v)
        return ("call", (fr.id, i), "snprintf")
    I.models["snprintf"] = fmt


def analyze(P, E):
    """{(kind, function, line): (f, line, text)}, counts"""
    W = World(P, E)
    # the queues in use from the constructor on, in the order of the source
    bad, stats = {}, {"runs": 0, "pushes": 0, "consumes": 0, "events": 0, "made": []}
    start = None
    for f in W.fns:
        if f["n"] != CLS: continue
        I, H = W.interp(f, None, 0)
        for m in W.queues: pass

        def setup(I, st, fr):
            for m in W.queues: st.ts[("q", m)] = "E"
            st.mem[("f", ISTATE, "guessing")] = INT0
        for o in I.analyze(f, setup=setup):
            if o.kind != "ret": continue
            start = H.current(o.st)
    if start is None or not W.live(start): raise facts.AnalysisBroken("the queues that the constructor of %s selects were not found" % CLS)
    W.scens, W.todo = {}, []
    first = W.live(start)
    ptrs = {f: v for f, v in start if f in W.ptrs}
    # output before skipped: what is skipped is flushed to the output
    W.order = first + [m for m in W.queues if m not in first]
    return W, start, bad, stats


def roots(W):
    P = W.P
    used = set()
    for u, f in P.funcs.items():
        if own(f): continue
        for x in f["exprs"].values():
            v = x.get("fn")
            if v is None: continue
            used.add(v)
            if x.get("vc"): used |= set(P.all_overriders(v))
    out = []
    for f in W.fns:
        if f.get("cls") != CLS or f["n"] == CLS or f["n"].startswith("~") or f["usr"] not in used: continue
        out.append(f)
    return out


def one(W, job):
    scen, guess, u = job
    f = W.P.funcs[u]
    I, H = W.interp(f, scen, guess)
    last = W.order.index(W.live(scen)[-1])
    before = set(W.scens)

    def setup(I, st, fr):
        for k, m in enumerate(W.order): st.ts[("q", m)] = "M" if k <= last else "E"
        st.mem[("f", ISTATE, "guessing")] = ("int", guess)
        for fld, v in scen: st.mem[("f", THIS, fld)] = v
    outs = I.analyze(f, setup=setup)
    fr = Frame((f["usr"],), I.fi(f), None, None, False)
    for o in outs:
        st = o.st
        how = "when %s is left%s" % (f["n"], "" if o.kind == "ret" else " by an exception")
        cur = dict(H.current(st))
        for fld, v in scen:
            if cur[fld] != v: H.say(fr, "mode", f["line"], "%s is not what it was %s: what follows is queued in the wrong place" % (fld, how))
        H.check(st, fr, f["line"], H.current(st), how)
        if H.pushed(st) and not guess: H.say(fr, "early", f["line"], "the current token has been queued %s but not consumed: it is queued again" % how)
        pops = {k[1]: v for k, v in st.ts.items() if k[0] == "pop"}
        v = o.val
        if v is not None and v[0] == "L" and v[1][0] == "ix" and H.name(st, v[1][1]) and v[1][2] in (("str", "front"), INT0):
            X = H.name(st, v[1][1])
            if o.kind == "ret" and pops != {X: 1}: H.say(fr, "handed", f["line"], "a token is handed out and the one before it was removed %s times" % pops.get(X, 0))
            if X != W.order[0]: H.say(fr, "handed", f["line"], "a token of %s is handed out, which are not the next ones" % X)
        elif pops and o.kind == "ret": H.say(fr, "dropped", f["line"], "tokens are removed from %s which are not handed out" % sorted(pops)[0])
    bad = {k: (v[0]["usr"], v[1], v[2]) for k, v in H.bad.items()}
    return bad, (H.npush, H.nconsume, H.nev), H.made, sorted(I.stats["functions"]), [s for s in W.scens if s not in before]


def run(P, E):
    """the typestate of the queues over every way the parser, the grammar and the writer call the stream parser"""
    W, start, bad, stats = analyze(P, E)
    fs = roots(W)
    W.need(start)
    inl, done = set(), []
    while W.todo:
        jobs = []
        for scen in W.todo:
            live = W.live(scen)
            done.append(scen)
            if live is None or len(live) != len(W.ptrs):
                bad[("queues", CLS, 0)] = (fs[0], fs[0]["line"], "the grammar is called with queues in use that are not known or are the same")
                continue
            jobs += [(scen, g, f["usr"]) for f in sorted(fs, key=lambda f: f["n"] != "nextToken") for g in (0, 1)]
        W.todo = []
        for b, n, made, fu, new in pmap(lambda j: one(W, j), jobs):
            for k, (u, l, t) in b.items(): bad.setdefault(k, (P.funcs[u], l, t))
            stats["runs"] += 1
            stats["pushes"] += n[0]
            stats["consumes"] += n[1]
            stats["events"] += n[2]
            stats["made"] += [m for m in made if m not in stats["made"]]
            inl |= set(fu)
            for s in new: W.need(s)
        if len(done) > 6: raise facts.AnalysisBroken("too many ways of choosing the queues: %s" % (done,))
    stats["scenarios"], stats["roots"], stats["functions"] = len(done), len(fs), len(inl)
    return W, bad, stats
