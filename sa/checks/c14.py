"""C14: every element that the parser opens is closed exactly once, as itself, and written so."""
from ..interp import *
from .. import facts
from ..par import pmap
from ..report import Report
from ..tokenout import vocabulary
from .c13 import unroll

SP = "StreamMLParser"
ISTATE = ("istate",)
CAT = {}
STACKS = ("std::stack", "std::deque", "std::list", "std::vector")


def field(loc):
    while loc and loc[0] in ("d", "ix", "addr", "init") or loc and loc[0] == "f" and loc[2] in ("c", "$val"): loc = loc[1]
    return loc[2] if loc and loc[0] == "f" else None


def categories(P):
    """function that makes a token of a category -> the category"""
    out = {}
    for u, f in P.funcs.items():
        for i, x in f.get("exprs", {}).items():
            d = P.decls.get(x.get("fn") or "")
            if not d or d.get("cls") != "srcMLToken" or len(x.get("ops", ())) != 2: continue
            n = enumname(f, x["ops"][1])
            if n and len(f["params"]) == 1: out[u] = n
    return out


def enumname(f, i, n=0):
    x = f["exprs"].get(str(i))
    if x is None or n > 6: return None
    if "ec" in x: return x["ec"].split("::")[-1]
    return enumname(f, x["ops"][0], n + 1) if len(x.get("ops", ())) == 1 else None


class Events(Hooks):
    def __init__(self, P): self.P, self.record, self.bad, self.n = P, True, {}, {}

    def count(self, k): self.n[k] = self.n.get(k, 0) + 1

    def ev(self, st, *e):
        if not self.record: return
        l = st.ts.get("e", ())
        if len(l) < 40: st.ts["e"] = l + (e,)


def machine(P, depth=5, budget=60000, record=True):
    """an interpreter that notes tags queued and what is done to the stacks of open elements"""
    H = Events(P)
    I = Interp(P, hooks=H, budget=budget, max_depth=depth)
    H.record = record
    def pv(s, a): return I.read(s, a[1]) if a[0] == "L" else a
    cats = categories(P)
    for u, c in cats.items():
        I.models[notmpl(P.decls[u]["qn"])] = (lambda c: lambda I, fr, fi, i, x, s, d, o, a: ("app", "tag", ("str", c), pv(s, a[0]), ("int", x.get("l", 0))))(c)
    I.models["antlr::TokenRefCount::ctor"] = lambda I, fr, fi, i, x, s, d, a: pv(s, a[0]) if a else INT0

    def ref(I, fr, fi, i, x, s, d, o, a):
        n = d["n"]
        v = I.read(s, I.deref_loc(o)) if o is not None else None
        if n in ("operator->", "get") or n.startswith("operator antlr") or n.startswith("operator T"): return ("ptrto", v)
        if n == "operator*": return ("L", ("d", ("ptrto", v)))
        if n == "operator=":
            s.write(I.deref_loc(o), pv(s, a[0]))
            return o
        return NotImplemented
    I.models["antlr::TokenRefCount::*"] = ref
    I.models["antlr::RefCount::operator->"] = lambda I, fr, fi, i, x, s, d, o, a: ("addr", ISTATE)

    def LA(I, fr, fi, i, x, s, d, o, a): return ("init", ("LA", s.ts.get("n", 0))) if pv(s, a[0]) == ("int", 1) else ("app", d["n"], pv(s, a[0]))

    def LT(I, fr, fi, i, x, s, d, o, a): return ("app", "current", ("int", s.ts.get("n", 0))) if pv(s, a[0]) == ("int", 1) else ("app", d["n"], pv(s, a[0]))
    for c in ("antlr::LLkParser", "antlr::Parser", "srcMLParser"):
        I.models[c + "::LA"] = LA
        I.models[c + "::LT"] = LT

    def consume(I, fr, fi, i, x, s, d, o, a):
        s.ts["n"] = min(9, s.ts.get("n", 0) + 1)
        return ("void",)
    for c in ("antlr::LLkParser", "antlr::Parser", "srcMLParser"): I.models[c + "::consume"] = consume

    def changed(s, f):
        for k in [k for k in s.facts if contains(k, ("str", f)) or f == "st" and contains(k, ("str", "openelements"))]: s.facts.pop(k)

    def stack(I, fr, fi, i, x, s, d, o, a):
        n = d["n"]
        if o is None: return NotImplemented
        loc = I.deref_loc(o)
        f = field(loc)
        v = [pv(s, y) for y in a]
        if n in ("push", "emplace", "push_back", "emplace_back", "push_front", "emplace_front") and v:
            if v[0][0] == "app" and v[0][1] == "tag":
                if f == "ends": H.ev(s, "ends", "push", v[0][3])
                else:
                    H.ev(s, "tag", v[0][2][1], v[0][3])
                    if n.endswith("front"): H.ev(s, "front")
            elif f in ("openelements", "open_comments", "st"): H.ev(s, f, "push", v[0])
            elif "::back'" in str((a[0], v[0])) or "::front'" in str((a[0], v[0])): s.ts["aside"] = 1
            if f: changed(s, f)
            return ("void",)
        if n in ("pop", "pop_back", "pop_front"):
            if f in ("openelements", "open_comments", "ends", "st"): H.ev(s, f, "pop", None)
            if f == "st":
                H.count("modes ended")
                empty = s.truth(("app", "empty", ("str", "openelements"))), s.truth(("app", "empty", ("str", "st")))
                if s.ts.pop("aside", 0): H.count("modes moved aside")
                elif 1 not in empty and s.truth(("app", "size", ("str", "openelements"))) != 0: H.bad.setdefault((fi.f["usr"], x.get("l")), (fi.f, x.get("l"), "ends a mode whose elements may still be open"))
            if f: changed(s, f)
            return ("void",)
        if n in ("top", "back", "front") and f in ("openelements", "open_comments", "ends"): return ("app", "top", ("str", f))
        if n in ("empty", "size") and f: return ("app", n, ("str", f))
        return NotImplemented
    for c in STACKS: I.models[c + "::*"] = stack
    H.changed = changed
    return I, H


def nog(I, st, fr): st.mem[("f", ISTATE, "guessing")] = INT0


def events(o): return o.st.ts.get("e", ())


def methods(P, names):
    for f in P.funcs.values():
        if f.get("cls") == SP and f["n"] in names and "blocks" in f and not (f["n"] == "completeSkip" and f["params"]): yield f


NAMES = ("startElement", "startNoSkipElement", "endElement", "emptyElement", "addElement")


def asked(s):
    """what the modes that were asked for turned out to be"""
    out = []
    for g in s.facts:
        t = show(g) if isinstance(g, tuple) else ""
        if "operator&" not in t and ":test(" not in t or s.truth(g) is None: continue
        zero = "bitset(0)" in t or "bitset()" in t
        out.append(s.truth(g) ^ int(":none(" in t or ":operator==(" in t and zero or ":operator!=(" in t and not zero))
    return out


def elements(P, _):
    """what the parser calls to open and close an element does to the stack of open elements and to the tags"""
    viol, done = {}, {}
    for f in methods(P, NAMES):
        def bad(k, t): viol["%s %s" % (f["n"], k)] = (f["file"], f["line"], "%s::%s %s" % (SP, f["n"], t))
        I, H = machine(P)
        arg = ("p", f["params"][0]["v"])
        for o in I.analyze(f, setup=nog):
            if o.kind != "ret": continue
            e = events(o)
            done["ways to open or close an element"] = done.get("ways to open or close an element", 0) + 1
            tags = [x for x in e if x[0] == "tag"]
            stack = [x[1] for x in e if x[0] == "openelements"]
            kinds = [x[1][:-5] for x in tags]
            if any(x[2] != arg for x in tags) or any(x[0] == "openelements" and x[1] == "push" and x[2] != arg for x in e): bad("id", "opens or closes another element than it is given")
            issue = asked(o.st)
            want = {"startElement": (["START"], ["push"]), "startNoSkipElement": (["START"], ["push"]), "addElement": ([], ["push"]), "emptyElement": (["EMPTY"], []), "endElement": (["END"], ["pop"])}[f["n"]]
            if f["n"] == "endElement" and kinds == ["START", "END"]: want = (["START", "END"], ["pop"])
            if f["n"] == "endElement" and 1 in issue and kinds == ["END"]: bad("issue", "does not open an element that was left to be opened when it is closed")
            if f["n"] == "endElement" and kinds == ["START", "END"] and 1 not in issue: bad("twice", "opens an element a second time when it is closed")
            if kinds != want[0]: bad("tags", "queues the tags %s instead of %s" % (", ".join(kinds) or "none", ", ".join(want[0]) or "none"))
            if stack != want[1]: bad("stack", "does %s to the stack of open elements instead of %s" % (", ".join(stack) or "nothing", ", ".join(want[1]) or "nothing"))
            ends(e, bad)
            if any(x[0] == "front" for x in e): bad("front", "queues a tag in front of what was there before")
    return viol, done


def ends(e, bad):
    """the tags whose end position is still to be set: one for each opened element"""
    if len(e) >= 40: return
    a, b = sum(x[:2] == ("ends", "push") for x in e), sum(x[:2] == ("ends", "pop") for x in e)
    s, t = sum(x[:2] == ("tag", "STARTTOKEN") for x in e), sum(x[:2] == ("tag", "ENDTOKEN") for x in e)
    if (a or b) and (a, b) != (s, t): bad("ends", "remembers %d and settles %d end positions for %d tags opened and %d closed" % (a, b, s, t))
    if any(x[:2] == ("ends", "push") for x in e):
        if [x[2] for x in e if x[:2] == ("ends", "push")] != [x[2] for x in e if x[:2] == ("tag", "STARTTOKEN")]: bad("ends id", "remembers another tag than it opens for its end position")


def comments(P, _):
    """the elements of comments: opened and remembered, closed and forgotten"""
    viol, done, pairs = {}, {}, {}
    V = vocabulary(P, "srcMLParser")
    N = {v: k for k, v in V.items()}
    def nm(t): return N.get(t[1], str(t[1])) if t[0] == "int" else show(t)
    for f in methods(P, ("consumeSkippedToken", "completeSkip")):
        I, H = machine(P)
        for g in P.funcs.values():
            if g.get("cls") == "srcMLParser": I.opaque.add(notmpl(g["qn"]))
        for o in I.analyze(f, setup=nog):
            if o.kind != "ret": continue
            la = o.st.con(("init", ("LA", 0)))
            tok = N.get(la[0]) if la[0] == la[1] else None
            def bad(k, t): viol["%s %s %s" % (f["n"], tok, k)] = (f["file"], f["line"], "%s::%s%s %s" % (SP, f["n"], " at " + tok if tok else "", t))
            e = events(o)
            done["ways through the tokens that are skipped"] = done.get("ways through the tokens that are skipped", 0) + 1
            ends(e, bad)
            if len(e) >= 40: continue
            live, held, pops, closed = [], [], 0, []
            for x in e:
                if x[:2] == ("tag", "STARTTOKEN"): live.append(x[2])
                elif x[:2] == ("open_comments", "push"): held.append(x[2])
                elif x[:2] == ("open_comments", "pop"): pops += 1
                elif x[:2] == ("tag", "ENDTOKEN"):
                    if live:
                        if live.pop() != x[2]: bad("close id", "closes another element than it has opened")
                    else: closed.append(x[2])
                elif x[:1] == ("front",): bad("front", "queues a tag in front of what was there before")
            for t in closed:
                pairs.setdefault((tok or "", "end"), set()).add(nm(t))
                if t[0] == "app" and t[1] == "top" and t[2] != ("str", "open_comments"): bad("close", "closes an element that is not the comment")
            for t in held: pairs.setdefault((tok or "", "start"), set()).add(nm(t))
            if len(live) > len(held): bad("open", "opens %s and neither closes nor remembers it" % nm(live[-1]))
            elif len(live) < len(held): bad("held", "remembers a comment that it has not opened")
            elif live != held: bad("held id", "opens %s and remembers %s" % (nm(live[-1]), nm(held[-1])))
            if pops > len(closed): bad("forget", "forgets an open comment without closing it")
            if pops < len(closed): bad("extra", "closes a comment that stays remembered as open")
    for (t, w), ids in pairs.items():
        if w == "end" and not t and not all("top" in x for x in ids):
            f = next(methods(P, ("completeSkip",)))
            viol["close open"] = (f["file"], f["line"], "%s::%s closes an open comment under a name of its own" % (SP, f["n"]))
        if w == "start" and not t.endswith("_START"):
            f = next(methods(P, ("consumeSkippedToken",)))
            viol["comment " + t] = (f["file"], f["line"], "a comment opened at %s is remembered, with no token to close it" % (t or "any token"))
        if w == "start" and t.endswith("_START"):
            done["kinds of comments"] = done.get("kinds of comments", 0) + 1
            other = pairs.get((t[:-6] + "_END", "end"))
            f = next(methods(P, ("consumeSkippedToken",)))
            if other is None: viol["comment " + t] = (f["file"], f["line"], "a comment opened at %s is not closed at its end" % t)
            elif other != ids and not any("top" in x for x in other): viol["comment " + t] = (f["file"], f["line"], "a comment opened as %s is closed as %s" % ("/".join(ids), "/".join(other)))
    return viol, done


def modes(P, _):
    """no mode is left with open elements; what is closed is the innermost open element"""
    viol, done = {}, {}
    called = {x["fn"] for f in P.funcs.values() for x in f.get("exprs", {}).values() if "fn" in x}
    ending = {"endElement"}
    for u, f in sorted(P.funcs.items()):
        if "blocks" not in f: continue
        ds = [P.decls.get(x.get("fn") or "", {}) for x in f["exprs"].values()]
        direct = any(d.get("n") == "endElement" for d in ds) and f["n"] not in NAMES
        pops = any(d.get("n") in ("pop_back", "pop_front", "pop", "clear", "erase") and x["k"] == "CXXMemberCallExpr" and "st" in members_of(f, x) for x, d in zip(f["exprs"].values(), ds))
        if not direct and not pops or f.get("cls") == SP: continue
        if u not in called and not f["n"].startswith("~"): continue
        I, H = machine(P, record=False, budget=20000)
        def call(I, fr, fi, i, x, s, d, o, a, H=H, f=f):
            v = I.read(s, a[0][1]) if a and a[0][0] == "L" else a[0] if a else INT0
            H.count("elements closed")
            if v != ("app", "top", ("str", "openelements")) and v[0] != "top": H.bad.setdefault((fi.f["usr"], "end"), (fi.f, x.get("l"), "closes another element than the one opened last"))
            H.changed(s, "openelements")
            return ("void",)
        for c in (SP, "TokenParser", "srcMLParser", "ModeStack"): I.models[c + "::endElement"] = call
        try: I.analyze(f, setup=nog)
        except BudgetExceeded: continue
        for k, v in H.n.items(): done[k] = done.get(k, 0) + v
        for k, (g, l, t) in H.bad.items(): viol["%s %s" % (g["qn"].split("(")[0], t)] = (g["file"], l or g["line"], "%s %s" % (g["qn"].split("(")[0], t))
    # the states of modes that are made with open elements
    for u, f in sorted(P.funcs.items()):
        for i, x in f.get("exprs", {}).items():
            d = P.decls.get(x.get("fn") or "", {})
            if d.get("n") in ("operator=", "swap") and x.get("ops") and "openelements" in members_of(f, x) and u in called:
                done["stacks of open elements taken over"] = done.get("stacks of open elements taken over", 0) + 1
                flagged = any("MODE_ISSUE_EMPTY_AT_POP" in str(y.get("v", "")) for y in f["exprs"].values())
                later = any(m in str(y.get("n", y.get("f", ""))) for y in f["exprs"].values() for m in ("finish_elements_add",)) or any("finish_elements_add" in members_of(f, y) for y in f["exprs"].values() if y["k"] == "MemberExpr")
                if not flagged and not later: viol["%s takes" % f["qn"]] = (f["file"], x.get("l") or f["line"], "%s takes over open elements without tags to be opened for them" % f["qn"].split("(")[0])
    return viol, done


def members_of(f, x, n=0, depth=4):
    """names of the fields the object of a member call is reached through"""
    out = set()
    y = f["exprs"].get(str(x["ops"][0])) if x.get("ops") else None
    if x["k"] == "CXXOperatorCallExpr" and len(x.get("ops", ())) > 1: y = f["exprs"].get(str(x["ops"][1]))
    if x["k"] == "MemberExpr": y = x
    while y is not None and depth:
        for k in ("m", "f", "n", "fn"):
            if isinstance(y.get(k), str): out.add(y[k].split("@")[-1])
        y = f["exprs"].get(str(y["ops"][0])) if y.get("ops") else None
        depth -= 1
    return out


def open_modes(s):
    """what is known of the number of modes"""
    lo, hi, no = 0, 1 << 30, frozenset()
    for t in [("app", "size", ("str", "st"))] + list(s.facts):
        if not isinstance(t, tuple) or t[:1] != ("app",) or show(t).count("size(\"st\")") != 1 or show(t)[0] in "<>=!": continue
        if not (t[1] == "size" or t[1] == "cast"): continue
        a, b, c = s.con(t)[:3]
        lo, hi, no = max(lo, a), min(hi, b), no | c
    return lo, hi, no


def atend(P, _):
    """at the end everything is closed, comments first"""
    viol, done = {}, {}
    fs = [f for f in P.funcs.values() if any(P.decls.get(x.get("fn") or "", {}).get("n") == "endLastMode" for x in f.get("exprs", {}).values()) and "blocks" in f]
    for f in fs:
        def bad(k, t): viol["end " + k] = (f["file"], f["line"], "%s %s" % (f["qn"].split("(")[0], t))
        I, H = machine(P, record=False, budget=40000)
        last = []
        def step(n):
            def m(I, fr, fi, i, x, s, d, o, a):
                if n == "completeSkip": s.ts["q"] = 1
                elif n == "flushSkip": s.ts["q"] = 2 if s.ts.get("q") in (1, 2) else 0
                elif n == "endLastMode":
                    last.append(1)
                    if s.ts.get("q") != 2: bad("skip", "closes the last mode before open comments are closed and written")
                    if open_modes(s)[1] > 1: bad("modes", "closes the last mode while others are open")
                    s.ts["last"] = 1
                    H.changed(s, "st")
                elif n == "endMode": H.changed(s, "st")
                return ("void",)
            return m
        for n in ("completeSkip", "flushSkip", "endLastMode", "endMode"):
            for c in (SP, "TokenParser", "srcMLParser", "ModeStack"): I.models[c + "::" + n] = step(n)
        for c in (SP, "TokenParser"):
            for n in ("resumeStream", "nopStreamStart", "isPaused", "emptyElement"): I.opaque.add(c + "::" + n)
        for o in I.analyze(f, setup=nog):
            if o.kind != "ret": continue
            done["ways to end"] = done.get("ways to end", 0) + 1
            lo, hi, no = open_modes(o.st)
            while hi in no: hi -= 1
            if not o.st.ts.get("last") and hi >= 1: bad("unit", "may leave the last mode open")
        callers = [g for g in P.funcs.values() for x in g.get("exprs", {}).values() if x.get("fn") == f["usr"]]
        if not callers: bad("never", "is never called")
    return viol, done


def retype(P, _):
    """an element whose name is decided later gets it in the tag and on the stack"""
    viol, done = {}, {}
    for f in P.funcs.values():
        if f.get("cls") != "TokenPosition" or "blocks" not in f or len(f["params"]) != 1: continue
        I, H = machine(P)
        set_ = []
        def settype(I, fr, fi, i, x, s, d, o, a):
            s.ts["type"] = I.read(s, a[0][1]) if a[0][0] == "L" else a[0]
            return ("void",)
        for c in {d.get("cls") for d in P.decls.values() if d.get("n") == "setType" and d.get("cls")}:
            if "TokenPosition" not in c: I.models[notmpl(c) + "::setType"] = settype
        arg = ("p", f["params"][0]["v"])
        for o in I.analyze(f):
            if o.kind != "ret": continue
            done["names decided later"] = done.get("names decided later", 0) + 1
            sp = [v for l, v in o.st.mem.items() if l[0] == "d" and field(l) == "sp"]
            if o.st.ts.get("type") != arg: viol["retype tag"] = (f["file"], f["line"], "TokenPosition::%s does not set the type of the tag to the one it is given" % f["n"])
            if arg not in sp: viol["retype stack"] = (f["file"], f["line"], "TokenPosition::%s does not set the open element to the type it is given" % f["n"])
    return viol, done


def writer(P, _):
    """a tag of each kind is written as one start, one end, or both"""
    viol, done = {}, {}
    for f in P.funcs.values():
        if f.get("cls") != "srcMLOutput" or "blocks" not in f: continue
        if not any(P.decls.get(x.get("fn") or "", {}).get("n") == "isstart" for x in f["exprs"].values()): continue
        names = [p for p in f["params"] if P.type(p["t"])["k"] == "ptr"]
        for cat in ("start", "end", "empty"):
            H = Events(P)
            unroll(H)
            I = Interp(P, hooks=H, budget=60000)
            I.opaque.add("srcMLOutput::addPosition")
            I.models["isstart"] = lambda *z: ("int", int(cat == "start"))
            I.models["isempty"] = lambda *z: ("int", int(cat == "empty"))
            def call(I, st, qn, a, x, fr):
                if qn.startswith("xmlTextWriterStartElement"): H.ev(st, "S", a[2] if qn.endswith("NS") else a[1])
                elif qn.startswith(("xmlTextWriterEndElement", "xmlTextWriterFullEndElement")): H.ev(st, "E")
                elif qn.startswith("xmlTextWriterWriteAttribute"): H.ev(st, "A", a[1], a[2])
            H.call = call
            this = ("d", ("p", "this"))
            cnt = ("f", this, "openelementcount")

            def setup(I, st, fr):
                for p in names[:1]:
                    st.facts[("p", p["v"])] = (NEG, POS, frozenset({0}))
                    st.mem[("d", ("p", p["v"]))] = st.mem[("ix", ("d", ("p", p["v"])), INT0)] = ("int", 65)
                st.mem[cnt] = ("int", 100)
            for o in I.analyze(f, setup=setup):
                if o.kind != "ret": continue
                e = events(o)
                k = "".join(x[0] for x in e if x[0] in "SE")
                done["ways to write a tag"] = done.get("ways to write a tag", 0) + 1
                def bad(w, t): viol["%s %s %s" % (f["n"], cat, w)] = (f["file"], f["line"], "srcMLOutput::%s %s" % (f["n"], t))
                want = {"start": "S", "end": "E", "empty": "SE"}[cat]
                if k != want: bad("tags", "writes %s for %s tag" % ({"": "nothing", "S": "a start", "E": "an end", "SE": "an empty element"}.get(k, k), {"start": "a start", "end": "an end", "empty": "an empty"}[cat]))
                v = o.st.mem.get(cnt)
                if v and v[0] == "int" and v[1] - 100 != {"start": 1, "end": -1, "empty": 0}[cat]: bad("count", "counts %+d open elements for %s tag" % (v[1] - 100, {"start": "a start", "end": "an end", "empty": "an empty"}[cat]))
                for x in e:
                    if x[0] == "S" and names and x[1][0] == "p" and x[1] != ("p", names[0]["v"]): bad("name", "writes an element under another name")
                    if x[0] == "A" and x[1][0] == "p":
                        at = [j for j, p in enumerate(names) if x[1] == ("p", p["v"])]
                        if at and x[2][0] == "p" and (at[0] + 1 >= len(names) or x[2] != ("p", names[at[0] + 1]["v"])): bad("attribute", "writes the attribute %s with the value of another" % names[at[0]]["n"])
                        null = at and at[0] and o.st.truth(x[1]) == 0
                        if null: bad("null attribute", "writes an attribute without a name")
                if cat != "end":
                    for j in range(2, len(names) - 1, 2):
                        t = o.st.truth(("p", names[j]["v"]))
                        if t == 1 and not any(x[0] == "A" and x[1] == ("p", names[j]["v"]) for x in e): bad("attribute lost", "does not write the attribute %s of an element" % names[j]["n"])
                if any(a[0] == "A" and (i == 0 or "E" in [b[0] for b in e[:i]]) for i, a in enumerate(e)): bad("order", "writes an attribute outside of the start of its element")
    return viol, done


def bits(P, _):
    """every mode is one bit of its own"""
    viol, done, seen = {}, {}, {}
    def text(n):
        if "sv" in n: return n["sv"]
        for o in n.get("ops", ()):
            t = text(o)
            if t is not None: return t

    def num(n):
        if isinstance(n.get("cv"), int) and not isinstance(n.get("cv"), bool): return n["cv"]
        for o in n.get("ops", ()):
            t = num(o)
            if t is not None: return t
    for u, v in sorted(P.vars.items()):
        if "@MODE_" not in u or not isinstance(v.get("init"), dict): continue
        n = u.split("@")[-1]
        t = text(v["init"])
        if t is not None and set(t) <= set("01"): b = int(t, 2)
        else: b = num(v["init"])
        if b is None: continue
        done["modes"] = done.get("modes", 0) + 1
        if b.bit_count() != 1: viol["mode " + n] = (v.get("file", ""), v["init"].get("l", 0), "%s is not one bit (%d of them)" % (n, b.bit_count()))
        elif b in seen: viol["mode " + n] = (v.get("file", ""), v["init"].get("l", 0), "%s is the same bit as %s" % (n, seen[b]))
        seen.setdefault(b, n)
    return viol, done


def run_check():
    P = facts.load(("libsrcml", "parser", "gen"))
    R = Report("C14", "StreamMLParser is interpreted: on every way through the functions that open and close elements, the tags queued, the stack of open elements and the stack of end positions must change together and for the same "
               "element; on every way through the tokens that are skipped, each comment opened is closed or remembered, and each one remembered is closed as it was opened. Wherever a mode is removed its elements must be known to be "
               "closed, each as the innermost open one; at the end of the input comments, modes and the unit are closed in this order. The writer turns each kind of tag into exactly one start, one end, or both. "
               "Each mode is a bit of its own.")
    total = {}
    def job(j):
        try: return j(P, 0)
        except BudgetExceeded: return {}, {"parts too big to follow": 1}
    for viol, done in pmap(job, [elements, comments, modes, atend, retype, writer, bits]):
        for k, v in done.items(): total[k] = total.get(k, 0) + v
        for k, (file, l, t) in viol.items(): R.violation(k, "%s:%s" % (file.replace("/repo/", ""), l), t)
    for k, v in sorted(total.items()):
        R.ok("%s: %d" % (k, v), v)
        R.count(k, v)
    R.require("ways to open or close an element", total.get("ways to open or close an element", 0), 5)
    R.require("ways through the tokens that are skipped", total.get("ways through the tokens that are skipped", 0), 10)
    R.require("modes ended", total.get("modes ended", 0), 1)
    R.require("elements closed", total.get("elements closed", 0), 2)
    R.require("ways to end", total.get("ways to end", 0), 1)
    R.require("ways to write a tag", total.get("ways to write a tag", 0), 3)
    R.require("modes", total.get("modes", 0), 50)
    return R.finish(P)
