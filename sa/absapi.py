"""Abstract runs of the handle-based public functions: setters, getters, and the states between them."""
from .interp import *
from . import facts, api

OBJ = ("p", "obj")
OBJLOC = ("d", OBJ)
OK = INT0


def handle(P, f):
    """'srcml_archive' / 'srcml_unit' / ... when the first parameter is a handle"""
    if not f["params"]: return None
    t = P.type(f["params"][0]["t"])
    if t["k"] != "ptr": return None
    p = P.type(t["p"])
    return p.get("r") if p["k"] == "rec" else None


def family(P, pub, rec, more=()):
    """every function of a handle: {name: function}"""
    out = {n: f for n, f in pub.items() if handle(P, f) == rec}
    for n in more:
        for f in P.fns(n):
            if handle(P, f) == rec: out[n] = f
    return out


def getters(P, fam, rec):
    """pure queries: only integers or strings come in and a scalar or string comes out, nothing is written"""
    out = {}
    short = rec[len("srcml_"):]
    for n, f in fam.items():
        q = n[len(rec) + 1:]
        if not (q.startswith("get_") or q.startswith("is_") or q.startswith("has_") or q.startswith("check_") or q.startswith("error_")): continue
        if q.startswith("get_srcml"): continue      # may read the unit first
        out[n] = f
    return out


def argsyms(P, f, skip=1):
    """one symbol per remaining parameter, named after the position so that functions can be compared"""
    return {i: ("p", "arg%d" % i) for i in range(skip, len(f["params"]))}


def typefacts(P, f, st, first=1):
    for i in range(first, len(f["params"])):
        t = P.type(f["params"][i]["t"])
        s = ("p", "arg%d" % i)
        if t["k"] == "int" and t.get("u"): st.facts.setdefault(s, (0, (1 << t["w"]) - 1, frozenset()))
        elif t["k"] == "ptr": st.assume(s, True)


class WriteHooks(Hooks):
    """writes outside the object passed and the function's own frames"""
    def __init__(self, allowed=(OBJLOC,)):
        self.out = []
        self.allowed = set(allowed)

    def write(self, I, st, loc, val, x, fr):
        r = root(loc)
        if r in self.allowed or r[0] in ("v", "t", "h"): return
        self.out.append((fr.fi.f["qn"], x.get("l"), loc))


def run(P, f, st=None, args=None, hooks=None, depth=5, obj=OBJ):
    """abstract run of f on a given state (memory and facts are taken over)"""
    I = Interp(P, hooks, max_depth=depth, budget=60000)
    a = {0: obj} if obj is not None else {}
    a.update(args or {})

    def setup(I, s, fr):
        if st is not None:
            own = dict(s.mem)
            s.mem = {l: v for l, v in st.mem.items()}
            s.mem.update(own)
            for t, c in st.facts.items(): s.facts[t] = c
        s.facts[OBJ] = (NEG, POS, frozenset([0]))
        for i, v in a.items():
            t = P.type(f["params"][i]["t"])
            if t["k"] == "int" and t.get("u") and v[0] == "p": s.facts.setdefault(v, (0, (1 << t["w"]) - 1, frozenset()))
    return I.analyze(f, setup=setup, args=a)


def strip(t):
    """canonical term: call results are named by callee and expression, not by the call chain"""
    if not isinstance(t, tuple): return t
    if len(t) == 3 and t[0] == "call" and isinstance(t[1], tuple): return ("call", t[2], t[1][-1] if isinstance(t[1][-1], int) else 0)
    if len(t) == 3 and t[0] in ("v", "t") and isinstance(t[1], tuple): return (t[0], t[2])
    if len(t) == 2 and t[0] == "top": return ("top",)
    if len(t) == 3 and t[0] == "loop": return ("loop", strip(t[2]))
    return tuple(strip(y) if isinstance(y, tuple) else y for y in t)


def observe(P, f, st, args=None, obj=OBJ):
    """the set of values a query can return from a state"""
    out = set()
    for o in run(P, f, st, args, obj=obj):
        if o.kind != "ret": out.add((o.kind, o.val)); continue
        v = o.val
        if v is not None and v[0] == "L": v = o.st.mem.get(v[1], ("init", v[1]))
        out.add(("ret", strip(norm(o.st, v))))
    return out


def norm(st, v):
    if v is None or v == ("void",): return None
    if v[0] == "int": return v
    t = st.con(v)
    if t[0] == t[1] and t[0] not in (NEG, POS): return ("int", t[0])
    return v


def mem_of(st, loc):
    return {l: v for l, v in st.mem.items() if prefix_of(loc, l)}
