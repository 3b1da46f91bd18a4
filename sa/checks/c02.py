"""C02: positional accessors."""
from ..interp import *
from .. import facts, api
from ..report import Report
from ..par import pmap

# accessor -> the function that reports how many items there are
PAIRS = {
    "srcml_archive_get_namespace_prefix": "srcml_archive_get_namespace_size",
    "srcml_archive_get_namespace_uri": "srcml_archive_get_namespace_size",
    "srcml_get_namespace_prefix": "srcml_get_namespace_size",
    "srcml_get_namespace_uri": "srcml_get_namespace_size",
    "srcml_get_language_list": "srcml_get_language_list_size",
    "srcml_transform_get_unit": "srcml_transform_get_unit_size",
    # declared in the implementation only
    "srcml_archive_get_macro_token": "srcml_archive_get_macro_list_size",
    "srcml_archive_get_macro_type": "srcml_archive_get_macro_list_size",
}
BIG = [1 << 31, (1 << 32) + 1, 1 << 62, 1 << 63, (1 << 63) + 1, (1 << 64) - 1]


class IndexHooks(Hooks):
    def __init__(self):
        self.idx = []

    def index(self, I, st, cont, idx, x, fr, how):
        if how in ("optional",): return
        n = None
        if how == "array":
            t = I.P.type(fr.fi.ex[x["ops"][0]]["t"])
            o = fr.fi.ex[x["ops"][0]]
            if o["k"] == "ImplicitCastExpr" and o.get("ck") == "ArrayToPointerDecay":
                at = I.P.type(fr.fi.ex[o["ops"][0]]["t"])
                if at["k"] == "arr" and "len" in at: n = ("int", at["len"])
        elif cont is not None and cont[0] != "int":
            n = ("app", "size", I.read(st, I.deref_loc(cont)))
        self.idx.append((st.copy(), n, idx, x, fr, how, I))


def atoms(t, out):
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == "app" and t[1] == "size":
            out.add(t)
            return
        for y in t: atoms(y, out)


def fns(P, name):
    f = P.fns(name)
    if not f: raise facts.AnalysisBroken("C02: function %s not found" % name)
    return f[0]


def nonnull_objects(I, st, fr):
    """handles are valid objects: NULL is C01's subject"""
    for p in fr.fi.f["params"]:
        if I.P.type(p["t"])["k"] == "ptr": st.assume(("p", p["v"]), True)


def one(P, name):
    f = fns(P, name)
    sizef = fns(P, PAIRS[name])
    pi = [i for i, p in enumerate(f["params"]) if P.type(p["t"])["k"] == "int"]
    if len(pi) != 1: raise facts.AnalysisBroken("C02: %s has no single position parameter" % name)
    pi = pi[0]
    pt = P.type(f["params"][pi]["t"])
    res = []
    nob = 0
    # 1. symbolic position: every subscript must be proved inside its container
    h = IndexHooks()
    I = Interp(P, h, max_depth=4, budget=40000)
    I.analyze(f, setup=nonnull_objects)
    for st, n, idx, x, fr, how, I_ in h.idx:
        if not contains(idx, ("p", f["params"][pi]["v"])): continue
        if how in ("front", "back", "top"): continue
        nob += 1
        if how == "at" and fr.intry: continue
        where = api.where(P, fr.fi.f, x.get("l"))
        if n is None:
            res.append((name + "|unbounded", where, "%s indexes storage of unknown length with the caller's position" % name))
        elif st.truth(app("<", idx, n)) != 1:
            res.append((name + "|upper", where, "%s reads element %s without having established that it is below %s" % (name, show(idx), show(n))))
        elif not pt.get("u") and st.truth(app("<", idx, INT0)) != 0:
            res.append((name + "|lower", where, "%s reads element %s without having excluded negative positions" % (name, show(idx))))
    # 2. exactness over container lengths 0..4: item for every position below the size, NULL otherwise
    Is = Interp(P, Hooks(), max_depth=4)
    at = set()
    souts = Is.analyze(sizef, setup=nonnull_objects)
    for o in souts:
        if o.kind == "ret" and o.val: atoms(o.val, at)
    fa, sa = f["params"], sizef["params"]
    lens = range(0, 9) if at else [None]
    seen = {}
    for n in lens:
        def fix(I, st, fr):
            nonnull_objects(I, st, fr)
            for a in at:
                # the same handle parameter may have different names in the two functions
                b = rename(a, sa, fa) if fr.fi.f is f else a
                st.facts[b] = (n, n, frozenset())
        I1 = Interp(P, Hooks(), max_depth=4)
        sizes = set()
        for o in I1.analyze(sizef, setup=fix):
            if o.kind == "ret" and not (o.val == INT0 and len(o.st.facts) == 0):
                v = simplify(o.st, o.val)
                sizes.add(v)
        ints = {v[1] for v in sizes if v[0] == "int"}
        if len(ints) < 1 or len(ints) != len(sizes): raise facts.AnalysisBroken("C02: size of %s is not determined: %s" % (PAIRS[name], sizes))
        S = max(ints)
        if n and n % 2 and n // 2 == S: continue          # items stored as pairs: odd lengths do not occur
        ks = list(range(0, S + 3)) + ([-1, -2, -(1 << 31)] if not pt.get("u") else []) + [b for b in BIG if b < (1 << (pt["w"] - (0 if pt.get("u") else 1)))]
        for k in ks:
            h = IndexHooks()
            I2 = Interp(P, h, max_depth=4)
            outs = I2.analyze(f, setup=fix, args={pi: ("int", k)})
            nob += 1
            inside = 0 <= k < S
            vals = [(o.st, o.val) for o in outs if o.kind == "ret"]
            if inside:
                good = [v for st, v in vals if st.truth(v) != 0]
                if not good:
                    res.append((name + "|missing", api.where(P, f), "%s returns NULL at position %d although %s reports %d" % (name, k, PAIRS[name], S)))
                else:
                    seen.setdefault(n, {})[k] = tuple(sorted(map(repr, good)))
            elif any(st.truth(v) != 0 for st, v in vals):
                res.append((name + "|extra", api.where(P, f), "%s returns an item at position %d although %s reports %d" % (name, k, PAIRS[name], S)))
    for n, m in seen.items():
        if len(set(m.values())) != len(m):
            res.append((name + "|same", api.where(P, f), "%s returns the same item at two positions" % name))
    return nob, sorted(set(res))


def simplify(st, t):
    c = st.con(t)
    if c[0] == c[1] and c[0] not in (NEG, POS): return ("int", c[0])
    if t[0] == "app":
        return app(t[1], *[simplify(st, y) if isinstance(y, tuple) and y and y[0] in ("app", "int", "init", "p") else y for y in t[2:]])
    return t


def rename(t, src, dst):
    m = {}
    for a, b in zip(src, dst): m[("p", a["v"])] = ("p", b["v"])

    def go(x):
        if x in m: return m[x]
        return tuple(go(y) if isinstance(y, tuple) else y for y in x)
    return go(t)


def run():
    P = facts.load(("libsrcml", "parser"))
    R = Report("C02", "Each positional accessor is abstractly interpreted (a) with an unknown position: every subscript that depends on it must be proved "
               "non-negative and below the length of its container by the comparisons on the path; (b) with the container length and position as "
               "constants (lengths 0..8, positions around the length, negative and near the integer limits): it must return an item exactly when the position is "
               "below what the corresponding size function reports, NULL otherwise, and different items at different positions.")
    names = sorted(PAIRS)
    total = 0
    for name, (nob, viol) in zip(names, pmap(lambda n: one(P, n), names)):
        total += nob
        R.ok("%s against %s: %d obligations" % (name, PAIRS[name], nob), nob)
        for v in viol: R.violation(*v)
    R.require("positional accessors", len(names), 8)
    R.require("position obligations", total, 80)
    return R.finish(P)
