"""C04: the global convenience functions and the one-call conversion."""
from ..interp import *
from .. import facts, api
from ..report import Report
from ..par import pmap
from ..absapi import *


def globals_of(P, rec):
    """the library's own objects of a handle type"""
    out = []
    for k, v in P.vars.items():
        t = P.type(v["t"])
        if t["k"] == "rec" and t.get("r") == rec: out.append(k)
    return out


def target_of(P, pub, name):
    s = name[len("srcml_"):]
    for rec in ("srcml_archive", "srcml_unit"):
        n = rec + "_" + s
        if n in pub and handle(P, pub[n]) == rec: return n, rec
    f = P.fns("srcml_unit_" + s)
    return None, None


def pairs(P, pub):
    out = []
    for n, f in sorted(pub.items()):
        if n.startswith(("srcml_archive_", "srcml_unit_", "srcml_transform_", "srcml_append_", "srcml_write_", "srcml_cleanup")): continue
        t, rec = target_of(P, pub, n)
        if t and len(pub[t]["params"]) == len(f["params"]) + 1: out.append((n, t, rec))
    return out


def summarize(outs, objloc):
    """set of (kind, value, memory left on shared objects)"""
    res = set()
    for o in outs:
        mem = frozenset((strip(l), strip(v)) for l, v in o.st.mem.items() if root(l)[0] in ("g", "d") and v != ("init", l))
        v = o.val
        if v is not None and v[0] == "L": v = o.st.read(v[1]) if hasattr(o.st, "read") else v
        res.add((o.kind, strip(norm(o.st, v)), mem))
    return res


def compare(P, pub, name, tname, g):
    f, t = pub[name], pub[tname]
    syms = {i: ("p", "arg%d" % (i + 1)) for i in range(len(f["params"]))}
    viol = []

    def facts_for(I, st, fr):
        pass
    def go(fn, args, depth):
        I = Interp(P, None, max_depth=depth, budget=60000)
        def setup(I, s, fr):
            for i, v in args.items():
                ty = P.type(fn["params"][i]["t"])
                if ty["k"] == "int" and ty.get("u") and v[0] == "p": s.facts.setdefault(v, (0, (1 << ty["w"]) - 1, frozenset()))
        return I.analyze(fn, setup=setup, args=args)
    a = go(f, syms, 6)
    b = go(t, {0: ("addr", ("g", g)), **{i + 1: s for i, s in syms.items()}}, 5)
    sa, sb = summarize(a, None), summarize(b, None)
    if sa != sb:
        w = api.where(P, f)
        d = sorted(sa - sb, key=repr)
        m = sorted(sb - sa, key=repr)
        def txt(x):
            return "returns %s%s" % (show(x[1]) if x[1] else "nothing", "".join(" with %s = %s" % (show(l), show(v)) for l, v in sorted(x[2], key=repr)[:3]))
        viol.append(("%s|%s" % (name, tname), w, "%s does not do what %s does on the global object: %s; expected: %s" % (
            name, tname, "; ".join(txt(x) for x in d[:2]) or "misses an outcome", "; ".join(txt(x) for x in m[:2]) or "-")))
    return len(sa), viol


class Capture(Hooks):
    """the state in which srcml() parses, writes, reads and unparses"""
    WATCH = ("srcml_unit_parse_filename", "srcml_archive_write_unit", "srcml_archive_write_open_filename", "srcml_archive_read_open_filename",
             "srcml_archive_read_unit", "srcml_unit_unparse_filename")

    def __init__(self): self.at = {}

    def call(self, I, st, qn, args, x, fr):
        if qn in self.WATCH: self.at.setdefault(qn, []).append((st.copy(), [I.read(st, a[1]) if a[0] == "L" else a for a in args], x.get("l")))


def onecall(P, pub, ga, gu, R):
    f = pub.get("srcml")
    if not f: raise facts.AnalysisBroken("C04: srcml() is gone")
    h = Capture()
    I = Interp(P, h, max_depth=4, budget=200000, opaque=(set(Capture.WATCH) - {"srcml_archive_write_open_filename"}) | {"srcml_archive_check_extension", "srcml_archive_close", "srcml_archive_free", "srcml_unit_free"})
    args = {i: ("p", "arg%d" % i) for i in range(2)}
    def setup(I, s, fr):
        for a in args.values(): s.assume(a, True)
    I.analyze(f, setup=setup, args=args)
    w = api.where(P, f)
    fa, fu = family(P, pub, "srcml_archive"), family(P, pub, "srcml_unit")
    GA, GU = ("addr", ("g", ga)), ("addr", ("g", gu))
    for q in Capture.WATCH:
        if q not in h.at: R.violation("srcml|no %s" % q, w, "srcml() never calls %s" % q)
    inp, outp = args[0], args[1]
    for st, a, line in h.at.get("srcml_archive_write_open_filename", []) + h.at.get("srcml_unit_unparse_filename", []):
        R.ok("srcml(): output goes to the output file name")
        if a[-1] != outp: R.violation("srcml|output", api.where(P, f, line), "srcml() writes to %s instead of the given output" % show(a[-1]))
    for st, a, line in h.at.get("srcml_archive_read_open_filename", []) + h.at.get("srcml_unit_parse_filename", []):
        R.ok("srcml(): input comes from the input file name")
        if a[-1] != inp: R.violation("srcml|input", api.where(P, f, line), "srcml() reads %s instead of the given input" % show(a[-1]))
    # settings in force where the input is parsed or unparsed
    gets = getters(P, fa, "srcml_archive")
    for q in ("srcml_unit_parse_filename", "srcml_archive_read_open_filename"):
        for st, a, line in h.at.get(q, []):
            unit = a[0] if q == "srcml_unit_parse_filename" else None
            arch = I_read(st, ("f", deref(a[0]), "archive")) if unit is not None else a[0]
            ww = api.where(P, f, line)
            if arch is None or arch == GA:
                R.violation("srcml|archive|" + q, ww, "srcml() does not work on its own archive")
                continue
            for g, gf in sorted(gets.items()):
                if g in ("srcml_archive_is_solitary_unit", "srcml_archive_get_options", "srcml_archive_has_hash", "srcml_archive_error_number", "srcml_archive_error_string", "srcml_archive_check_extension"): continue
                qa = {i: ("p", "q%d" % i) for i in range(1, len(gf["params"]))}
                x, y = observe(P, gf, st, qa, obj=arch), observe(P, gf, st, qa, obj=GA)
                R.ok("srcml() before %s: %s equals the global setting" % (q, g))
                if unify(x, arch) != unify(y, GA):
                    R.violation("srcml|%s|%s" % (q, g), ww, "srcml() calls %s with an archive whose %s is %s instead of the global setting %s" % (
                        q, g, [show(v) if v else k for k, v in x], [show(v) if v else k for k, v in y]))
            if unit is None: continue
            x = observe(P, pub["srcml_archive_is_solitary_unit"], st, obj=arch)
            R.ok("srcml() writes a solitary unit")
            for k, v in x:
                if k != "ret" or st.truth(v) != 1:
                    from .. import bits
                    try:
                        s = set(); bits.syms(v, s)
                        if bits.vec(v, sorted(s, key=repr))[0] == (1 << (1 << len(s))) - 1: continue
                    except bits.NotBitwise: pass
                    R.violation("srcml|solitary", ww, "srcml() parses into an archive that is not a solitary unit")
            for g in ("srcml_unit_get_timestamp", "srcml_unit_get_version", "srcml_unit_get_language", "srcml_unit_get_filename"):
                R.ok("srcml(): unit setting %s" % g)
                vals = {v for k, v in observe(P, pub[g], st, obj=unit)}
                s = g[len("srcml_unit_get_"):]
                src = (pub["srcml_unit_get_" + s], GU) if s in ("timestamp", "filename") else (pub["srcml_archive_get_" + s], GA)
                want = {v for k, v in observe(P, src[0], st, obj=src[1])}
                if s == "filename" and want == {INT0}: want = {("cstr", ("strof", inp))}
                if s == "filename" and len(want) > 1: want = {("cstr", ("strof", inp)) if v == INT0 else v for v in want}
                if {canon(v) for v in vals} != {canon(v) for v in want}:
                    R.violation("srcml|unit|" + s, ww, "srcml() parses a unit whose %s is %s instead of %s" % (s, [show(v) for v in vals], [show(v) for v in want]))


def canon(v):
    """a copy of a string made from its characters is that string"""
    if v and v[0] == "cstr" and v[1][0] == "strof" and v[1][1][0] == "cstr": return v[1][1]
    return v


def unify(vals, obj):
    return {(k, canon(v)) for k, v in vals}


def deref(t): return t[1] if t[0] == "addr" else ("d", t)


def I_read(st, loc):
    v = st.mem.get(loc)
    return v


def run_check():
    P = facts.load(("libsrcml", "parser"))
    pub = api.public(P)
    R = Report("C04", "Each convenience function and its handle-based counterpart applied to the library's global object are abstractly interpreted with the same unknown "
               "arguments; the sets of (result, resulting memory) must be equal. For srcml(), the abstract states at its parse, write, read and unparse calls must carry "
               "the given file names and, on the archive and unit used, the settings of the global objects.")
    ga, gu = globals_of(P, "srcml_archive"), globals_of(P, "srcml_unit")
    if not ga or not gu: raise facts.AnalysisBroken("C04: the global archive or unit is not found")
    ps = pairs(P, pub)
    # with several candidates: the one most functions use
    def pick(cands, rec):
        if len(cands) == 1: return cands[0]
        best = {}
        for g in cands:
            best[g] = sum(1 for n, t, r in ps if r == rec and not compare(P, pub, n, t, g)[1])
        return max(sorted(best), key=lambda g: best[g])
    ga, gu = pick(ga, "srcml_archive"), pick(gu, "srcml_unit")
    for (n, t, rec), (k, viol) in zip(ps, pmap(lambda p: compare(P, pub, p[0], p[1], ga if p[2] == "srcml_archive" else gu), ps)):
        R.ok("%s == %s on the global object: %d outcomes" % (n, t, k))
        for v in viol: R.violation(*v)
    R.require("convenience functions", len(ps), 36)
    onecall(P, pub, ga, gu, R)
    return R.finish(P)
