"""The reachable abstract states of an archive, under every sequence of opening, reading, writing, closing and freeing."""
from .session import *

OPAQUE = ("srcml_sax2_reader::srcml_sax2_reader", "srcml_sax2_reader::~srcml_sax2_reader")
WRITE_OPEN = ["srcml_archive_write_open_" + s for s in ("filename", "memory", "FILE", "fd", "io")]
READ_OPEN = ["srcml_archive_read_open_" + s for s in ("filename", "memory", "FILE", "fd", "io")]
USE = ["srcml_archive_write_unit", "srcml_archive_write_string", "srcml_archive_read_unit", "srcml_archive_skip_unit"]


def opargs(P, f):
    """ordinary arguments: pointers are valid, a unit comes from some other archive"""
    out = {}
    for i, p in enumerate(f["params"]):
        if i == 0: continue
        out[i] = ("p", "arg%d" % i)
    return out


class UserWrites(Res):
    """also records what is stored through the pointers the caller handed over"""
    def write(self, I, st, loc, val, x, fr):
        r = root(loc)
        if r[0] == "d" and r[1][0] == "p" and r[1][1].startswith("user."):
            st.ts[("user", r[1])] = True
            if fr.fi.f["qn"]: self.touch(st, "store " + r[1][1])


class Step:
    __slots__ = ("mode", "src", "name", "out", "dst", "leaks", "raw", "newmode", "how", "srcnode", "dstnode")

    def __init__(s, **k):
        for a, b in k.items(): setattr(s, a, b)


def explore(P, pub, sess=None, extra=(), hooks=UserWrites):
    """returns (session, steps, violations, initial state)"""
    S = sess or Session(P, "srcml_archive", opaque=OPAQUE)
    for q in OPAQUE: P.fn(q)
    steps, viol = [], {}

    def note(h, name):
        for key, f, line, text, chain in h.viol:
            viol.setdefault("%s|%s|%s" % (name, key, f["qn"]), (api.where(P, f, line), "%s: %s in %s" % (name, text, f["qn"]), chain))

    h = hooks("create", OPAQUE)
    start = None
    for o in S.step(pub["srcml_archive_create"], None, {}, h, "create", obj=None):
        if o.kind != "ret" or o.val is None or o.val[0] != "addr": continue
        o.st.ts.pop(("r", o.val), None)
        o.st.ts.pop(("touch",), None)
        start, leaks = S.canon(o.st, o.val[1])
    note(h, "srcml_archive_create")
    if start is None: raise facts.AnalysisBroken("srcml_archive_create creates nothing")
    seen = set()
    work = [("new", None, start)]
    seen.add(("new", None, S.key(start)))
    while work:
        mode, how, st = work.pop()
        node = (mode, how if how and how.endswith("memory") else None, S.key(st))
        names = (WRITE_OPEN + READ_OPEN if mode in ("new", "closed") else []) + USE + ["srcml_archive_close", "srcml_archive_free"] + list(extra)
        for name in names:
            f = pub[name]
            h = hooks(name, OPAQUE)
            n0 = State(dict(st.mem), dict(st.facts), ts=dict(st.ts))
            outs = S.step(f, n0, opargs(P, f), h, name)
            note(h, name)
            for o in outs:
                if o.kind not in ("ret", "exc"): continue
                dst, leaks = S.canon(o.st, OBJLOC, given=o.val)
                ok = o.kind == "ret" and (o.val is None or o.st.truth(o.val) == 0)
                nm, nh = mode, how
                if name in WRITE_OPEN and ok: nm, nh = "write", name
                elif name in READ_OPEN and ok: nm, nh = "read", name
                elif name == "srcml_archive_close": nm, nh = "closed", None
                k = (nm, nh if nh and nh.endswith("memory") else None, S.key(dst))
                steps.append(Step(mode=mode, src=st, name=name, out=o, dst=dst, leaks=leaks, newmode=nm, how=how, srcnode=node, dstnode=None if name == "srcml_archive_free" else k))
                if name == "srcml_archive_free": continue
                if k not in seen:
                    seen.add(k)
                    if len(seen) > 3000: raise facts.AnalysisBroken("too many archive states")
                    work.append((nm, nh, dst))
    S.states = len(seen)
    S.cls = bisimulation(steps)
    return S, steps, viol, start


def bisimulation(steps):
    """equivalence classes of states no further sequence of calls can tell apart (the mode label is not an observation)"""
    out = {}
    for s in steps:
        o = s.out
        v = None if o.val is None else ("int", o.val[1]) if o.val[0] == "int" else ("truth", o.st.truth(o.val))
        lab = (s.name, o.kind, v, o.st.ts.get(("touch",), frozenset()), frozenset(k[1] for k in o.st.ts if k[0] == "user"), frozenset(r[0] for t, r in s.leaks))
        out.setdefault(s.srcnode, []).append((lab, s.dstnode))
        if s.dstnode is not None: out.setdefault(s.dstnode, [])
    cls = {n: 0 for n in out}
    cls[None] = -1
    while True:
        sig = {n: (cls[n], frozenset((l, cls[d]) for l, d in es)) for n, es in out.items()}
        ids = {}
        new = {n: ids.setdefault(sig[n], len(ids)) for n in sorted(sig, key=repr)}
        new[None] = -1
        if len(set(new.values())) == len(set(cls.values())): return new
        cls = new
