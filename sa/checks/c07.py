"""C07: each archive operation works only in the state it is meant for; a refused call changes nothing."""
from ..archsession import *
from ..report import Report

ALLOWED = {"srcml_archive_write_unit": ("write",), "srcml_archive_write_string": ("write",), "srcml_archive_read_unit": ("read",), "srcml_archive_skip_unit": ("read",)}


class Watch(UserWrites):
    def write(self, I, st, loc, val, x, fr):
        UserWrites.write(self, I, st, loc, val, x, fr)
        if root(loc) == OBJLOC: self.touch(st, "store archive->%s" % ".".join(p[2] for p in parts(loc)))


def parts(loc):
    out = []
    while loc[0] in ("f", "ix"):
        if loc[0] == "f": out.append(loc)
        loc = loc[1]
    return out[::-1]


def failed(P, f, o):
    """the call reports failure: an error status, NULL, or 0 from skip_unit"""
    v = o.val
    t = P.type(f["ret"])
    neutral = t["k"] == "ptr" or f["qn"] == "srcml_archive_skip_unit"
    return o.st.truth(v) == (0 if neutral else 1)


def succeeded(P, f, o):
    t = P.type(f["ret"])
    neutral = t["k"] == "ptr" or f["qn"] == "srcml_archive_skip_unit"
    return o.st.truth(o.val) != (0 if neutral else 1)


def run_check():
    P = facts.load(("libsrcml", "parser"))
    pub = api.public(P)
    R = Report("C07", "On every abstract state an archive can reach (new, open for writing, open for reading, closed; each reached through every sequence of calls), write_unit and write_string are "
               "interpreted where the archive is not open for writing, read_unit and skip_unit where it is not open for reading: every path must report failure, use no stream, buffer or parser, "
               "and leave the archive in the same state. In the right state each of them has a path that succeeds. A failed open leaves the archive as it was.")
    S, steps, viol, start = explore(P, pub, hooks=Watch)
    can = {}
    for s in steps:
        f = pub[s.name]
        w = api.where(P, f)
        o = s.out
        touched = sorted(o.st.ts.get(("touch",), ()))
        if s.name in ALLOWED:
            if s.mode in ALLOWED[s.name]:
                if o.kind == "ret" and succeeded(P, f, o): can.setdefault((s.name, s.mode), True)
                else: can.setdefault((s.name, s.mode), can.get((s.name, s.mode), False))
                continue
            where = "%s on an archive that is %s" % (s.name, {"new": "not opened yet", "closed": "closed", "read": "open for reading", "write": "open for writing"}[s.mode])
            R.ok(where)
            if o.kind != "ret" or not failed(P, f, o): R.violation("%s|accepted|%s" % (s.name, s.mode), w, where + " is not refused: it can " + ("raise an exception" if o.kind != "ret" else "return %s" % show(o.val)))
            if touched: R.violation("%s|touch|%s" % (s.name, s.mode), w, where + " has an effect before it is refused: %s" % ", ".join(touched))
            elif S.cls[s.dstnode] != S.cls[s.srcnode]: R.violation("%s|state|%s" % (s.name, s.mode), w, where + " changes the state of the archive")
        elif s.name in WRITE_OPEN + READ_OPEN:
            if o.kind == "ret" and o.st.truth(o.val) == 1:
                R.ok("failed %s" % s.name)
                if S.cls[s.dstnode] != S.cls[s.srcnode]: R.violation("%s|failed" % s.name, w, "%s reports failure but leaves the archive %s in another state: %s" % (s.name, s.mode, diff(s.src, s.dst)))
            else: can[(s.name, s.mode)] = True
    for n, ms in ALLOWED.items():
        for m in ms:
            R.ok("%s can succeed" % n)
            if (n, m) not in can: raise facts.AnalysisBroken("C07: %s never reached in mode %s" % (n, m))
            if not can[(n, m)]: R.violation("%s|never" % n, api.where(P, pub[n]), "%s can never succeed on an archive open for %s" % (n, "writing" if m == "write" else "reading"))
    for n in WRITE_OPEN + READ_OPEN:
        for m in ("new", "closed"):
            R.ok("%s can succeed" % n)
            if (n, m) not in can: R.violation("%s|never|%s" % (n, m), api.where(P, pub[n]), "%s can never succeed on a %s archive" % (n, m))
    R.require("edges between abstract archive states", len(steps), 60)
    R.cov["abstract archive states"] = S.states
    R.cov["functions interpreted"] = len(S.functions)
    R.assumptions = ["the unit given to srcml_archive_write_unit is valid", "memory allocation by operator new does not fail"]
    return R.finish(P)


def diff(a, b):
    return ", ".join(sorted({l[2] for l in set(a.mem) | set(b.mem) if l[0] == "f" and a.mem.get(l) != b.mem.get(l)})) or "resources"


def show(v):
    return "nothing" if v is None else str(v[1]) if v[0] == "int" else "a value that is not always the failure value"
