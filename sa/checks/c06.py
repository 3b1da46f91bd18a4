"""C06: clones carry the whole setup, share nothing mutable and start closed and clean."""
from ..interp import *
from .. import facts, api
from ..report import Report
from ..absapi import *

CLONES = {"srcml_archive": ("srcml_archive_clone", "srcml_archive_create"), "srcml_unit": ("srcml_unit_clone", "srcml_unit_create")}
# state of an open session / of the content, not of the setup: as in a newly created object
RUNTIME = {
    "srcml_archive": {"type", "rawwrites", "error_string", "error_number"},
    "srcml_unit": {"output_buffer", "unit_translator", "read_header", "read_body", "srcml", "srcml_revision", "currevision", "srcml_fragment",
                   "srcml_fragment_revision", "srcml_raw", "srcml_raw_revision", "src", "content_begin", "content_end", "insert_begin", "insert_end",
                   "loc", "error_string", "error_number"},
}
# what a unit's setup is, besides whatever its getters report
SETUP_MORE = {"srcml_unit": {"attributes", "namespaces", "url", "derived_language", "archive"}}


def sharing(P, t, seen=None):
    """does copying a value of this type share a mutable object? returns the type shared"""
    ty = P.type(t) if isinstance(t, int) else t
    if ty["k"] == "ptr":
        return None if P.type(ty["p"]).get("c") or P.type(ty["p"])["k"] == "fun" else P.type(ty["p"])["s"]
    if ty["k"] != "rec": return None
    s = ty.get("s", "") + " " + ty.get("r", "")
    return "std::shared_ptr" if "shared_ptr<" in s else None


def same_as(P, st, new, old, t):
    """do the two locations hold the same value in st (members of nested structures one by one)?"""
    I = Interp(P)
    ty = P.type(t)
    if ty["k"] == "rec" and ty["r"] in P.records and P.records[ty["r"]]["mine"] and P.records[ty["r"]]["fields"]:
        return all(same_as(P, st, ("f", new, fd["n"]), ("f", old, fd["n"]), fd["t"]) for fd in P.records[ty["r"]]["fields"])
    a, b = I.read(st, new), I.read(st, old)
    if a[0] == "obj": a = ("init", a[1])
    if b[0] == "obj": b = ("init", b[1])
    return strip(a) == strip(b)


def run_check():
    P = facts.load(("libsrcml", "parser"))
    pub = api.public(P)
    R = Report("C06", "The clone functions are abstractly interpreted on an unknown original. Field by field the clone must hold the original's value (setup) or a new object's "
               "value (open-session, content and error state), every query must return the same on clone and original, no field may alias a mutable object of the "
               "original, and the original must be left untouched.")
    nf = 0
    for rec, (cn, crn) in CLONES.items():
        f = pub[cn]
        w = api.where(P, f)
        fields = [fd for fd in P.records[rec]["fields"]]
        h = WriteHooks(allowed=())
        outs = run(P, f, hooks=h, depth=6)
        crf = pub[crn]
        fresh = [o for o in (run(P, crf, depth=5, obj=None) if not crf["params"] else run(P, crf, depth=5, obj=("p", "arch"))) if o.kind == "ret" and o.val and o.val[0] == "addr"]
        if not fresh: raise facts.AnalysisBroken("C06: %s creates nothing" % crn)
        for q, line, loc in h.out:
            R.violation("%s|writes|%s" % (cn, show(loc)), w, "%s changes %s" % (cn, show(loc)))
        fam = family(P, pub, rec)
        gets = getters(P, fam, rec)
        I = Interp(P)
        n = 0
        for o in outs:
            if o.kind != "ret" or o.val is None or o.val[0] != "addr": continue
            n += 1
            base, fb = o.val[1], fresh[0].val[1]
            left = {l: v for l, v in o.st.mem.items() if prefix_of(OBJLOC, l) and v != ("init", l)}
            R.ok("%s leaves the original alone" % cn)
            if left: R.violation(cn + "|original", w, "%s changes the original's %s" % (cn, sorted(show(l) for l in left)))
            setup = {fd["n"] for fd in fields} - RUNTIME[rec] if rec == "srcml_archive" else None
            for fd in fields:
                nf += 1
                name = fd["n"]
                t = P.type(fd["t"])
                new, old = ("f", base, name), ("f", OBJLOC, name)
                v = I.read(o.st, new)
                fv = I.read(fresh[0].st, ("f", fb, name))
                eq = same_as(P, o.st, new, old, fd["t"])
                isnew = strip(v) == strip(fv) or (v in (INT0, ("none",), ("str", ""), ("app", "cleared")) and fv in (INT0, ("none",), ("str", ""), ("app", "cleared"), ("init", ("f", fb, name)))) or (fv[0] == "init" and v[0] == "init" and v[1] != old and root(v[1]) == root(base))
                R.ok("%s: %s" % (cn, name))
                if t["k"] == "ptr" and not (rec == "srcml_unit" and name == "archive"):
                    if v != INT0: R.violation("%s|pointer|%s" % (cn, name), w, "the clone's %s is %s, not null" % (name, show(v)))
                    continue
                if name in RUNTIME[rec]:
                    if not isnew: R.violation("%s|runtime|%s" % (cn, name), w, "the clone's %s is %s instead of that of a new %s" % (name, show(v), rec))
                    continue
                if rec == "srcml_unit" and name not in SETUP_MORE[rec] and not any(reads(P, g, name) for g in gets.values()):
                    if not (eq or isnew): R.violation("%s|value|%s" % (cn, name), w, "the clone's %s is neither the original's nor a new one's" % name)
                    continue
                if not eq: R.violation("%s|setup|%s" % (cn, name), w, "the clone's %s is %s instead of the original's" % (name, show(v)))
                s = sharing(P, fd["t"])
                if s and eq and name != "archive":
                    R.violation("%s|shared|%s" % (cn, name), w, "original and clone share the mutable objects in %s" % name)
            # what the queries report
            for g, gf in sorted(gets.items()):
                if g.endswith(("error_number", "error_string", "get_loc", "check_extension")): continue
                qa = {i: ("p", "q%d" % i) for i in range(1, len(gf["params"]))}
                R.ok("%s: %s" % (cn, g))
                x, y = observe(P, gf, o.st, qa, obj=o.val), observe(P, gf, o.st, qa, obj=OBJ)
                if x != y:
                    R.violation("%s|%s" % (cn, g), w, "%s returns %s on the clone and %s on the original" % (g, [show(v) if v else k for k, v in x], [show(v) if v else k for k, v in y]))
        if not n: R.violation(cn + "|never", w, "%s never returns a new object" % cn)
    R.require("fields compared", nf, 55)
    return R.finish(P)


def reads(P, gf, name):
    return any(x["k"] == "MemberExpr" and x.get("f") == name for x in gf["exprs"].values())
