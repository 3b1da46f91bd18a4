"""C03: a setter's value is what the getter reports, and nothing else changes."""
from ..interp import *
from .. import facts, api
from ..report import Report
from ..par import pmap
from ..absapi import *

# setters whose documented effect reaches further than the getter of the same name
RELATED = {
    "srcml_archive_set_processing_instruction": {"srcml_archive_get_processing_instruction_target": 1, "srcml_archive_get_processing_instruction_data": 2},
}
# effects that are part of the documented behaviour of the registration functions
MAYCHANGE = {
    "srcml_archive_register_namespace": ("srcml_archive_get_namespace_", "srcml_archive_get_prefix_from_uri", "srcml_archive_get_uri_from_prefix", "srcml_archive_get_options"),
    "srcml_archive_register_file_extension": ("srcml_archive_check_extension",),
    "srcml_archive_set_options": ("srcml_archive_get_options",),
    "srcml_archive_enable_option": ("srcml_archive_get_options",),
    "srcml_archive_disable_option": ("srcml_archive_get_options",),
    "srcml_archive_enable_hash": ("srcml_archive_has_hash",),
    "srcml_archive_disable_hash": ("srcml_archive_has_hash",),
    "srcml_archive_enable_solitary_unit": ("srcml_archive_is_solitary_unit",),
    "srcml_archive_disable_solitary_unit": ("srcml_archive_is_solitary_unit",),
}
EXTRA = ("srcml_unit_set_hash",)
BITS = ("srcml_archive_get_options", "srcml_archive_is_solitary_unit", "srcml_archive_has_hash")


def setters(fam, rec):
    return [n for n in sorted(fam) if n[len(rec) + 1:].split("_")[0] in ("set", "enable", "disable", "register")]


def one(P, pub, rec, name):
    fam = family(P, pub, rec, EXTRA)
    gets = getters(P, fam, rec)
    f = fam[name]
    args = argsyms(P, f)
    rel = RELATED.get(name)
    if rel is None:
        g = name.replace("_set_", "_get_")
        rel = {g: 1} if "_set_" in name and g in gets and g != "srcml_archive_get_options" else {}
    may = MAYCHANGE.get(name, ())
    viol, n = [], 0
    w = api.where(P, f)

    # the arguments are ordinary; then each pointer argument NULL when that is allowed
    cases = [("", dict(args))]
    if "_set_" in name and len(args) == 1 and api.isptr(P, f["params"][1]["t"]): cases.append(("NULL", {1: INT0}))
    for label, a in cases:
        st = State()
        if not label: typefacts(P, f, st)
        h = WriteHooks()
        outs = run(P, f, st, a, h)
        n += 1
        for q, line, loc in h.out:
            viol.append(("%s|elsewhere|%s" % (name, show(loc)), w, "%s writes %s, which is not part of the %s passed" % (name, show(loc), rec)))
        oks = 0
        for o in outs:
            if o.kind != "ret": continue
            ok = o.st.truth(o.val) == 0 if o.val is not None else True
            oks += ok
            after = o.st
            before = State({l: v for l, v in after.mem.items() if root(l) != OBJLOC}, dict(after.facts))
            for g, gf in gets.items():
                ga = {i: ("p", "q%d" % i) for i in range(1, len(gf["params"]))}
                for i in ga:
                    if api.isptr(P, gf["params"][i]["t"]):
                        for s in (after, before): s.facts.setdefault(ga[i], (NEG, POS, frozenset([0])))
                if ok and g in rel:
                    n += 1
                    av = a[rel[g]]
                    want = INT0 if label else ("cstr", ("strof", av)) if api.isptr(P, f["params"][rel[g]]["t"]) else av
                    for kind, v in observe(P, gf, after, ga):
                        if kind != "ret" or not (v == strip(want) or v is not None and after.truth(app("==", v, want)) == 1):
                            viol.append(("%s|%s|value" % (name, g), w, "after a successful %s(%s) %s returns %s" % (name, "NULL" if label else "x", g, show(v) if v else kind)))
                elif ok and any(g.startswith(m) for m in may):
                    # narrow registration effects: an independent bit may still not change
                    continue
                else:
                    n += 1
                    x, y = observe(P, gf, before, ga), observe(P, gf, after, ga)
                    if x != y and not (g in BITS and samebits(P, gf, before, after)):
                        viol.append(("%s|%s|changed" % (name, g), w, "a %s %s changes what %s returns: %s instead of %s" % (
                            "successful" if ok else "rejected", name, g, sorted(show(v) if v else k for k, v in y), sorted(show(v) if v else k for k, v in x))))
            if not ok:
                n += 1
                left = {l: v for l, v in mem_of(after, OBJLOC).items() if v != ("init", l)}
                if left: viol.append(("%s|rejected" % name, w, "%s changes %s although it reports failure" % (name, sorted(show(l) for l in left))))
        if not oks: viol.append(("%s|never" % name, w, "%s has no successful outcome%s" % (name, " for NULL" if label else "")))
    return n, len(rel), viol


def samebits(P, gf, before, after):
    """two option terms that agree on the bits the query looks at"""
    from .. import bits
    def vals(st): return [o.val for o in run(P, gf, st) if o.kind == "ret"]
    try:
        a, b, s = vals(before), vals(after), set()
        for t in a + b: bits.syms(t, s)
        order = sorted(s, key=repr)
        if len(order) > 4: return False
        return {tuple(bits.vec(t, order)) for t in a} == {tuple(bits.vec(t, order)) for t in b}
    except bits.NotBitwise: return False


def run_check():
    P = facts.load(("libsrcml", "parser"))
    pub = api.public(P)
    R = Report("C03", "Every setter of an archive or unit is abstractly interpreted on an unknown object with unknown arguments (and NULL where allowed); on each resulting "
               "abstract state every query is interpreted. The setting's own query must return exactly the argument (NULL after NULL), all other queries "
               "must return what they return on the state before, rejected calls must change nothing, and nothing outside the object may be written.")
    items = []
    for rec in ("srcml_archive", "srcml_unit"):
        fam = family(P, pub, rec, EXTRA)
        R.count("queries", len(getters(P, fam, rec)))
        items += [(rec, n) for n in setters(fam, rec)]
    pairs = 0
    for (rec, name), (n, nrel, viol) in zip(items, pmap(lambda it: one(P, pub, *it), items)):
        R.ok("%s: %d obligations" % (name, n), n)
        pairs += nrel
        for v in viol: R.violation(*v)
    R.require("setters", len(items), 24)
    R.require("setter/getter pairs", pairs, 15)
    return R.finish(P)
