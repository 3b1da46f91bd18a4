"""C01: NULL handles and NULL required arguments are rejected, never dereferenced."""
from ..interp import *
from .. import facts, api
from ..report import Report
from ..par import pmap

# pointer parameters for which NULL is meaningful (clears the setting, default prefix, no callback, ...):
# NULL must be handled without a dereference, no claim is made on the result
OPTIONAL = {
    "srcml_archive_set_language": {1}, "srcml_archive_set_src_encoding": {1}, "srcml_archive_set_url": {1},
    "srcml_archive_set_version": {1}, "srcml_archive_set_xml_encoding": {1},
    "srcml_unit_set_filename": {1}, "srcml_unit_set_language": {1}, "srcml_unit_set_src_encoding": {1},
    "srcml_unit_set_timestamp": {1}, "srcml_unit_set_version": {1},
    "srcml_set_filename": {0}, "srcml_set_language": {0}, "srcml_set_src_encoding": {0}, "srcml_set_timestamp": {0},
    "srcml_set_url": {0}, "srcml_set_version": {0}, "srcml_set_xml_encoding": {0},
    "srcml_archive_read_open_io": {3}, "srcml_archive_write_open_io": {3}, "srcml_unit_parse_io": {3}, "srcml_unit_unparse_io": {3},
    "srcml_unit_parse_memory": {1}, "srcml_unit_apply_transforms": {2}, "srcml_memory_free": {0},
    "srcml_write_attribute": {1, 3, 4}, "srcml_write_namespace": {1}, "srcml_write_start_element": {1, 3},
}
# the documented failure value where it is not "an error status" / NULL
FAILURE = {
    "srcml_archive_get_options": ("int", 0), "srcml_archive_get_srcdiff_revision": ("int", 2),
    "srcml_archive_has_hash": ("int", 0), "srcml_archive_is_solitary_unit": ("int", 0),
    "srcml_archive_skip_unit": ("int", 0), "srcml_check_encoding": ("int", 0), "srcml_check_language": ("int", 0),
    "srcml_transform_get_type": ("int", 0), "srcml_transform_get_unit_size": ("int", 0),
    "srcml_transform_get_bool": ("int", -1), "srcml_transform_get_number": ("any",),
    "srcml_unit_get_loc": ("int", -1), "srcml_archive_error_string": ("nonnull",), "srcml_unit_error_string": ("nonnull",),
}


class NullHooks(Hooks):
    def __init__(self):
        self.v = []

    def deref(self, I, st, term, x, fr):
        if term[0] != "addr" and st.truth(term) == 0:
            self.v.append((fr, x, "NULL is dereferenced"))

    def call(self, I, st, qn, args, x, fr):
        if not (qn.startswith("std::") or qn.startswith("boost::")): return
        if notmpl(qn).split("::")[1] in ("unique_ptr", "shared_ptr", "__shared_ptr", "optional", "function", "move", "forward"): return
        ids = x.get("ops", [])
        for o in ids:
            t = I.P.type(fr.fi.ex[o]["t"])
            if t["k"] != "ptr": continue
            pt = I.P.type(t["p"])
            if pt["s"].replace("const ", "") != "char": continue
            v = I.rv(fr, fr.fi, o, st)
            if v[0] != "addr" and st.truth(v) == 0:
                self.v.append((fr, x, "NULL reaches %s, which dereferences it" % qn))


def one(P, pub, n, i):
    f = pub[n]
    pn = f["params"][i]["v"].split("#")[0]
    viol = []
    for depth in (5, 4, 3, 2, 1):
        h = NullHooks()
        I = Interp(P, h, max_depth=depth, budget=12000 if depth > 1 else 100000)
        try:
            outs = I.analyze(f, args={i: INT0})
            break
        except BudgetExceeded:
            if depth == 1: raise facts.AnalysisBroken("C01: %s cannot be analysed" % n)
    for fr, x, what in h.v:
        g = fr.fi.f
        viol.append(("%s|%s|deref|%s" % (n, pn, g["qn"]), api.where(P, g, x.get("l")),
                     "%s called with %s = NULL: %s in %s" % (n, pn, what, g["qn"])))
    if i in OPTIONAL.get(n, ()): return depth, len(outs), viol
    rt = P.type(f["ret"])
    want = FAILURE.get(n) or (("nonok",) if rt["k"] == "int" and not rt.get("u") else ("int", 0) if rt["k"] in ("int", "ptr") else ("any",))
    for o in outs:
        if o.kind != "ret" or o.val is None or want[0] == "any": continue
        v = o.val
        if want[0] in ("nonok", "nonnull"): good = o.st.truth(v) == 1
        else: good = o.st.truth(app("==", v, want)) == 1
        if not good:
            viol.append(("%s|%s|result" % (n, pn), api.where(P, f),
                         "%s called with %s = NULL may return %s instead of its failure value" % (n, pn, show(v))))
    return depth, len(outs), viol


def run():
    P = facts.load(("libsrcml", "parser"))
    pub = api.public(P)
    R = Report("C01", "For every public function and every pointer parameter, the function is abstractly interpreted with that parameter NULL and "
               "all others unknown: no path may dereference a NULL value or pass NULL to a C++ library routine that dereferences it, and, "
               "where the parameter is required, every outcome must be the documented failure value.")
    items = [(n, i) for n in sorted(pub) for i, p in enumerate(pub[n]["params"]) if api.isptr(P, p["t"])]
    depths = {}
    for (n, i), (depth, nouts, viol) in zip(items, pmap(lambda it: one(P, pub, *it), items)):
        pn = pub[n]["params"][i]["v"].split("#")[0]
        depths[depth] = depths.get(depth, 0) + 1
        R.ok("%s(%s = NULL): %d outcomes, inlining depth %d" % (n, pn, nouts, depth))
        if i not in OPTIONAL.get(n, ()): R.ok()
        for v in viol: R.violation(*v)
    nparam = len(items)
    R.require("pointer parameters", nparam, 180)
    R.cov["inlining depth used (depth: parameters)"] = {str(k): v for k, v in depths.items()}
    R.assumptions = ["libxml2, libxslt and libc functions outside the modelled set tolerate NULL as documented"]
    return R.finish(P)
