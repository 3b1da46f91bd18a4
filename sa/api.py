"""The public C interface, as declared in srcml.h of the tree under analysis."""
from . import facts
from .interp import *


def public(P):
    """{name: function} for every function declared extern "C" in srcml.h and defined in the library"""
    out = {}
    for u, d in P.decls.items():
        if d.get("ec") and d["qn"].startswith("srcml") and d["file"].endswith("/srcml.h") and u in P.funcs:
            out[d["qn"]] = P.funcs[u]
    if len(out) < 150:
        raise facts.AnalysisBroken("only %d public functions found in srcml.h" % len(out))
    return out


def enumval(P, name):
    """value of a macro-like constant or enumerator"""
    for e in P.enums.values():
        for k, v in e.get("vals", {}).items():
            if k == name: return int(v)
    raise facts.AnalysisBroken("enumerator %s not found" % name)


def where(P, f, line=None):
    return "%s:%s" % (P.relpath(f["file"]), line or f["line"])


def isptr(P, t):
    return P.type(t)["k"] == "ptr"
