"""C10: no exception leaves the library."""
from .. import api, facts
from ..exc import Exc, P_ne, ACTIVE
from ..interp import notmpl
from ..report import Report

GRAMMAR = ("CompleteElement", "LightweightElement", "SingleElement")     # raise only when the grammar's mode stack is misused: not decided here


def thread_functions(P):
    """functions started on a thread of their own"""
    out = set()
    for u, f in P.funcs.items():
        ex = {int(k): v for k, v in f["exprs"].items()}
        for i, x in ex.items():
            d = P.decls.get(x.get("fn"), {})
            if x["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and notmpl(d.get("qn", "")).startswith("std::thread::thread") or notmpl(d.get("qn", "")) == "std::async":
                todo = list(x.get("ops", ()))
                while todo:
                    y = ex[todo.pop()]
                    if y["k"] in ("DeclRefExpr", "LambdaExpr") and y.get("fn") in P.funcs: out.add(y["fn"])
                    elif y["k"].endswith("CastExpr") or y["k"] in ("ParenExpr", "UnaryOperator", "MaterializeTemporaryExpr"): todo += y.get("ops", ())
    return out


def what(t): return "throw; with no exception to rethrow (the process is terminated)" if t == ACTIVE else "an exception of type %s" % t


def run():
    P = facts.load(("libsrcml", "parser", "gen"))
    pub = api.public(P)
    E = Exc(P)
    R = Report("C10", "For every function of the library, the parser and the code generated from the grammar, the set of exception types that may leave it is computed as the least fixpoint over the call graph: "
               "throw expressions, throw; (the types entering its handler), raising accessors of the standard library and of the antlr runtime, calls (virtual calls to every override, std::function objects to every lambda of "
               "the signature, function pointers and libxml2 to every function whose address is taken), each filtered through the handlers of the try blocks around it. The set must be empty for every function of "
               "srcml.h, every function handed to libxml2 or run on a thread of its own, and every destructor or other noexcept function.")

    def check(u, role, key):
        f = P.funcs[u]
        R.ok("%s %s" % (role, f["qn"][:60]))
        for t in sorted(E.raw[u]):
            p = E.path(u, t)
            R.violation("%s|%s|%s" % (key, f["qn"].split("(")[0], t), api.where(P, f), "%s %s can be left by %s: %s" % (role, f["qn"], what(t), " <- ".join(p)))
    for n, f in sorted(pub.items()): check(f["usr"], "public function", "api")
    cbs = sorted(E.cb - {f["usr"] for f in pub.values()})
    for u in cbs: check(u, "callback", "callback")
    th = sorted(thread_functions(P))
    for u in th: check(u, "thread function", "thread")
    nne = 0
    for u, f in sorted(P.funcs.items()):
        if P_ne(P, u) and f.get("cls") not in GRAMMAR and u not in cbs:
            nne += 1
            check(u, "noexcept function", "noexcept")
    R.require("public functions", len(pub), 150)
    R.require("callbacks given to libxml2 or kept in handlers", len(cbs), 12)
    R.require("functions run on a thread of their own", len(th), 1)
    R.require("throw expressions", E.nthrow, 100)
    R.require("try blocks", E.ntry, 20)
    R.cov["noexcept functions"] = nne
    R.cov["calls"] = E.ncall
    R.cov["indirect calls"] = E.nindirect
    R.assumptions = ["memory allocation and thread creation succeed", "functions given by the caller do not throw", "positions given to members of std::string are within the string",
                     "the grammar keeps its mode stack and state stack balanced (the three element classes of the grammar are excluded from the noexcept rule)"]
    return R.finish(P)
