"""C11: no state shared behind the API: nothing with static or thread storage duration is modified after its initialisation."""
from .. import facts, api, flow
from ..interp import notmpl
from ..effects import effects
from ..report import Report

# functions of other libraries that read or change state of the process (or hand out a buffer of the process)
PROCESS = {
    "setlocale", "uselocale", "chdir", "fchdir", "putenv", "setenv", "unsetenv", "clearenv", "umask", "strtok", "localtime", "gmtime", "asctime", "ctime", "rand", "srand",
    "random", "srandom", "signal", "sigaction", "alarm", "tmpnam", "dup2", "std::set_terminate", "std::set_new_handler", "std::locale::global", "std::ios_base::sync_with_stdio",
    "std::setlocale", "std::strtok", "std::localtime", "std::gmtime", "std::rand", "std::srand", "std::signal", "atexit", "std::atexit", "freopen", "std::freopen", "setrlimit", "exit", "std::exit",
    "_exit", "abort", "std::abort", "std::terminate", "quick_exit",
    "xmlCleanupParser", "xmlCleanupMemory", "xmlCleanupCharEncodingHandlers", "xmlCleanupGlobals", "xmlCleanupThreads", "xmlDictCleanup", "xmlRelaxNGCleanupTypes", "xsltCleanupGlobals",
    "xmlSubstituteEntitiesDefault", "xmlKeepBlanksDefault", "xmlLineNumbersDefault", "xmlPedanticParserDefault", "xmlLoadExtDtdDefaultValue", "xmlIndentTreeOutput", "xmlSetExternalEntityLoader",
    "xmlSetGenericErrorFunc", "xmlMemSetup", "xmlGcMemSetup", "xmlCleanupInputCallbacks", "xmlCleanupOutputCallbacks",
    "xmlRegisterInputCallbacks", "xmlRegisterOutputCallbacks", "xmlPopInputCallbacks", "xmlAddEncodingAlias", "xmlDelEncodingAlias", "xmlCleanupEncodingAliases", "xmlRegisterCharEncodingHandler",
    "xsltSetGenericErrorFunc", "xsltSetGenericDebugFunc", "xsltSetLoaderFunc", "xsltSetDefaultSecurityPrefs", "xmlThrDefSetGenericErrorFunc", "xmlThrDefSetStructuredErrorFunc",
}
OK_TYPES = ("std::mutex", "std::recursive_mutex", "std::shared_mutex", "std::once_flag", "std::condition_variable")
ACCESS = {"operator*", "operator->", "operator[]", "begin", "end", "cbegin", "cend", "rbegin", "rend", "find", "front", "back", "data", "get", "value", "at", "lower_bound", "upper_bound",
          "equal_range", "operator+", "operator-", "c_str"}
READERS = {"size", "empty", "count", "length", "compare", "operator==", "operator!=", "operator<", "operator bool", "has_value", "hash_function", "contains", "load"}
STD_READ = {"find", "find_if", "find_if_not", "any_of", "all_of", "none_of", "lower_bound", "upper_bound", "equal_range", "binary_search", "count", "count_if", "equal", "distance", "next", "prev",
            "begin", "end", "cbegin", "cend", "size", "empty", "advance", "mismatch", "lexicographical_compare", "max_element", "min_element", "accumulate", "search", "data", "as_const", "ref",
            "cref", "operator==", "operator!=", "operator-", "operator+", "operator<", "get", "forward", "move", "addressof"}


class Uses:
    """what happens to a variable, through handles to it (references, pointers, iterators), inside one function"""

    def __init__(self, P, F):
        self.P, self.F = P, F
        self.inits = {}
        for b in F.blocks.values():
            for e in b["el"]:
                for v in e.get("vars", ()) if e["k"] == "D" else ():
                    if v.get("init") is not None: self.inits[v["init"]] = v
        self.busy = set()

    def mutable_handle(self, t):
        """through a value of this type, can what it refers to be changed?"""
        ty = self.P.type(t)
        if ty["k"] in ("ptr", "ref", "lref", "rref"): return not self.P.type(ty["p"]).get("c")
        if ty["k"] == "rec": return ("iterator" in ty["s"] or "span" in ty["s"]) and not ("const_iterator" in ty["s"] or "const " in ty["s"].split("<", 1)[-1].split(",", 1)[0] and "__normal_iterator" in ty["s"])
        return False

    def visit(self, i, out):
        """i denotes the object, a part of it, or a handle to it; adds the expressions that change it"""
        if i in self.busy: return
        self.busy.add(i)
        P, F = self.P, self.F
        if i in self.inits:
            v = self.inits[i]
            if P.type(v["t"])["k"] in ("ptr", "ref", "lref", "rref", "rec") and self.mutable_handle(v["t"]) and self.ishandle(i, v["t"]):
                for j, x in F.ex.items():
                    if x["k"] == "DeclRefExpr" and x.get("v") == v["v"]: self.visit(j, out)
            return
        p = F.parent.get(i)
        if p is None: return
        x = F.ex[p]
        k, ops = x["k"], x.get("ops", [])
        d = P.decls.get(x.get("fn"), {})
        n = d.get("n", "")
        if k.endswith("CastExpr") or k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr"):
            if x.get("ck") == "LValueToRValue" and P.type(x["t"])["k"] != "ptr": return
            return self.visit(p, out)
        if k == "MemberExpr" and "f" in x: return self.visit(p, out)
        if k in ("ArraySubscriptExpr", "ConditionalOperator"): return self.visit(p, out) if ops[0] == i or k == "ConditionalOperator" else None
        if k == "UnaryOperator":
            if x["op"] in ("++", "--"):
                if self.lvalue_of_object(i): out.append(p)
                return self.visit(p, out)
            if x["op"] in ("*", "&", "+"): return self.visit(p, out)
            return
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            if x["op"] == "=" or k == "CompoundAssignOperator":
                if ops[0] == i:
                    if self.lvalue_of_object(i): out.append(p)
                elif self.mutable_handle(F.ex[i]["t"]):
                    self.assigned(ops[0], out)
                return
            if x["op"] in ("+", "-"): return self.visit(p, out)
            return
        if k in ("CXXMemberCallExpr", "CXXOperatorCallExpr") and ops and ops[0] == i and ("cls" in d and not d.get("st")):
            if d.get("const") and n not in ACCESS: return
            if n in ACCESS:
                if n == "operator[]" and not d.get("const") and ("map" in d.get("cls", "")): out.append(p)
                return self.visit(p, out) if self.mutable_handle(x["t"]) or x.get("lv") else None
            if n in READERS or n in ("operator++", "operator--"): return
            if not self.lvalue_of_object(i) and n in ("operator=", "operator+=", "operator-="): return
            out.append(p)
            return
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXNewExpr"):
            if k == "CXXConstructExpr" and notmpl(d.get("cls", "")).split("::")[-1] in ("__normal_iterator", "_Rb_tree_iterator", "_Rb_tree_const_iterator", "_Node_iterator", "reverse_iterator"):
                return self.visit(p, out)
            if d.get("qn", "").startswith("std::") and n in STD_READ or n in READERS:
                if self.mutable_handle(x["t"]): self.visit(p, out)
                return
            ps = d.get("ps", [])
            at = ops.index(i) - (1 if k in ("CXXMemberCallExpr",) or k == "CXXOperatorCallExpr" and "cls" in d else 0)
            t = ps[at] if 0 <= at < len(ps) else None
            if t is None:
                if k == "CallExpr" and not ps and d: return          # variadic: printf and the like
                t = F.ex[i]["t"]
            pt = P.type(t)
            if pt["k"] in ("ptr", "ref", "lref", "rref") and not P.type(pt["p"]).get("c") and P.type(pt["p"])["k"] != "fun": out.append(p)
            return
        if k == "CXXDeleteExpr": out.append(p)

    def assigned(self, lhs, out):
        x = self.F.ex[lhs]
        if x["k"] == "DeclRefExpr" and not str(x.get("v", "")).startswith("G:"):
            for j, y in self.F.ex.items():
                if y["k"] == "DeclRefExpr" and y.get("v") == x.get("v"): self.visit(j, out)

    def ishandle(self, i, t):
        """is the initialised variable another name or a pointer for the object, and not a copy of it?"""
        ty = self.P.type(t)
        if ty["k"] in ("ptr", "ref", "lref", "rref"): return True
        return any(w in ty["s"] for w in ("iterator", "span"))

    def lvalue_of_object(self, i):
        """is i the object itself (or part of it), not a local pointer or iterator?"""
        x = self.F.ex[i]
        if x["k"] == "DeclRefExpr":
            v = str(x.get("v", ""))
            if v.startswith("G:"): return True
            for init, var in self.inits.items():
                if var["v"] == x.get("v"): return self.P.type(var["t"])["k"] in ("ref", "lref", "rref")
            return False
        return True


def depends(P, F, tree_or_i, nested=True):
    """what an initialiser depends on that is not constant: parameters, locals, members, modifiable globals"""
    out = []
    for j in F.sub(tree_or_i):
        x = F.ex[j]
        if x["k"] == "CXXThisExpr": out.append("the object")
        if x["k"] == "DeclRefExpr" and "v" in x:
            v = str(x["v"])
            if not v.startswith("G:"): out.append(v.split("#")[0])
    return out


def mutable(P, v):
    t = P.type(v["t"])
    while t["k"] == "arr": t = P.type(t["p"]) if "p" in t else {"k": "?"}
    if t["k"] in ("ref", "lref", "rref"): return not P.type(t["p"]).get("c")
    if any(notmpl(t.get("r", "")) == o for o in OK_TYPES): return False
    return True


def run():
    R = Report("C11", "Every mention of a variable with static or thread storage duration, in every function of the library, the parser and the generated parser: it is not modified (directly or "
               "through a reference, pointer, iterator or call) outside its own initialisation; the default archive and unit of the convenience functions are used only by functions no "
               "archive, unit or transform function reaches; no function-local static is initialised from a parameter, local or member; no process-wide state of another library is changed.")
    P = facts.load(("libsrcml", "parser", "gen"))
    E = effects(P)
    pub = api.public(P)
    handles = ("srcml_archive", "srcml_unit", "srcml_transform_result", "srcml_write_option")
    ofhandle = {n: f for n, f in pub.items() if any(P.type(p["t"])["k"] == "ptr" and notmpl(P.type(P.type(p["t"])["p"]).get("r", "")) in handles for p in f["params"])}
    reach = {}
    for n, f in sorted(ofhandle.items()):
        for u in E.reach[f["usr"]]: reach.setdefault(u, n)
    anyreach = {}
    for n, f in sorted(pub.items()):
        if n == "srcml_cleanup_globals": continue       # its purpose
        for u in E.reach[f["usr"]]: anyreach.setdefault(u, n)
    R.require("public functions with a handle", len(ofhandle), 100)

    vars_ = {k: v for k, v in P.vars.items() if not v.get("sys")}
    R.require("variables with static or thread storage duration", len(vars_), 100)
    seen = 0
    for u, f in sorted(P.funcs.items()):
        ms = [(int(i), x) for i, x in f["exprs"].items() if x["k"] == "DeclRefExpr" and str(x.get("v", "")).startswith("G:")]
        F = flow.fn(P, f) if f.get("blocks") else None
        if F is None: continue
        for i, x in ms:
            k = x["v"][2:]
            v = P.vars.get(k)
            if v is None: continue
            seen += 1
            R.ok()
            t = P.type(v["t"])
            if t["k"] in ("int", "enum", "float", "bool") and t.get("c"): continue
            out = []
            Uses(P, F).visit(i, out)
            if v.get("sys"):
                w = [j for j in out if F.ex[j]["k"] in ("BinaryOperator", "CompoundAssignOperator") or F.ex[j]["k"] == "UnaryOperator" and F.ex[j]["op"] in ("++", "--")]
                if w and not t.get("c"):
                    R.violation("sys:%s:%s" % (v["qn"], f["qn"]), api.where(P, f, F.ex[w[0]].get("l")), "%s changes %s, state of the process that other archives see" % (f["qn"], v["qn"]))
                continue
            if not out or not mutable(P, v): continue
            if v.get("tls") and scratch(P, F, v, k): continue
            if u not in reach and not v.get("slocal") and v.get("internal"):
                R.count("uses by the convenience functions only")
                continue
            if u not in anyreach and f["qn"].split("::")[-1] in ("constructor", "destructor"): continue
            R.violation("write:%s:%s" % (v["qn"], f["qn"]), api.where(P, f, F.ex[out[0]].get("l")),
                        "%s modifies %s, which has %s storage duration, so one archive, unit or parse changes another (reached from %s)"
                        % (f["qn"], v["qn"], "thread" if v.get("tls") else "static", reach.get(u, "no public function")))
        # function-local statics
        for b in F.blocks.values():
            for e in b["el"]:
                for v in e.get("vars", ()) if e["k"] == "D" else ():
                    g = str(v.get("v", ""))
                    if not g.startswith("G:"): continue
                    R.ok()
                    if v.get("init") is None: continue
                    dep = depends(P, F, v["init"])
                    if dep:
                        R.violation("stale:%s:%s" % (f["qn"], v["n"]), api.where(P, f, e.get("l")),
                                    "%s is initialised once from %s of the first call of %s and is stale in every later call" % (v["n"], ", ".join(sorted(set(dep))), f["qn"]))
        # state of other libraries
        if u in anyreach:
            for q in sorted(E.ext[u]):
                R.ok()
                if q in PROCESS:
                    R.violation("process:%s:%s" % (f["qn"], q), api.where(P, f), "%s calls %s, which changes state of the whole process (reached from %s)" % (f["qn"], q, anyreach[u]))
    R.cov["mentions of such variables"] = seen
    R.cov["functions reached from the public interface"] = len(anyreach)
    # the default objects are not handed out by functions of other handles
    for k, v in sorted(vars_.items()):
        t = P.type(v["t"])
        if t["k"] == "rec" and t.get("r") in handles and not t.get("c"):
            for u, f in P.funcs.items():
                if any(x["k"] == "DeclRefExpr" and x.get("v") == "G:" + k for x in f["exprs"].values()):
                    R.ok()
                    if u in reach:
                        R.violation("default:%s:%s" % (v["qn"], f["qn"]), api.where(P, f), "%s uses %s and is reached from %s" % (f["qn"], v["qn"], reach[u]))
    return R.finish(P)


def scratch(P, F, v, k):
    """a thread-local array of characters of this function whose elements are only ever written here"""
    t = P.type(v["t"])
    if not v.get("slocal") or t["k"] != "arr": return False
    for i, x in F.ex.items():
        if x["k"] == "ImplicitCastExpr" and x.get("ck") == "LValueToRValue" and P.type(x["t"])["k"] in ("int", "char"):
            o = F.ex[x["ops"][0]]
            if o["k"] == "ArraySubscriptExpr" or o["k"] == "UnaryOperator" and o["op"] == "*": return False
    return True
