"""Whole-program exception analysis: which exception types may leave each function, through the try blocks and handlers in between."""
from .interp import notmpl

STD = {"std::out_of_range": "std::logic_error", "std::invalid_argument": "std::logic_error", "std::length_error": "std::logic_error", "std::domain_error": "std::logic_error",
       "std::logic_error": "std::exception", "std::runtime_error": "std::exception", "std::range_error": "std::runtime_error", "std::system_error": "std::runtime_error",
       "std::regex_error": "std::runtime_error", "std::bad_cast": "std::exception", "std::bad_alloc": "std::exception", "boost::bad_optional_access": "std::logic_error",
       "std::bad_function_call": "std::exception", "std::bad_typeid": "std::exception"}
ANTLR = {"antlr::MismatchedTokenException": "antlr::RecognitionException", "antlr::MismatchedCharException": "antlr::RecognitionException",
         "antlr::NoViableAltException": "antlr::RecognitionException", "antlr::NoViableAltForCharException": "antlr::RecognitionException",
         "antlr::RecognitionException": "antlr::ANTLRException", "antlr::TokenStreamException": "antlr::ANTLRException",
         "antlr::TokenStreamIOException": "antlr::TokenStreamException", "antlr::TokenStreamRecognitionException": "antlr::TokenStreamException",
         "antlr::TokenStreamRetryException": "antlr::TokenStreamException", "antlr::CharStreamException": "antlr::ANTLRException", "antlr::CharStreamIOException": "antlr::CharStreamException",
         "antlr::SemanticException": "antlr::RecognitionException"}
# library functions that raise when their argument does not fit (never because the machine is out of resources)
RAISES = {"at": "std::out_of_range", "stoi": "std::logic_error", "stol": "std::logic_error", "stoul": "std::logic_error", "stoll": "std::logic_error",
          "stoull": "std::logic_error", "stof": "std::logic_error", "stod": "std::logic_error", "value": "boost::bad_optional_access"}
# antlr runtime
ANTLRFN = {"match": ("antlr::MismatchedTokenException", "antlr::MismatchedCharException"), "matchNot": ("antlr::MismatchedTokenException", "antlr::MismatchedCharException"),
           "matchRange": ("antlr::MismatchedCharException",), "matchNewline": (), "consume": ("antlr::TokenStreamException", "antlr::CharStreamException"),
           "LA": ("antlr::TokenStreamException", "antlr::CharStreamException"), "LT": ("antlr::TokenStreamException",), "nextToken": ("antlr::TokenStreamException",), "getToken": (),
           "getStream": ("antlr::SemanticException",), "getChar": ("antlr::CharStreamException",), "fill": ("antlr::CharStreamException",), "retry": ("antlr::TokenStreamRetryException",),
           "mark": (), "rewind": (), "select": (), "push": (), "pop": (), "consumeUntil": ("antlr::TokenStreamException", "antlr::CharStreamException"), "expandMacro": ()}
RESOURCE = {"std::bad_alloc", "std::system_error"}
# functions of other libraries that call back into the library
CALLS_BACK = ("xmlParse", "xmlTextReader", "xmlSAX", "xmlRead", "xmlCtxtRead", "xmlCtxtParse", "xmlCreate", "xmlOutputBuffer", "xmlParserInputBuffer", "xmlTextWriter", "xmlNodeDump", "xmlFreeTextWriter", "xmlFreeParser", "xslt")
ACTIVE = "?rethrow"      # throw; outside of any handler of its function: whatever exception the caller is handling


class Exc:
    def __init__(self, P, ignore=()):
        self.P = P
        self.anc = {}
        self.sites = {}      # usr -> [(kind, payload, try, line)]
        self.handlers = {}
        self.nthrow = self.ncall = self.ntry = self.nindirect = 0
        self.ignore = ignore
        self.cb = set()      # functions whose address is taken: callable from outside of the program
        self.users = {}
        self.fobj = set()    # lambdas kept in a std::function
        for u, f in P.funcs.items(): self._scan(u, f)
        self.cb |= {u for u, f in P.funcs.items() if f.get("lambda") and f["qn"].endswith("__invoke")}
        self.cb = {u for u in self.cb if "/libsrcml/" in P.funcs[u]["file"]}
        group = {"$callbacks": self.cb}
        for who in [x for x in self.users if x.startswith("$functions")]: group[who] = set()
        for u in self.fobj: group.setdefault("$functions" + self.signature(P.decls.get(u, {})), set()).add(u)
        for who, us in group.items():
            self.sites[who] = [("call", u, None, 0, None) for u in sorted(us)]
            self.handlers[who] = []
            for u in us: self.users.setdefault(u, set()).add(who)
        self.T = {u: {} for u in self.sites}
        self._solve()

    # ------------------------------------------------------------ types
    def ancestors(self, t):
        r = self.anc.get(t)
        if r is None:
            r = {t}
            for b in self.P.records.get(t, {}).get("bases", ()): r |= self.ancestors(b)
            for tab in (STD, ANTLR):
                if t in tab: r |= self.ancestors(tab[t])
            self.anc[t] = r
        return r

    def tname(self, i):
        t = self.P.type(i)
        n = t.get("rec") or t.get("s", "?")
        n = n.replace("const ", "").replace("struct ", "").replace("class ", "").strip()
        if n.endswith("&"): n = n[:-1].strip()
        if n in ("std::string", "std::basic_string<char>") or n.startswith("std::basic_string<char"): n = "std::string"
        return n

    def signature(self, d): return "(%s)" % ",".join(self.P.type(t).get("s", "?") for t in d.get("ps", ()))

    # ------------------------------------------------------------ one function
    def _scan(self, u, f):
        P = self.P
        ex = {int(k): v for k, v in f["exprs"].items()}
        trys = f.get("trys", [])
        self.ntry += len(trys)
        self.handlers[u] = trys
        sites = []
        parent = {o: i for i, x in ex.items() for o in x.get("ops", ())}

        def address_taken(i):
            """the name of a function used as a value (the callee of a direct call is no operand of any expression)"""
            while i in parent and ex[parent[i]]["k"] in ("ImplicitCastExpr", "ParenExpr"): i = parent[i]
            return i in parent or ex[i]["k"] == "DeclRefExpr"

        def call(fn, virt, tr, line, x=None, h=None):
            self.ncall += 1
            d = P.decls.get(fn, {})
            for t in ([fn] + sorted(P.all_overriders(fn)) if virt else [fn]):
                if t in P.funcs:
                    sites.append(("call", t, tr, line, h))
                    self.users.setdefault(t, set()).add(u)
                else:
                    qn = notmpl(d.get("qn", ""))
                    for o in x.get("ops", ()) if x else ():       # a lambda given to an algorithm is called by it
                        while o in ex and ex[o]["k"].endswith(("CastExpr", "ParenExpr", "TemporaryExpr", "CXXConstructExpr")) and len(ex[o].get("ops", ())) == 1: o = ex[o]["ops"][0]
                        if o in ex and ex[o]["k"] == "LambdaExpr" and ex[o].get("fn") in P.funcs:
                            l = ex[o]["fn"]
                            if qn.startswith("std::function"):
                                self.fobj.add(l)
                            elif not qn.startswith(("std::unique_ptr", "std::shared_ptr")) and not d.get("ne"):
                                sites.append(("call", l, tr, line, h))
                                self.users.setdefault(l, set()).add(u)
                    if d.get("ne"): continue
                    if qn.startswith("std::function::operator()"): back(tr, line, h, "$functions" + self.signature(d))
                    elif qn.startswith(CALLS_BACK): back(tr, line, h)
                    for e in self.external(P.decls.get(t, {}), x, ex, f): sites.append(("throw", e, tr, line))

        def back(tr, line, h, who="$callbacks"):
            sites.append(("call", who, tr, line, h))
            self.users.setdefault(who, set()).add(u)
        for i, x in ex.items():
            k = x["k"]
            h = tuple(x["handler"]) if x.get("handler") else None
            if k == "CallExpr" and "fn" not in x:
                self.nindirect += 1
                back(x.get("try"), x.get("l"), h)
            if k == "CXXThrowExpr":
                self.nthrow += 1
                if x.get("ops"): sites.append(("throw", self.tname(ex[x["ops"][0]]["t"]), x.get("try"), x.get("l")))
                else:
                    sites.append(("rethrow", h, x.get("try"), x.get("l")))
            elif k == "DeclRefExpr" and "fn" in x:
                if x["fn"] in P.funcs and address_taken(i): self.cb.add(x["fn"])
            elif k == "LambdaExpr": pass
            elif k == "CXXDeleteExpr" and x.get("dfn"): call(x["dfn"], True, x.get("try"), x.get("l"), None, h)
            elif "fn" in x and k != "MemberExpr" and k != "LambdaExpr": call(x["fn"], x.get("vc"), x.get("try"), x.get("l"), x, h)
        self.sites[u] = sites

    def external(self, d, x, ex, f):
        qn = notmpl(d.get("qn", ""))
        name = qn.rsplit("::", 1)[-1]
        if qn.startswith("antlr::"):
            return ANTLRFN.get(name, ())
        if qn.startswith("std::"):
            if name in RAISES and x is not None:
                return (RAISES[name],)
        if qn.startswith("boost::") and name == "value": return (RAISES["value"],)
        return ()

    # ------------------------------------------------------------ propagation
    def caught(self, h, t):
        """'all', 'some' or None: does the handler catch an exception of static type t"""
        if t == ACTIVE: return None      # there is no exception to catch: std::terminate
        if h.get("all"): return "all"
        n = self.tname(h["t"])
        if n in self.ancestors(t): return "all"
        return "some" if t in self.ancestors(n) else None

    def escape(self, u, ty, tr, into=None):
        """does an exception of type ty raised under try block tr leave u? records the handlers it enters"""
        trys = self.handlers[u]
        while tr is not None and tr >= 0:
            for hi, h in enumerate(trys[tr]["h"]):
                c = self.caught(h, ty)
                if c and into is not None: into.setdefault((tr, hi), set()).add(ty)
                if c == "all": return False
            tr = trys[tr]["parent"]
        return True

    def _solve(self):
        P = self.P
        self.entering = {u: {} for u in self.sites}
        work = set(self.sites)
        while work:
            u = work.pop()
            if self._step(u): work |= self.users.get(u, set())

    def _step(self, u):
        new = {}
        into = self.entering[u]
        for _ in range(3):
            before = sum(map(len, into.values()))
            for kind, pl, tr, line, *h in self.sites[u]:
                if kind == "throw": ts = {pl: ()}
                elif kind == "call":
                    ts = {t: (pl,) for t in self.T[pl]}
                    if ACTIVE in ts and h[0] is not None:
                        del ts[ACTIVE]
                        ts.update({t: (pl,) for t in into.get(h[0], ()) if self.rethrown(pl, t, set())})
                else:
                    if pl is None: ts = {ACTIVE: ()}
                    else: ts = {t: () for t in into.get(pl, ())}
                for t, via in ts.items():
                    if self.escape(u, t, tr, into): new.setdefault(t, (line, via[0] if via else None))
            if sum(map(len, into.values())) == before: break
        self.raw = getattr(self, "raw", {})
        self.raw[u] = new
        if P_ne(self.P, u): new = {}
        if set(new) - set(self.T[u]):
            for t, w in new.items(): self.T[u].setdefault(t, w)
            return True
        return False

    def rethrown(self, u, ty, seen):
        """u rethrows the exception its caller is handling: does one of type ty leave u?"""
        if u in seen: return False
        seen.add(u)
        for kind, pl, tr, line, *h in self.sites[u]:
            if kind == "rethrow" and pl is None or kind == "call" and h[0] is None and ACTIVE in self.T[pl] and self.rethrown(pl, ty, seen):
                if self.escape(u, ty, tr): return True
        return False

    def path(self, u, t):
        """how an exception of type t leaves u"""
        out, seen = [], set()
        while u and u not in seen:
            seen.add(u)
            if u[0] == "$":
                u = (self.raw[u].get(t) or (0, None))[1]
                continue
            f = self.P.funcs[u]
            w = self.raw[u].get(t) or self.T[u].get(t)
            if not w: break
            out.append("%s (%s:%s)" % (f["qn"], self.P.relpath(f["file"]), w[0]))
            u = w[1]
        return out


def P_ne(P, u):
    return bool(P.decls.get(u, {}).get("ne"))


def analysis(P):
    e = getattr(P, "_exc", None)
    if e is None: e = P._exc = Exc(P)
    return e
