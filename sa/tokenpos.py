"""The grammar changes the type of tokens already queued only for the start of an element it has just begun, and reaches tokens only through the stream parser."""
from . import facts
from .flow import Fn
from .interp import notmpl
from .tokenout import peel

CLS, PARSER = "StreamMLParser", "srcMLParser"
STARTS = ("startElement", "startNoSkipElement", "emptyElement")     # each queues exactly one token of an element (decided on the queues)


class Positions:
    def __init__(self, P, W):
        self.P, self.W = P, W
        self.bad, self.sites = {}, 0
        self.cur = {u for u, d in P.decls.items() if d.get("n") == "CurrentToken" and d.get("cls") in (CLS, "TokenParser", PARSER)} | \
                   {u for u, d in P.decls.items() if d.get("n") == "pauseStream" and d.get("cls") in (CLS, "TokenParser", PARSER)}
        self.start = {u for u, d in P.decls.items() if d.get("n") in STARTS and d.get("cls") in (CLS, "TokenParser", PARSER)}
        # functions of the stream parser the grammar reaches that queue tokens, and what leads to them
        push = {f["usr"] for f in P.funcs.values() if f.get("cls") == CLS and f["usr"] not in self.cur and self.queues(f["usr"], set())}
        base = set(push)
        for u in list(push):
            for d in P.decls:
                if u in P.all_overriders(d): base.add(d)
        rev = {}
        for u, f in P.funcs.items():
            for x in f["exprs"].values():
                if "fn" in x: rev.setdefault(x["fn"], set()).add(u)
        self.pushing, todo = set(base) | W.grammar, list(base)
        while todo:
            for v in rev.get(todo.pop(), ()):
                if v not in self.pushing: self.pushing.add(v); todo.append(v)
        self.pushing |= W.bases
        # functions that need a start of an element just queued when they are called
        self.need = dict.fromkeys(self.cur)
        work = True
        while work:
            work = False
            for u, f in P.funcs.items():
                if u in self.need or f.get("cls") == CLS: continue
                hit = [x for x in f["exprs"].values() if x.get("fn") in self.need and x["k"].endswith("CallExpr")]
                if not hit: continue
                if self.flow(f, False) == "entry":
                    self.need[u] = f
                    work = True
        called = {x["fn"] for f in P.funcs.values() for x in f["exprs"].values() if "fn" in x and x["k"].endswith("CallExpr")}
        for u, f in P.funcs.items():
            if f.get("cls") == CLS: continue
            if any(x.get("fn") in self.need and x["k"].endswith("CallExpr") for x in f["exprs"].values()): self.flow(f, True, u in self.need and u in called)

    def queues(self, u, seen):
        if u in seen: return False
        seen.add(u)
        f = self.P.funcs.get(u)
        if not f or f.get("cls") != CLS: return False
        for x in f["exprs"].values():
            d = self.P.decls.get(x.get("fn"), {})
            if d.get("n") in ("emplace_back", "push_back", "insert") and x["k"].endswith("CallExpr"): return True
            if x.get("fn") in self.P.funcs and self.queues(x["fn"], seen): return True
        return False

    def flow(self, f, report, entry_ok=True):
        """where the token taken may be other than a start of an element: 'entry' if only on the way from the entry"""
        F = Fn(self.P, f)
        seen, work, res = set(), [(f["entry"], "entry")], None
        while work:
            b, s = work.pop()
            if (b, s) in seen: continue
            seen.add((b, s))
            for e in F.blocks[b]["el"]:
                if e["k"] != "E": continue
                x = F.ex[e["id"]]
                u = x.get("fn")
                if u is None or not x["k"].endswith("CallExpr"): continue
                if u in self.need:
                    if report:
                        self.sites += 1
                        if s == "other" or s == "entry" and not entry_ok: self.bad.setdefault((f["qn"].split("(")[0], x["l"]), (f, x["l"], "the token last queued, whose type is changed later, is not one of an element started just before: text is taken for markup and lost"))
                    elif s == "entry": res = "entry"
                if u in self.start: s = "start"
                elif u in self.pushing and u not in self.need: s = "other"
            for t in F.succ[b]: work.append((t, s))
        return res


def misuse(P, W, rows):
    """the grammar consumes, rewinds or alters tokens other than through the stream parser"""
    bad, n = [], 0
    virt = {u for u in W.bases if P.decls[u].get("n") == "consume"}
    for u, f in P.funcs.items():
        if f.get("cls") == CLS or f.get("cls") in ("KeywordLexer", "CommentTextLexer"): continue
        ex = {int(k): v for k, v in f["exprs"].items()}
        for i, x in ex.items():
            if "fn" not in x or not x["k"].endswith("CallExpr"): continue
            d = P.decls.get(x["fn"], {})
            qn = notmpl(d.get("qn", ""))
            if x["fn"] in virt:
                n += 1
                own = f["n"] == "consume" and f.get("cls") == PARSER
                if not x.get("vc") and not own: bad.append((f, x["l"], "%s|consume" % f["n"], "takes the current token without queueing it for the output"))
            if qn.startswith(("antlr::TokenBuffer::", "antlr::ParserInputState::", "antlr::ParserSharedInputState::")) and d["n"] in ("consume", "reset", "initialize"): bad.append((f, x["l"], "%s|%s" % (f["n"], d["n"]), "takes tokens from the lexer without queueing them for the output"))
            if qn in ("antlr::Parser::setTokenBuffer", "antlr::Parser::setInputState", "antlr::LLkParser::setTokenBuffer"): bad.append((f, x["l"], "%s|buffer" % f["n"], "replaces the source of tokens"))
            if d.get("n") in ("setText", "setType") and "Token" in str(d.get("cls", "")) and x.get("ops"):
                o = peel(ex, x["ops"][0])
                for _ in range(8):
                    if "fn" in o and P.decls.get(o["fn"], {}).get("n") in ("LT", "LT1") : break
                    if "fn" in o and P.decls.get(o["fn"], {}).get("n") in ("operator->", "get", "operator*") and o.get("ops"): o = peel(ex, o["ops"][-1] if o.get("oc") is None else o["ops"][0])
                    elif o["k"] in ("UnaryOperator", "CXXConstructExpr") and o.get("ops"): o = peel(ex, o["ops"][0])
                    else: break
                if P.decls.get(o.get("fn"), {}).get("n") == "LT":
                    if d["n"] == "setText": bad.append((f, x["l"], "%s|setText" % f["n"], "replaces the text of a token of the source"))
                    else:
                        a = peel(ex, x["ops"][1])
                        if not isinstance(a.get("cv"), int) or a["cv"] in rows: bad.append((f, x["l"], "%s|setType" % f["n"], "turns a token of the source into markup: its text is lost"))
    return bad, n


def base_once(P, W):
    """the parser's consume() passes one token on to the runtime's on every path"""
    bad = []
    for u, f in P.funcs.items():
        if f.get("cls") != PARSER or f["n"] != "consume": continue
        F = Fn(P, f)
        seen, work = set(), [(f["entry"], 0)]
        while work:
            b, n = work.pop()
            if (b, n) in seen: continue
            seen.add((b, n))
            for e in F.blocks[b]["el"]:
                x = F.ex.get(e.get("id"), {}) if e["k"] == "E" else {}
                if "fn" in x and x["k"].endswith("CallExpr") and P.decls.get(x["fn"], {}).get("n") == "consume": n = min(2, n + 1)
            if b == f["exit"] and n != 1: bad.append((f, f["line"], "consume|base", "consumes %s token(s) where it is asked for one" % ("no" if n == 0 else "more than one")))
            for t in F.succ[b]: work.append((t, n))
    return bad
