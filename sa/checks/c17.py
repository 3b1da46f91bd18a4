"""C17: the reader and the parser thread take turns, and neither waits for one that has ended."""
import os
from .. import facts
from ..api import where
from ..effects import effects
from ..interp import *
from ..report import Report
from .c10 import thread_functions

CV = ("std::condition_variable", "std::condition_variable_any")
LOCKS = ("std::unique_lock", "std::lock_guard", "std::scoped_lock")


def members(f, name):
    """field reads of an object of the class in a function"""
    return {x["f"] for x in f["exprs"].values() if x["k"] == "MemberExpr" and x.get("rec") == name}


class Outcomes(Hooks):
    """the result of a predicate for what its fields may be: [({field: (lo, hi, ne)}, result)]"""
    def __init__(self, cls): self.paths, self.cls = [], cls

    def add(self, st, res):
        c = {}
        for t in st.facts:
            if t[0] == "init" and t[1][0] == "f": c.setdefault(t[1][2], []).append(st.con(t))
        self.paths.append((c, res))

    def ret(self, I, st, val, el, fr):
        if fr.parent is not None: return
        for r in (1, 0):
            n = st.copy()
            if val is None or n.assume(val, r): self.add(n, r)


class Leaves(Outcomes):
    """a loop around a wait: left, or back at the wait"""
    def __init__(self, cls, wait, scc):
        super().__init__(cls)
        self.wait, self.scc = wait, scc

    def edge(self, I, st, frm, to, fr):
        if fr.parent is not None: return
        if to == self.wait: self.add(st, 0)
        elif to not in self.scc and frm in self.scc and frm != self.wait: self.add(st, 1)

    def ret(self, I, st, val, el, fr): pass


def decide(paths, vals):
    """{results} of a predicate for known values of some fields"""
    out = set()
    for c, r in paths:
        ok = True
        for f, v in vals.items():
            if v is None: continue
            for lo, hi, ne in c.get(f, ()):
                if not (lo <= v <= hi) or v in ne: ok = False
        if ok: out.add(r)
    return out


class World:
    def __init__(self, P, E):
        self.P, self.E = P, E
        self.preds = {}
        cands = {}
        for u, f in P.funcs.items():
            for x in f["exprs"].values():
                q = notmpl(P.decls.get(x.get("fn"), {}).get("qn", ""))
                if q in [c + "::wait" for c in CV] and f.get("cls"): cands.setdefault(f["cls"], []).append((u, x))
                if q in [c + s for c in CV for s in ("::wait_for", "::wait_until")]: cands.setdefault(f.get("cls"), []).append((u, x))
        self.waits = cands

    def predicate(self, usr):
        if usr not in self.preds:
            f = self.P.funcs[usr]
            h = Outcomes(None)
            I = Interp(self.P, h, max_depth=3, budget=20000, effects=self.E, inline_filter=lambda g, fr: "/src/libsrcml/" in g["file"])
            I.analyze(f)
            self.preds[usr] = h.paths
        return self.preds[usr]

    def loop(self, f, bid):
        """the predicate of a loop around a wait in that block, None when it is not in a loop"""
        k = (f["usr"], bid)
        if k in self.preds: return self.preds[k]
        self.preds[k] = None
        g = {b["id"]: {t for t in b["succ"] if t is not None and t >= 0} for b in f["blocks"]}

        def reach(a):
            seen, todo = set(), [a]
            while todo:
                for s in g.get(todo.pop(), ()):
                    if s not in seen: seen.add(s); todo.append(s)
            return seen
        scc = {b for b in reach(bid) if bid in reach(b)}
        if bid not in scc: return None
        paths = []
        for s in g[bid]:
            h = Leaves(f.get("cls"), bid, scc)
            I = Interp(self.P, h, max_depth=2, budget=20000, effects=self.E, inline_filter=lambda g2, fr: g2.get("cls") == f.get("cls"))
            f2 = dict(f)
            f2["usr"] = f["usr"] + "@loop%s.%s" % (bid, s)
            f2["entry"] = s
            blocks = []
            for b in f["blocks"]:
                if b["id"] in scc and b["id"] != bid: blocks.append(b)
                else: blocks.append({"el": [], "id": b["id"], "succ": [f["exit"]] if b["id"] != f["exit"] else []})
            f2["blocks"] = blocks
            if s == bid: paths.append(({}, 0)); continue
            I.analyze(f2)
            paths += h.paths
        self.preds[k] = paths
        return paths


def lockvar(d): return notmpl(d.get("cls", "")) in LOCKS


class Turns(Hooks):
    """one function of one side: locks, writes, notifications and waits"""
    def __init__(self, W, cls, flags, mutexes, f):
        self.W, self.cls, self.flags, self.mutexes, self.f = W, cls, flags, mutexes, f
        self.bad, self.waits, self.rets, self.joins, self.nwrites = {}, [], [], [], 0

    def say(self, k, l, t):
        self.bad.setdefault(k, (l, t))

    def name(self, fr): return fr.fi.f["qn"].split("(")[0]

    def held(self, st): return [q for q in st.ts if q[0] == "held"]

    def building(self, fr):
        while fr is not None:
            g = fr.fi.f
            if g.get("cls") == self.cls and g["qn"].split("(")[0].endswith("::" + self.cls.split("::")[-1]): return True
            fr = fr.parent
        return False

    def values(self, st):
        out = {}
        for l, v in st.mem.items():
            if l[0] == "f" and l[2] in self.flags: out[l[2]] = st.truth(v)
        for t in st.facts:
            if t[0] == "init" and t[1][0] == "f" and t[1][2] in self.flags and t[1] not in st.mem: out[t[1][2]] = st.truth(t)
        return out

    def call(self, I, st, qn, args, x, fr):
        last = qn.split("::")[-1]
        for a in args:
            if a[0] in ("init", "top"): self.gone(st, a, "call", x, fr)
        if qn.rsplit("::", 1)[0] in LOCKS and last == qn.rsplit("::", 1)[0].split("::")[-1] and args:
            a = args[0]
            m = a[1] if a[0] in ("L", "addr") else a
            if m[0] == "f" and m[2] in self.mutexes:
                if ("held", m) in st.ts: self.say("deadlock|" + self.name(fr), x.get("l"), "%s locks the mutex while it is already locked by the same thread" % self.name(fr))
                st.ts[("held", m)] = True
                st.ts[("last", m)] = True
        elif qn == "std::mutex::lock" and args and args[0][0] == "addr":
            if ("held", args[0][1]) in st.ts: self.say("deadlock|" + self.name(fr), x.get("l"), "%s locks the mutex while it is already locked by the same thread" % self.name(fr))
            st.ts[("held", args[0][1])] = True
        elif qn == "std::mutex::unlock" or qn == "std::unique_lock::unlock": self.release(st)
        elif qn == "std::unique_lock::lock":
            for q in [q for q in st.ts if q[0] == "last"]: st.ts[("held", q[1])] = True
        elif last in ("notify_one", "notify_all") and qn.rsplit("::", 1)[0] in CV:
            for q in [q for q in st.ts if q[0] == "dirty"]: del st.ts[q]
            if self.held(st): st.ts[("notified",)] = True
        elif last == "wait" and qn.rsplit("::", 1)[0] in CV: self.wait(I, st, args, x, fr)
        elif qn == "std::thread::join":
            self.joins.append((self.values(st), x.get("l")))
            if self.held(st): self.say("join|held", x.get("l"), "%s joins the thread while it holds the mutex" % self.name(fr))
            self.clean(st, x.get("l"), fr, "joins the thread")
            st.ts[("joined",)] = True
        elif qn == "std::thread::detach": self.say("detach", x.get("l"), "%s lets the parser thread go on without its reader" % self.name(fr))

    def gone(self, st, v, what, x, fr):
        """nothing of the reader is used once it has asked the parser to end"""
        if not (v[0] in ("init", "top") and any(isinstance(t, tuple) and len(t) == 3 and t[0] == "f" and t[2] in self.pointers for t in _sub(v))): return
        vals = self.values(st)
        if ("waited",) in st.ts and any(vals.get(n) == 1 for n in self.stop):
            self.say("gone|" + self.name(fr), x.get("l"), "%s goes on to use %s although the reader has asked it to end" % (self.name(fr), [t[2] for t in _sub(v) if isinstance(t, tuple) and len(t) == 3 and t[0] == "f" and t[2] in self.pointers][0]))

    stop = pointers = frozenset()

    def deref(self, I, st, term, x, fr): self.gone(st, term, "deref", x, fr)

    def release(self, st):
        for q in [q for q in st.ts if q[0] in ("held", "notified")]: del st.ts[q]

    def dtor(self, I, st, loc, decl, fr, el):
        if lockvar(decl): self.release(st)

    def clean(self, st, line, fr, does):
        for q in [q for q in st.ts if q[0] == "dirty"]:
            self.say("notify|%s|%s" % (self.name(fr), q[1]), line, "%s changes %s and %s without notifying the other thread" % (self.name(fr), q[1], does))

    def wait(self, I, st, args, x, fr):
        f = fr.fi.f
        if not self.held(st): self.say("wait|unlocked|" + self.name(fr), x.get("l"), "%s waits without holding the mutex" % self.name(fr))
        self.clean(st, x.get("l"), fr, "waits")
        pred = None
        if len(args) >= 3:
            v = args[2]
            for i in range(4):
                if v[0] == "lambda": break
                if v[0] in ("obj", "L"): v = I.read(st, v[1])
                elif v[0] == "addr": v = I.read(st, v[1])
            u = v[1] if v[0] in ("lambda", "fn") else None
            if u in self.W.P.funcs: pred = ("fn", u)
        else:
            b = [b["id"] for b in f["blocks"] if any(e["k"] == "E" and f["exprs"][str(e["id"])] is x for e in b["el"])]
            if not b: b = [b["id"] for b in f["blocks"] if any(e["k"] == "E" and f["exprs"][str(e["id"])] == x for e in b["el"])]
            if b: pred = ("loop", f["usr"], b[0])
        vals = self.values(st)
        self.waits.append((self.name(fr), x.get("l"), pred, tuple(sorted(vals.items()))))
        for q in [q for q in st.ts if q[0] in ("asked", "notified")]: del st.ts[q]
        st.ts[("waited",)] = True
        st.ts[("fresh", 0)] = True

    def result(self, I, st, qn, val, x, fr):
        if qn.rsplit("::", 1)[0] in CV and qn.split("::")[-1] == "wait":
            obj = [q[1][1] for q in st.ts if q[0] in ("held", "last")]
            for o in set(obj):
                for n in self.flags | getattr(self, "requests", set()):
                    s = ("top", (fr.id, x.get("l"), n))
                    for t in [t for t in st.facts if s in _sub(t)]: st.facts.pop(t)
                    st.mem[("f", o, n)] = s

    def write(self, I, st, loc, val, x, fr):
        if loc[0] != "f" or loc[2] not in self.flags or self.building(fr): return
        self.nwrites += 1
        if not self.held(st): self.say("unlocked|%s|%s" % (self.name(fr), loc[2]), x.get("l"), "%s changes %s without holding the mutex" % (self.name(fr), loc[2]))
        if ("notified",) not in st.ts: st.ts[("dirty", loc[2])] = True
        if st.truth(val) != 1: st.ts[("cleared", loc[2])] = True

    def ret(self, I, st, val, el, fr):
        if fr.parent is not None: return
        self.clean(st, el.get("l") if el else None, fr, "returns")
        self.rets.append((val, self.values(st), ("waited",) in st.ts, ("joined",) in st.ts, frozenset(q[1] for q in st.ts if q[0] == "cleared"), st, el.get("l") if el else None))

    def key(self, st): return frozenset(st.ts.items()) | frozenset(self.values(st).items())


def _sub(t):
    if isinstance(t, tuple):
        yield t
        for x in t: yield from _sub(x)


def run():
    P = facts.load(("libsrcml", "parser"))
    E = effects(P)
    R = Report("C17", "The class that pauses its thread is found by its condition variable, the two sides by the thread function and the class that owns the thread. Every function of either side is interpreted with a typestate "
               "for the mutex, the fields the waits depend on and the notifications owed; the predicate of every wait is tabulated, and must hold as soon as the other side hands over, ends or is asked to end, and not "
               "before.")
    W = World(P, E)
    W.waits.pop(None, None)
    if len(W.waits) != 1: raise facts.AnalysisBroken("C17: %d classes wait on a condition variable" % len(W.waits))
    cls = list(W.waits)[0]
    thr = thread_functions(P)
    rec = P.records.get(cls, {})
    ftypes = {x["n"]: P.type(x["t"]) for x in rec.get("fields", ())}
    mutexes = {n for n, t in ftypes.items() if "mutex" in str(t.get("n", t.get("s", "")) or t)}
    owners = {P.funcs[u2].get("cls") for u2, f in P.funcs.items() for x in f["exprs"].values() if x["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and
              notmpl(P.decls.get(x.get("fn"), {}).get("qn", "")) == "std::thread::thread" and x.get("ops") for u2 in [f["usr"]]}
    if len(owners) != 1 or None in owners: raise facts.AnalysisBroken("C17: the owner of the thread was not found (%s)" % owners)
    owner = owners.pop()
    mine = {u for u, f in P.funcs.items() if f.get("cls") == cls}
    bools = {n for n, t in ftypes.items() if t["k"] in ("bool", "int", "enum")}
    # the fields that the waits depend on
    flags = set()
    waiting = [P.funcs[u] for u in sorted({u for u, x in W.waits[cls]})]
    for f in waiting:
        for u, g in P.funcs.items():
            if g.get("lambda") and g["file"] == f["file"] and f["line"] <= g["line"] <= f["end"]: flags |= {n for c, r in W.predicate(u) for n in c}
        ids = {id(x): b["id"] for b in f["blocks"] for e in b["el"] if e["k"] == "E" for x in [f["exprs"].get(str(e["id"]))] if x is not None}
        for u, x in W.waits[cls]:
            if u == f["usr"] and len(x.get("ops", ())) == 2 and id(x) in ids:
                for c, r in W.loop(f, ids[id(x)]) or (): flags |= set(c)
    flags &= bools
    if len(flags) < 2: flags |= bools          # waits without a condition are reported below

    # the functions of either side
    reaches = {u for u, x in W.waits[cls]}
    more = True
    while more:
        n = {u for u, f in P.funcs.items() if u not in reaches and f.get("cls") in (cls, owner) and any(x.get("fn") in reaches for x in f["exprs"].values())}
        more = bool(n)
        reaches |= n
    parser = [P.funcs[u] for u in sorted(mine) if P.decls.get(u, {}).get("virt") and "~" not in P.funcs[u]["qn"]]
    thread = [P.funcs[u] for u in sorted(thr) if any(P.funcs[u]["file"] == g["file"] for g in P.funcs.values() if g.get("cls") == owner)]
    reader = [f for u, f in sorted(P.funcs.items()) if f.get("cls") == owner and not f.get("lambda")]

    # what a reader asks for: set before it waits, taken back afterwards
    requests = {x["f"] for f in reader for x in f["exprs"].values() if x["k"] == "MemberExpr" and x.get("rec") == cls and x["f"] in bools} - flags

    pointers = {n for n, t in ftypes.items() if t["k"] == "ptr"}

    def follow(f, stop=frozenset()):
        h = Turns(W, cls, flags, mutexes, f)
        h.stop, h.pointers = stop, pointers
        h.requests = set() if f.get("cls") == owner else requests
        I = Interp(P, h, max_depth=4, budget=40000, effects=E, inline_filter=lambda g, fr: g.get("cls") in (cls, owner) or g["file"] == f["file"] and not g.get("cls") and len(g["blocks"]) <= 12)
        I.esp = True
        I.joinkey = h.key
        I.analyze(f)
        for k, (l, t) in sorted(h.bad.items()): R.violation(k, where(P, f, l), t)
        R.cov["writes under the mutex"] = R.cov.get("writes under the mutex", 0) + h.nwrites
        return h
    rh = [(f, follow(f)) for f in reader]
    stop = None
    for f, h in rh:
        if "~" not in f["qn"]: continue
        for vals, l in h.joins:
            d = {n for n, v in vals.items() if v == 1}
            stop = d if stop is None else stop & d
        for val, vals, waited, joined, cl, st, l in h.rets:
            asked = any(t[0] == "call" and "joinable" in t[2] and st.truth(t) == 0 for t in st.facts if len(t) > 2 and isinstance(t[2], str))
            if not joined and not asked: R.violation("join", where(P, f, l), "%s may return without having waited for the parser thread to end" % f["qn"])
        R.ok("%s: %d joins" % (f["qn"], len(h.joins)), max(1, len(h.joins)))
    stop = stop or set()
    ph = [(f, follow(f, stop)) for f in parser]
    th = [(f, follow(f)) for f in thread]

    def table(pred):
        if pred is None: return None
        return W.predicate(pred[1]) if pred[0] == "fn" else W.loop(P.funcs[pred[1]], pred[2])
    sites = {}
    for side, hs in (("parser", ph + th), ("reader", rh)):
        for f, h in hs:
            for n, l, pred, vals in h.waits:
                t = table(pred)
                if t is None:
                    R.violation("predicate|" + n, where(P, P.funcs[pred[1]] if pred else f, l), "%s waits without testing a condition again when it wakes up: a wake-up can be lost, or come without a reason" % n)
                else: sites.setdefault((side, n, l, pred), set()).add(vals)
    R.require("waits of the parser", len([k for k in sites if k[0] == "parser"]), 0 if R.viol else 1)
    R.require("waits of the reader", len([k for k in sites if k[0] == "reader"]), 0 if R.viol else 1)

    # how the thread ends, and how it is asked to
    done = None
    for f, h in th:
        for val, vals, waited, joined, cl, st, l in h.rets:
            d = {n for n, v in vals.items() if v == 1}
            done = d if done is None else done & d
    done = done or set()
    for f, h in ph + th + rh:
        for r in h.rets:
            for n in r[4] & (done | stop): R.violation("cleared|" + n, where(P, f, r[6]), "%s takes back %s" % (f["qn"].split("(")[0], n))

    def must(k, t, vals, want, text):
        got = decide(t, vals)
        R.ok(("%s waits in %s; %s" % (k[0], k[1], sorted((n, v) for n, v in vals.items() if v is not None)))[:140])
        if got != {want}: R.violation("%s|%s|%s" % (k[0], k[1], text.split(",")[0]), where(P, P.funcs[k[3][1]], k[2]), "%s: %s" % (k[1], text))
    over = {n: 1 for n in done}
    quit_ = {n: 1 for n in stop}
    calm = {n: 0 for n in done | stop}
    for k, snaps in sorted(sites.items(), key=str):
        t = table(k[3])
        if k[0] == "reader": must(k, t, over, 1, "the reader may wait for a parser that has ended, as its wait does not depend on what the parser thread sets on every way out (%s)" % ", ".join(sorted(done)))
        else: must(k, t, quit_, 1, "the parser may wait for a reader that is gone, as its wait does not depend on what the destructor sets before it joins (%s)" % ", ".join(sorted(stop)))
        for s in snaps:
            vals = dict(s)
            if any(v == 1 for n, v in vals.items() if n in done | stop): continue
            vals.update(calm)
            must(k, t, vals, 0, "does not wait for the other side, as its condition already holds when it starts to wait")
            for k2 in sites:
                if k2[0] != k[0]: must(k2, table(k2[3]), vals, 1, "is not woken up by %s, which waits itself" % k[1])
    # success only when the parser has paused again, not when it has ended
    for f, h in rh:
        if P.type(f["ret"])["k"] not in ("int", "bool"): continue
        for val, vals, waited, joined, cl, st, l in h.rets:
            n = st.copy()
            if val is None or not waited or not n.assume(val, 1): continue
            R.ok("%s: success after a wait" % f["qn"].split("(")[0])
            v2 = h.values(n)
            for d in sorted(done):
                if v2.get(d) != 0: R.violation("success|%s" % f["qn"].split("(")[0], where(P, f, l), "%s may report success although the parser has ended and not paused" % f["qn"].split("(")[0])
            for q in sorted(requests):
                left = [v for loc, v in n.mem.items() if loc[0] == "f" and loc[2] == q]
                if any(n.truth(v) == 1 for v in left): R.violation("request|%s|%s" % (f["qn"].split("(")[0], q), where(P, f, l), "%s leaves %s set for the next operation" % (f["qn"].split("(")[0], q))
    R.cov["flags"] = sorted(flags)
    R.cov["set when the thread ends"] = sorted(done)
    R.cov["set before the thread is joined"] = sorted(stop)
    R.assumptions = ["mutexes and condition variables do what the C++ standard says", "libxml2 calls no callback of a parser that was stopped"]
    return R.finish(P)
