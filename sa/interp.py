"""Abstract interpreter over the extracted CFGs.

Domain: a value-numbering heap (locations -> terms, where an unknown value is a named symbol),
facts about terms (interval + excluded constants, and truth of uninterpreted relations), and a
rule-specific typestate.  States at a program point are kept as a set (merged when equal or when
the bound is hit), loops are solved by widening to a fixpoint, and repository callees are analysed
in the caller's context.  No constraint solver is used: a branch is refined only by these facts.
"""
import re, sys
from functools import lru_cache

sys.setrecursionlimit(20000)

INT0 = ("int", 0)
NEG, POS = float("-inf"), float("inf")
FULL = (NEG, POS, frozenset())

CMP = {"==", "!=", "<", ">", "<=", ">="}


@lru_cache(None)
def notmpl(q):
    """strip template arguments from a qualified name"""
    out, d, i = [], 0, 0
    q = q.replace("operator<<", "operator@SHL").replace("operator->", "operator@ARR").replace("operator<=", "operator@LE") \
         .replace("operator>>", "operator@SHR").replace("operator>=", "operator@GE")
    q = re.sub(r"operator<(?!\w)", "operator@LT", q) if "operator<" in q else q
    q = re.sub(r"operator>$", "operator@GT", q)
    for ch in q:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    return "".join(out).replace("@SHL", "<<").replace("@ARR", "->").replace("@LE", "<=").replace("@LT", "<").replace("@GT", ">").replace("@SHR", ">>").replace("@GE", ">=")


# ---------------------------------------------------------------- terms
def is_int(t):
    return t[0] == "int"


def app(op, *a):
    if all(x[0] == "int" for x in a):
        v = [x[1] for x in a]
        try:
            if op == "+": return ("int", v[0] + v[1])
            if op == "-": return ("int", v[0] - v[1]) if len(v) == 2 else ("int", -v[0])
            if op == "*": return ("int", v[0] * v[1])
            if op == "/" and v[1]: return ("int", abs(v[0]) // abs(v[1]) * (1 if (v[0] < 0) == (v[1] < 0) else -1))
            if op == "%" and v[1]: return ("int", (abs(v[0]) % abs(v[1])) * (-1 if v[0] < 0 else 1))
            if op == "&": return ("int", v[0] & v[1])
            if op == "|": return ("int", v[0] | v[1])
            if op == "^": return ("int", v[0] ^ v[1])
            if op == "<<" and 0 <= v[1] < 64: return ("int", v[0] << v[1])
            if op == ">>" and 0 <= v[1] < 64: return ("int", v[0] >> v[1])
            if op == "~": return ("int", ~v[0])
            if op == "!": return ("int", int(not v[0]))
            if op == "==": return ("int", int(v[0] == v[1]))
            if op == "!=": return ("int", int(v[0] != v[1]))
            if op == "<": return ("int", int(v[0] < v[1]))
            if op == "<=": return ("int", int(v[0] <= v[1]))
            if op == ">": return ("int", int(v[0] > v[1]))
            if op == ">=": return ("int", int(v[0] >= v[1]))
        except Exception:
            pass
    if len(a) == 2 and a[0][0] == "addr" and a[0][1][0] == "ix" and a[0][1][2][0] == "int":
        # pointers to elements of one array
        if a[1][0] == "int" and op in ("+", "-"): return ("addr", ("ix", a[0][1][1], app(op, a[0][1][2], a[1])))
        if a[1][0] == "addr" and a[1][1][0] == "ix" and a[1][1][1] == a[0][1][1] and a[1][1][2][0] == "int" and op in ("==", "!=", "<", ">", "<=", ">=", "-"): return app(op, a[0][1][2], a[1][1][2])
    if op == ">": return app("<", a[1], a[0])
    if op == ">=": return app("!", app("<", a[0], a[1]))
    if op == "<=": return app("!", app("<", a[1], a[0]))
    if op == "!=": return app("!", app("==", a[0], a[1]))
    if op == "!" and a[0][0] == "app" and a[0][1] == "!" and isbool(a[0][2]): return a[0][2]
    if op == "==":
        if a[0] == a[1] and a[0][0] not in ("top",): return ("int", 1)
        if a[0][0] == "str" and a[1][0] == "str" and len(a[0]) == len(a[1]) == 2: return ("int", int(a[0] == a[1]))
        if a[0][0] == "int": a = (a[1], a[0])
        elif a[1][0] != "int" and repr(a[0]) > repr(a[1]): a = (a[1], a[0])
        if a[1] == INT0:
            if nonnull_by_shape(a[0]): return INT0
            return app("!", a[0])
        if a[1][0] == "int" and isbool(a[0]):
            return a[0] if a[1][1] == 1 else INT0
    if op == "<" and a[0] == a[1]: return INT0
    if op == "+" and a[1] == INT0: return a[0]
    if op == "-" and len(a) == 2 and a[1] == INT0: return a[0]
    if op in "+-" and len(a) == 2 and a[1][0] == "int" and a[0][0] == "app" and a[0][1] in "+-" and len(a[0]) == 4 and a[0][3][0] == "int":
        n = a[0][3][1] * (1 if a[0][1] == "+" else -1) + a[1][1] * (1 if op == "+" else -1)
        return a[0][2] if n == 0 else app("+" if n > 0 else "-", a[0][2], ("int", abs(n)))
    if op == "!" and nonnull_by_shape(a[0]): return INT0
    if op in ("|", "^", "+") and a[0] == INT0: return a[1]
    if op in ("|", "^") and a[1] == INT0: return a[0]
    t = ("app", op) + a
    if depth(t) > 14: return ("top", "deep")
    return t


def wrap(t, v):
    """an integer constant converted to type t"""
    if v[0] != "int" or t.get("k") != "int": return v
    n, w = v[1], t.get("w", 64)
    n &= (1 << w) - 1
    if not t.get("u") and n >> (w - 1): n -= 1 << w
    return ("int", n)


def trange(t):
    """value range of an integer type"""
    if t.get("k") == "bool": return (0, 1)
    w = t.get("w", 64)
    return (0, (1 << w) - 1) if t.get("u") else (-(1 << (w - 1)), (1 << (w - 1)) - 1)


def convert(s, v, src, dst):
    """an integer conversion: the identity when every possible value fits"""
    if dst.get("k") != "int" or src.get("k") not in ("int", "bool", "enum"): return v
    if v[0] == "top" or isbool(v): return v
    d = trange(dst)
    c = s.con(v)
    if c[0] >= d[0] and c[1] <= d[1]: return v
    if src["k"] in ("int", "bool"):
        r = trange(src)
        if max(c[0], r[0]) >= d[0] and min(c[1], r[1]) <= d[1]: return v
    elif dst.get("w", 64) >= 32: return v
    return ("app", "cast", v, ("str", ("u" if dst.get("u") else "i") + str(dst.get("w", 64))))


def isbool(t):
    return t[0] == "app" and t[1] in ("!", "==", "<", "has", "truth")


@lru_cache(200000)
def depth(t):
    if not isinstance(t, tuple): return 0
    m = 0
    for x in t:
        if isinstance(x, tuple):
            d = depth(x)
            if d > m: m = d
    return m + 1


def nonnull_by_shape(t):
    return t[0] in ("addr", "str", "cstr", "fn", "lambda")


@lru_cache(400000)
def subterms(t):
    out = {t}
    for x in t:
        if isinstance(x, tuple): out |= subterms(x)
    return frozenset(out)


def contains(t, sub):
    return isinstance(t, tuple) and sub in subterms(t)


NONE = frozenset()


@lru_cache(400000)
def locals_in(t):
    """the locals and temporaries of any frame a term mentions"""
    out = None
    if len(t) >= 2 and t[0] in ("v", "t") and isinstance(t[1], tuple): out = {t}
    for x in t:
        if isinstance(x, tuple):
            r = locals_in(x)
            if r: out = set(r) if out is None else out | r
    return frozenset(out) if out else NONE


def prefix_of(p, loc):
    """is loc p or inside p?"""
    while True:
        if loc == p: return True
        if loc[0] in ("f", "ix"): loc = loc[1]
        else: return False


def root(loc):
    while loc[0] in ("f", "ix"): loc = loc[1]
    return loc


def show(t):
    """readable term / location"""
    if not isinstance(t, tuple) or not t: return str(t)
    k = t[0]
    if k == "int": return str(t[1])
    if k == "str": return '"%s"' % t[1]
    if k == "p": return t[1].split("#")[0]
    if k == "v": return t[2].split("#")[0]
    if k == "g": return t[1].split("@")[-1]
    if k == "d": return "*" + show(t[1])
    if k == "f": return (show(t[1][1]) + "->" + t[2]) if t[1][0] == "d" else show(t[1]) + "." + t[2]
    if k == "ix": return show(t[1]) + "[" + show(t[2]) + "]"
    if k == "init": return show(t[1])
    if k == "addr": return "&" + show(t[1])
    if k == "call": return "result of " + t[2]
    if k == "app": return t[1] + "(" + ", ".join(show(x) for x in t[2:]) + ")"
    if k in ("strof", "cstr", "some", "ref", "L", "obj"): return show(t[1])
    if k == "h": return "new@%s" % (t[1][1],)
    return k


def scaled(t):
    """t = base*k + off"""
    off = 0
    if t[0] == "app" and t[1] in ("+", "-") and len(t) == 4 and t[3][0] == "int":
        off = t[3][1] if t[1] == "+" else -t[3][1]
        t = t[2]
    if t[0] == "app" and t[1] == "*" and len(t) == 4:
        if t[3][0] == "int": return t[2], t[3][1], off
        if t[2][0] == "int": return t[3], t[2][1], off
    if t[0] == "app" and t[1] == "<<" and len(t) == 4 and t[3][0] == "int" and 0 <= t[3][1] < 32: return t[2], 1 << t[3][1], off
    return None


class State:
    __slots__ = ("mem", "facts", "ev", "ts", "lk", "trace")

    def __init__(self, mem=None, facts=None, ev=None, ts=None, lk=None, trace=()):
        self.mem = mem if mem is not None else {}
        self.facts = facts if facts is not None else {}
        self.ev = ev if ev is not None else {}
        self.ts = ts if ts is not None else {}
        self.lk = lk if lk is not None else {}
        self.trace = trace

    def copy(self):
        return State(dict(self.mem), dict(self.facts), dict(self.ev), dict(self.ts), dict(self.lk), self.trace)

    def key(self):
        return hash((frozenset(self.mem.items()), frozenset(self.facts.items()), frozenset(self.ev.items()),
                     frozenset(self.ts.items()), frozenset(self.lk.items())))

    # ---- facts
    def con(self, t):
        k = t[0]
        if k == "int": return (t[1], t[1], frozenset())
        if nonnull_by_shape(t): return (NEG, POS, frozenset([0]))
        c = self.facts.get(t)
        if c is not None: return c
        if k == "app" and isbool(t): return (0, 1, frozenset())
        if k == "app" and t[1] == "size": return (0, (1 << 62), frozenset())
        if k == "app" and t[1] == "cast":
            w = int(t[3][1][1:])
            return (0, (1 << w) - 1, frozenset()) if t[3][1][0] == "u" else (-(1 << (w - 1)), (1 << (w - 1)) - 1, frozenset())
        if k == "app" and t[1] == "+" and t[3][0] == "int":
            lo, hi, _ = self.con(t[2])
            if lo != NEG or hi != POS: return (lo + t[3][1], hi + t[3][1], frozenset())
        if k == "app" and len(t) == 4 and t[3][0] == "int" and t[3][1] > 0 and t[1] in ("/", "*", "%", ">>", "<<"):
            lo, hi, _ = self.con(t[2])
            n = t[3][1]
            if t[1] == "*": return (lo * n, hi * n, frozenset())
            if t[1] == "<<" and n < 64: return (lo * (1 << n), hi * (1 << n), frozenset())
            if lo >= 0:
                if t[1] == ">>" and n < 64: n = 1 << n
                if t[1] in ("/", ">>"): return (lo // n, hi // n if hi != POS else POS, frozenset())
                if t[1] == "%": return (lo, hi, frozenset()) if hi < n else (0, n - 1, frozenset())
        return FULL

    def setcon(self, t, c):
        lo, hi, ne = c
        while lo in ne: lo += 1
        while hi in ne: hi -= 1
        if lo > hi: return False
        if lo == hi: ne = frozenset()
        self.facts[t] = (lo, hi, ne)
        return True

    def truth(self, t):
        """1 / 0 / None"""
        k = t[0]
        if k == "int": return int(t[1] != 0)
        if nonnull_by_shape(t): return 1
        if k == "app":
            op = t[1]
            if op == "!":
                r = self.truth(t[2])
                return None if r is None else 1 - r
            if op == "truth": return self.truth(t[2])
            if op == "has":
                v = t[2]
                if v[0] == "some": return 1
                if v[0] == "none": return 0
            if op == "==":
                a, b = self.con(t[2]), self.con(t[3])
                if a[0] > b[1] or b[0] > a[1]: return 0
                if a[0] == a[1] and a[0] in b[2]: return 0
                if b[0] == b[1] and b[0] in a[2]: return 0
                if a[0] == a[1] == b[0] == b[1] and a[0] not in (NEG, POS): return 1
                if t[2][0] == "addr" and t[3][0] == "addr" and root(t[2][1]) != root(t[3][1]) and {root(t[2][1])[0], root(t[3][1])[0]} <= {"h", "v", "g"}: return 0
            if op == "<":
                a, b = self.con(t[2]), self.con(t[3])
                if a[1] < b[0]: return 1
                if a[0] >= b[1]: return 0
                # x < z/c implies x*c + b < z for 0 <= b < c
                m = scaled(t[2])
                if m:
                    base, k, off = m
                    if k > 1 and 0 <= off < k and self.facts.get(("app", "<", base, ("app", "/", t[3], ("int", k)))) == (1, 1, frozenset()): return 1
                # x*c + b < z implies x*c + b' < z for b' <= b
                    for b2 in range(max(off, 0) + 1, k):
                        if k > 1 and self.facts.get(("app", "<", app("+", app("*", base, ("int", k)), ("int", b2)), t[3])) == (1, 1, frozenset()): return 1
                # conversion of a non-negative value never increases it
                if b[0] >= 0:
                    for w in ("i32", "u32", "i16", "u16", "i8", "u8"):
                        if self.facts.get(("app", "<", t[2], ("app", "cast", t[3], ("str", w)))) == (1, 1, frozenset()): return 1
                # a < b is implied false by b < a, or b < a+1
                if self.facts.get(("app", "<", t[3], t[2])) == (1, 1, frozenset()): return 0
        c = self.con(t)
        if c[0] == c[1] == 0: return 0
        if c[0] > 0 or c[1] < 0 or 0 in c[2]: return 1
        return None

    def assume(self, t, val):
        """refine in place; False when infeasible"""
        r = self.truth(t)
        if r is not None: return r == int(val)
        if t[0] == "app":
            op = t[1]
            if op == "!": return self.assume(t[2], not val)
            if op == "truth": return self.assume(t[2], val)
            if op == "==" and t[3][0] == "int":
                n = t[3][1]
                lo, hi, ne = self.con(t[2])
                if val:
                    if not (lo <= n <= hi) or n in ne: return False
                    return self.setcon(t[2], (n, n, frozenset()))
                return self.setcon(t[2], (lo, hi, ne | {n}))
            if op == "<":
                a, b = t[2], t[3]
                ca, cb = self.con(a), self.con(b)
                if val:
                    if cb[1] != POS and a[0] != "int" and not self.setcon(a, (ca[0], min(ca[1], cb[1] - 1), ca[2])): return False
                    if ca[0] != NEG and b[0] != "int" and not self.setcon(b, (max(cb[0], ca[0] + 1), cb[1], cb[2])): return False
                else:
                    if cb[0] != NEG and a[0] != "int" and not self.setcon(a, (max(ca[0], cb[0]), ca[1], ca[2])): return False
                    if ca[1] != POS and b[0] != "int" and not self.setcon(b, (cb[0], min(cb[1], ca[1]), cb[2])): return False
                if a[0] != "int" or b[0] != "int":
                    self.facts[t] = (1, 1, frozenset()) if val else (0, 0, frozenset())
                return True
        lo, hi, ne = self.con(t)
        if val: return self.setcon(t, (lo, hi, ne | {0}))
        if not (lo <= 0 <= hi) or 0 in ne: return False
        return self.setcon(t, (0, 0, frozenset()))

    # ---- memory
    def write(self, loc, val):
        self.clear(loc)
        if loc[0] == "ix" and loc[2][0] != "int":
            base = loc[1]
            for k in [k for k in self.mem if k[0] == "ix" and k[1] == base]: del self.mem[k]
        self.mem[loc] = val

    def clear(self, loc):
        ks = [k for k in self.mem if k[0] in ("f", "ix", "v", "g", "d", "h", "t") and prefix_of(loc, k)]
        for k in ks: del self.mem[k]

    def havoc(self, loc, tag):
        self.clear(loc)
        self.mem[loc] = ("top", tag)


class Outcome:
    __slots__ = ("kind", "st", "val", "extra")

    def __init__(self, kind, st, val=None, extra=None):
        self.kind, self.st, self.val, self.extra = kind, st, val, extra


class FnInfo:
    """per-function precomputation"""

    def __init__(self, f):
        self.f = f
        self.ex = {int(k): v for k, v in f["exprs"].items()}
        self.blocks = {b["id"]: b for b in f.get("blocks", ())}
        self.trys = f.get("trys", [])
        self.parent = {}
        for i, x in self.ex.items():
            for o in x.get("ops", ()):
                self.parent.setdefault(o, i)
        where = {}
        self.varinit = {}
        for b in self.blocks.values():
            for e in b["el"]:
                if e["k"] == "E": where[e["id"]] = b["id"]
                if e["k"] == "D":
                    for v in e["vars"]:
                        if "init" in v: self.varinit[v["init"]] = v["v"]
                if e["k"] == "I": self.varinit.setdefault(e["id"], None)
        # the blocks where an expression value is used
        self.cross = set()
        for i, x in self.ex.items():
            for o in x.get("ops", ()):
                if o in where and where.get(i, where[o]) != where[o]: self.cross.add(o)
        for b in self.blocks.values():
            for e in b["el"]:
                ids = []
                if e["k"] == "D": ids = [v["init"] for v in e["vars"] if "init" in v]
                elif e["k"] in ("R", "I") and "id" in e: ids = [e["id"]]
                for o in ids:
                    if o in where and where[o] != b["id"]: self.cross.add(o)
            if "cond" in b and where.get(b["cond"], b["id"]) != b["id"]: self.cross.add(b["cond"])
        self.backedges = set()
        self.heads = set()
        self._dfs()

    def _dfs(self):
        if "entry" not in self.f: return
        color = {}
        stack = [(self.f["entry"], iter(self._succ(self.f["entry"])))]
        color[self.f["entry"]] = 1
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in color:
                    color[s] = 1
                    stack.append((s, iter(self._succ(s))))
                    break
                if color[s] == 1:
                    self.backedges.add((n, s))
                    self.heads.add(s)
            else:
                color[n] = 2
                stack.pop()
        # handlers are extra roots
        for t in self.trys:
            for h in t["h"]:
                b = h["block"]
                if b in self.blocks and b not in color:
                    stack = [(b, iter(self._succ(b)))]
                    color[b] = 1
                    while stack:
                        n, it = stack[-1]
                        for s in it:
                            if s not in color:
                                color[s] = 1
                                stack.append((s, iter(self._succ(s))))
                                break
                            if color[s] == 1:
                                self.backedges.add((n, s))
                                self.heads.add(s)
                        else:
                            color[n] = 2
                            stack.pop()

    def _succ(self, b):
        return [s for s in self.blocks[b]["succ"] if s >= 0]


class Hooks:
    """what a rule can observe; every method may modify the state's typestate"""
    def deref(self, I, st, term, x, fr): pass
    def call(self, I, st, qn, args, x, fr): pass          # before any callee handling
    def constructed(self, I, st, qn, args, x, fr): pass
    def result(self, I, st, qn, val, x, fr): pass         # after an opaque call
    def write(self, I, st, loc, val, x, fr): pass
    def alloc(self, I, st, val, x, fr): pass
    def delete(self, I, st, val, x, fr): pass
    def index(self, I, st, cont, idx, x, fr, how): pass
    def dtor(self, I, st, loc, decl, fr, el): pass
    def ret(self, I, st, val, el, fr): pass
    def throw(self, I, st, x, fr): pass
    def caught(self, I, st, et, fr): pass                 # an exception of that type enters a handler
    def branch(self, I, st, term, val, fr): pass
    edge = None                                            # (I, st, from, to, fr) when the analysis moves on to another block


class Frame:
    __slots__ = ("id", "fi", "parent", "site", "intry", "depth")

    def __init__(self, id, fi, parent, site, intry):
        self.id, self.fi, self.parent, self.site, self.intry = id, fi, parent, site, intry
        self.depth = parent.depth + 1 if parent else 0

    def chain(self):
        f, out = self, []
        while f:
            out.append(f.fi.f["qn"])
            f = f.parent
        return out


SMART = ("std::unique_ptr", "std::shared_ptr")
STRINGS = ("std::basic_string", "std::__cxx11::basic_string", "boost::basic_string_ref")


def base(l):
    while l[0] in ("f", "ix"): l = l[1]
    return l


def contains_frame(t, fid):
    """a local of the frame occurs in the term"""
    if not isinstance(t, tuple): return False
    for r in locals_in(t):
        if r[1] == fid and r[0] == "v": return True
    return False


def joinfacts(a, b):
    r = {}
    for t, c in a.items():
        d = b.get(t)
        if d is None: continue
        if d == c: r[t] = c
        else:
            n = (min(c[0], d[0]), max(c[1], d[1]), c[2] & d[2])
            # an exclusion also holds where the other interval never contained the value
            ne = {x for x in c[2] | d[2] if (x in c[2] or not c[0] <= x <= c[1]) and (x in d[2] or not d[0] <= x <= d[1])}
            if n[0] != NEG or n[1] != POS or ne: r[t] = (n[0], n[1], frozenset(ne))
    return r


class Interp:
    def __init__(self, P, hooks=None, max_depth=7, limit=6000, opaque=(), budget=400000, inline_filter=None, soft=150, effects=None):
        self.P = P
        self.E = effects            # whole-program effect summaries: opaque callees forget only what they may write
        self.soft = soft
        self.H = hooks or Hooks()
        self.max_depth = max_depth
        self.limit = limit
        self.opaque = set(opaque)
        self.inline_filter = inline_filter
        self.budget = budget
        self.steps = 0
        self.fis = {}
        self.models = {}
        self.stats = {"functions": set(), "calls": 0, "blocks": 0, "merged": 0}
        self.widened = 0
        self.use_exc = True
        self.joinkey = None         # function of a state: states with equal keys are joined where paths meet
        self.indirect = None        # the function behind the last resolved call through a pointer
        self.invokers = {}          # what a captureless lambda converted to a function pointer calls
        self.own_params = False     # smart pointers passed by value are destroyed when the callee returns
        self.esp = False            # merge states that differ only in facts about values nothing holds any more
        install_models(self)

    def fi(self, f):
        k = f["usr"]
        if k not in self.fis: self.fis[k] = FnInfo(f)
        return self.fis[k]

    # ------------------------------------------------------------ entry
    def analyze(self, f, setup=None, args=None, tag=None):
        """run a function as an entry point; returns outcomes (tag keeps allocations of different runs apart)"""
        st = State()
        fr = Frame((f["usr"],) if tag is None else ((f["usr"], tag),), self.fi(f), None, None, False)
        if "cls" in f and not f.get("st"):
            st.mem[("v", fr.id, "this")] = ("p", "this")
            st.facts[("p", "this")] = (NEG, POS, frozenset([0]))
        for i, p in enumerate(f["params"]):
            t = self.P.type(p["t"])
            loc = ("v", fr.id, p["v"])
            if args and i in args: st.mem[loc] = args[i]
            elif t["k"] == "ref": st.mem[loc] = ("ref", ("d", ("p", p["v"])))
            else:
                sym = ("p", p["v"])
                st.mem[loc] = sym
                if t["k"] == "int" and t.get("u"): st.facts[sym] = (0, POS, frozenset())
                if t["k"] == "bool": st.facts[sym] = (0, 1, frozenset())
        if setup: setup(self, st, fr)
        return self.run(fr, st)

    # ------------------------------------------------------------ fixpoint
    def run(self, fr, st):
        fi = fr.fi
        f = fi.f
        self.stats["functions"].add(f["usr"])
        outs, outkeys = [], set()

        def emit(o):
            k = (o.kind, o.st.key(), o.val, o.extra)
            if k not in outkeys:
                outkeys.add(k)
                outs.append(o)

        if not fi.blocks:
            return [Outcome("ret", st, ("top", "nobody"))]
        seen = {}
        counts = {}
        loopst = {}
        joinst = {}
        espst = {}
        work = [(f["entry"], st, None)]
        while work:
            bid, st, pred = work.pop()
            self.steps += 1
            if self.steps > self.budget:
                raise BudgetExceeded("analysis budget exceeded in %s" % f["qn"])
            if bid in fi.heads and not self.joinkey:
                st = self._loop(fr, fi, bid, st, pred, loopst)
                if st is None: continue
            elif self.joinkey:
                jk = (bid, self.joinkey(st))
                j = joinst.get(jk)
                if j is not None:
                    st = self._widen(fr, (bid, "join"), j, st)
                    if st.key() == j.key(): continue
                    self.stats["merged"] += 1
                joinst[jk] = st
                st = st.copy()
            elif self.esp:
                ek = (bid,) + self._espkey(st, None)
                old = espst.get(ek)
                if old is not None:
                    j = joinfacts(old, st.facts)
                    if j == old: continue
                    st = st.copy()
                    st.facts = j
                    self.stats["merged"] += 1
                espst[ek] = st.facts
            k = st.key()
            s = seen.setdefault(bid, set())
            if k in s: continue
            s.add(k)
            counts[bid] = counts.get(bid, 0) + 1
            if counts[bid] > self.soft:
                # too many states here: join those with the same typestate (over-approximates)
                jk = (bid, tuple(sorted(st.ts.items(), key=repr)))
                j = joinst.get(jk)
                if j is not None:
                    self.stats["merged"] += 1
                    st = self._widen(fr, (bid, "join"), j, st)
                    if st.key() == j.key(): continue
                joinst[jk] = st
                st = st.copy()
            if counts[bid] > self.limit:
                raise BudgetExceeded("state limit in %s block %d" % (f["qn"], bid))
            self.stats["blocks"] += 1
            if bid == f["exit"]:
                # fell off the end
                self.H.ret(self, st, None, None, fr)
                emit(Outcome("ret", self._leave(fr, st), None))
                continue
            for o in self._block(fr, fi, bid, st):
                if o.kind == "goto":
                    if self.H.edge is not None: self.H.edge(self, o.st, bid, o.val, fr)
                    work.append((o.val, o.st, bid))
                elif o.kind == "exc":
                    tgt = self._handler(fr, fi, o.extra, o.val)
                    if tgt is None: emit(Outcome("exc", self._leave(fr, o.st), o.val, None))
                    else:
                        for h in tgt:
                            n = o.st.copy()
                            if h >= 0: self.H.caught(self, n, o.val, fr)
                            if h >= 0: work.append((h, n, None))
                            else: emit(Outcome("exc", self._leave(fr, n), o.val, None))
                else:
                    o.st = self._leave(fr, o.st)
                    emit(o)
        if self.esp and len(outs) > 1:
            by = {}
            for o in outs:
                if fr.parent is not None: self._droplocals(fr, o)
                k = (o.kind, o.val, o.extra) + self._espkey(o.st, o.val)
                p = by.get(k)
                if p is None: by[k] = o
                else:
                    p.st.facts = joinfacts(p.st.facts, o.st.facts)
                    self.stats["merged"] += 1
            outs = list(by.values())
        return outs

    def _espkey(self, st, val):
        vals = set(st.mem.values())
        for k in st.ts:
            if len(k) > 1: vals.add(k[1])
        vals.add(val)
        return (frozenset(st.mem.items()), frozenset(st.ts.items()), frozenset(st.ev.items()), frozenset(st.lk.items()), frozenset((t, c) for t, c in st.facts.items() if t in vals))

    def _droplocals(self, fr, o):
        """locals of a finished call, unless something still refers to them"""
        fid = fr.id
        mine = [l for l in o.st.mem if base(l)[0] == "v" and base(l)[1] == fid]
        if not mine: return
        if o.val is not None and contains_frame(o.val, fid): return
        for l, v in o.st.mem.items():
            if not (base(l)[0] == "v" and base(l)[1] == fid) and contains_frame(v, fid): return
        for l in mine: del o.st.mem[l]

    def _leave(self, fr, st):
        if fr.parent is None: return st
        # drop the frame's expression values, loop marks and locals that nothing can reference
        fid = fr.id
        st.ev = {k: v for k, v in st.ev.items() if k[0] != fid}
        st.lk = {k: v for k, v in st.lk.items() if k[0] != fid}
        return st

    def _loop(self, fr, fi, bid, st, pred, loopst):
        lkk = (fr.id, bid)
        if pred is None or (pred, bid) not in fi.backedges:
            if lkk in st.lk: st = st.copy(); st.lk.pop(lkk)
            k = st.key()
            st = st.copy()
            st.lk[lkk] = k
            return st
        # arrived over a back edge
        k = st.lk.get(lkk)
        ts = tuple(sorted(st.ts.items(), key=repr))
        w = loopst.get((bid, k, ts))
        if w is None:
            loopst[(bid, k, ts)] = (st, 1)
            return st
        old, n = w
        self.widened += 1
        new = self._widen(fr, bid, old, st)
        if new.key() == old.key(): return None if n > 1 else None
        loopst[(bid, k, ts)] = (new, n + 1)
        return new

    def _widen(self, fr, bid, old, new):
        r = State(ts=dict(new.ts), lk=dict(new.lk), trace=new.trace)
        changed = []
        for l, v in new.mem.items():
            o = old.mem.get(l)
            if o == v: r.mem[l] = v
            else:
                r.mem[l] = ("loop", (fr.id, bid), l)
        for l in old.mem:
            if l not in new.mem and l[0] != "cap": r.mem[l] = ("loop", (fr.id, bid), l)
        for t, c in new.facts.items():
            o = old.facts.get(t)
            if o is None: continue
            if o == c: r.facts[t] = c
            else:
                lo = o[0] if o[0] <= c[0] else NEG
                hi = o[1] if o[1] >= c[1] else POS
                if lo == NEG and c[0] >= 0 and o[0] >= 0: lo = 0
                ne = o[2] & c[2]
                if lo != NEG or hi != POS or ne: r.facts[t] = (lo, hi, ne)
        r.ev = {k: v for k, v in new.ev.items() if old.ev.get(k) == v}
        # constraints known for a widened value: join of both values' constraints
        for l, v in list(r.mem.items()):
            if v[0] == "loop" and v[2] == l and l in new.mem and l in old.mem:
                a, b = old.con(old.mem[l]), new.con(new.mem[l])
                lo = min(a[0], b[0]); hi = max(a[1], b[1])
                if old.mem[l] != v:
                    if lo != a[0]: lo = 0 if lo >= 0 else NEG
                    if hi != a[1]: hi = POS
                ne = a[2] & b[2]
                if lo > 0 or hi < 0: ne = ne | {0}
                if a[0] > 0 and 0 in b[2]: ne = ne | {0}
                prev = r.facts.get(v)
                if prev: lo, hi, ne = min(lo, prev[0]), max(hi, prev[1]), ne & prev[2]
                if lo != NEG or hi != POS or ne: r.facts[v] = (lo, hi, ne)
                else: r.facts.pop(v, None)
        return r

    def _handler(self, fr, fi, tryidx, exc):
        """list of handler blocks (or -1 for 'also propagates'); None when uncaught"""
        res = []
        while tryidx is not None and tryidx >= 0:
            t = fi.trys[tryidx]
            for h in t["h"]:
                if h.get("all"):
                    res.append(h["block"])
                    return res
                ht = self.P.type(h["t"])["s"]
                m = self._exc_match(ht, exc)
                if m == "yes":
                    res.append(h["block"])
                    return res
                if m == "maybe": res.append(h["block"])
            tryidx = t["parent"]
        if not res: return None
        return res + [-1]

    def _exc_match(self, ht, exc):
        if exc is None: return "maybe"          # unknown exception
        if exc == ht: return "yes"
        seen, todo = set(), [exc]
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x)
            if x == ht: return "yes"
            r = self.P.records.get(x)
            if r: todo += r["bases"]
        return "no"

    # ------------------------------------------------------------ blocks
    def _block(self, fr, fi, bid, st):
        b = fi.blocks[bid]
        outs = []
        states = [st.copy()]
        if "catchv" in b:
            for s in states: s.mem[("v", fr.id, b["catchv"])] = ("ref", ("t", fr.id, b["catchv"]))
        for e in b["el"]:
            nxt = []
            for s in states:
                k = e["k"]
                if k == "E":
                    for o in self._elem(fr, fi, e["id"], s):
                        if o.kind == "val": nxt.append(o.st)
                        else: outs.append(o)
                elif k == "D":
                    for v in e["vars"]: self._decl(fr, fi, v, s)
                    nxt.append(s)
                elif k == "R":
                    val = None
                    if "id" in e:
                        val = self.val(fr, fi, e["id"], s)
                    self.H.ret(self, s, val, e, fr)
                    s.ts[("$ret", fr.id)] = None if val is None else val
                    nxt.append(s)
                elif k == "I":
                    for o in self._init(fr, fi, e, s):
                        if o.kind == "val": nxt.append(o.st)
                        else: outs.append(o)
                elif k == "X":
                    for o in self._autodtor(fr, fi, e, s):
                        if o.kind == "val": nxt.append(o.st)
                        else: outs.append(o)
                elif k == "XM":
                    for o in self._memberdtor(fr, fi, e, s):
                        if o.kind == "val": nxt.append(o.st)
                        else: outs.append(o)
                else: nxt.append(s)
            states = nxt
            if len(states) > 1: states = self._dedupe(states)
        if b.get("nr"):
            return outs
        for s in states:
            if ("$ret", fr.id) in s.ts:
                v = s.ts.pop(("$ret", fr.id))
                outs.append(Outcome("ret", s, v))
                continue
            outs.extend(self._term(fr, fi, b, s))
        return outs

    def _dedupe(self, states):
        d = {}
        for s in states: d.setdefault(s.key(), s)
        return list(d.values())

    def _prune(self, fr, fi, s):
        fid = fr.id
        cross = fi.cross
        s.ev = {k: v for k, v in s.ev.items() if k[0] != fid or k[1] in cross or isinstance(k[1], tuple)}
        return s

    def _term(self, fr, fi, b, s):
        succ = b["succ"]
        live = [x for x in succ if x >= 0]
        if not live: return []
        if b.get("tryT"): return []
        if len(succ) == 1 or "cond" not in b:
            if "cond" not in b and len(succ) > 1 and b.get("tk") not in (None, "CXXForRangeStmt", "ForStmt", "WhileStmt"):
                pass
            return [Outcome("goto", self._prune(fr, fi, s.copy()), x) for x in live] if len(live) > 1 else [Outcome("goto", self._prune(fr, fi, s), live[0])]
        if b.get("tk") == "SwitchStmt":
            v = self.val(fr, fi, b["cond"], s)
            res = []
            rest = s.copy()
            ok = True
            dflt = None
            handled = []
            for x in succ:
                if x < 0: continue
                tb = fi.blocks[x]
                if "case" in tb and tb["case"]:
                    n = int(tb["case"][0])
                    hi = int(tb["casehi"]) if "casehi" in tb else n
                    for c in range(n, min(hi, n + 300) + 1):
                        n1 = s.copy()
                        if n1.assume(app("==", v, ("int", c)), True):
                            self.H.branch(self, n1, app("==", v, ("int", c)), True, fr)
                            res.append(Outcome("goto", self._prune(fr, fi, n1), x))
                        if ok: ok = rest.assume(app("==", v, ("int", c)), False)
                else: dflt = x
            if dflt is not None and ok: res.append(Outcome("goto", self._prune(fr, fi, rest), dflt))
            return res
        v = self.val(fr, fi, b["cond"], s)
        res = []
        tid = b.get("tid")
        top = b.get("top")
        for truth, x in ((True, succ[0]), (False, succ[1])):
            if x < 0: continue
            n = s.copy()
            if not n.assume(v, truth): continue
            self.H.branch(self, n, v, truth, fr)
            self._prune(fr, fi, n)
            if tid is not None:
                if b["tk"] == "BinaryOperator":
                    if (top == "&&" and not truth) or (top == "||" and truth):
                        n.ev[(fr.id, ("m", tid))] = ("int", int(truth))
                else:
                    n.ev[(fr.id, ("m", tid))] = ("int", int(truth))
            res.append(Outcome("goto", n, x))
        return res

    # ------------------------------------------------------------ elements
    def _decl(self, fr, fi, v, s):
        loc = ("g", v["v"][2:]) if v["v"].startswith("G:") else ("v", fr.id, v["v"])
        t = self.P.type(v["t"])
        if "init" in v:
            i = v["init"]
            if t["k"] == "ref":
                val = self.ev(fr, fi, i, s)
                s.mem[loc] = ("ref", self.as_loc(fr, i, val, s))
                return
            if loc[0] == "g" and v.get("static"):
                # a local static: initialised once; its value on entry is unknown unless const
                return
            val = self.ev(fr, fi, i, s)
            if val[0] == "obj" and val[1] == loc: return   # constructed in place
            self.store(s, loc, val)
        else:
            s.clear(loc)
            s.mem.pop(loc, None)

    def _init(self, fr, fi, e, s):
        this = s.mem.get(("v", fr.id, "this"), ("p", "this"))
        base = self.deref_loc(this)
        if "f" in e:
            loc = ("f", base, e["f"])
            x = fi.ex[e["id"]]
            val = self.ev(fr, fi, e["id"], s)
            # reference field?
            rec = self.P.records.get(fi.f.get("cls"), {})
            ft = None
            for fd in rec.get("fields", ()):
                if fd["n"] == e["f"]: ft = self.P.type(fd["t"])
            if ft and ft["k"] == "ref":
                s.mem[loc] = ("ref", self.as_loc(fr, e["id"], val, s))
            else:
                if val[0] == "L": val = self.read(s, val[1])
                if not (val[0] == "obj" and val[1] == loc): self.store(s, loc, val)
            self.H.write(self, s, loc, val, x, fr)
            return [Outcome("val", s)]
        # base or delegating constructors are run as calls when their CXXConstructExpr is evaluated
        if fi.ex[e["id"]]["k"] not in ("CXXConstructExpr", "CXXTemporaryObjectExpr"): self.ev(fr, fi, e["id"], s)
        return [Outcome("val", s)]

    def _autodtor(self, fr, fi, e, s):
        loc = ("v", fr.id, e["v"])
        d = self.P.decls.get(e.get("fn"), {})
        self.H.dtor(self, s, loc, d, fr, e)
        return self._destroy(fr, fi, s, loc, d, e.get("fn"))

    def _destroy(self, fr, fi, s, loc, d, usr, line=0):
        cls = notmpl(d.get("cls", ""))
        if cls in SMART:
            v = self.read(s, loc)
            if v != INT0 and s.truth(v) != 0:
                self.H.delete(self, s, v, {"l": line, "k": "dtor", "smart": d.get("clst", ""), "at": loc}, fr)
            if self.own_params: s.write(loc, INT0)
            return [Outcome("val", s)]
        f = self.P.funcs.get(usr)
        if f and not d.get("sys") and self.can_inline(fr, f):
            return self._call_fn(fr, None, f, ("addr", loc), [], s, -1, "X%s" % (loc[-1],))
        return [Outcome("val", s)]

    def _memberdtor(self, fr, fi, e, s):
        this = s.mem.get(("v", fr.id, "this"), ("p", "this"))
        loc = ("f", self.deref_loc(this), e["f"])
        d = self.P.decls.get(e.get("fn"), {})
        self.H.dtor(self, s, loc, d, fr, e)
        return self._destroy(fr, fi, s, loc, d, e.get("fn"), fi.f["end"])

    # values ------------------------------------------------------
    def store(self, s, loc, val):
        if val[0] == "obj":
            src = val[1]
            if src == loc: return
            self.copy_obj(s, loc, src)
            return
        if val[0] == "L": val = self.read(s, val[1])
        s.write(loc, val)

    def copy_obj(self, s, dst, src):
        s.clear(dst)
        items = [(k, v) for k, v in s.mem.items() if k[0] in ("f", "ix", "v", "g", "d", "h", "t") and prefix_of(src, k)]
        for k, v in items:
            s.mem[rebase(k, src, dst)] = v
        if src not in s.mem: s.mem[dst] = ("copyof", src)

    def read(self, s, loc):
        v = s.mem.get(loc)
        if v is not None and v[0] not in ("copyof",):
            if v[0] == "ref": return ("addr", v[1])
            return v
        if loc[0] == "f" and loc[2] == "$val":
            o = self.read(s, loc[1])
            if o[0] == "some": return o[1]
            return ("app", "val", o)
        # enclosing whole-object value
        p, path = loc, []
        while p[0] in ("f", "ix"):
            path.append(p)
            p = p[1]
            v = s.mem.get(p)
            if v is not None:
                if v[0] == "copyof":
                    return self.read(s, rebase(loc, p, v[1]))
                if v[0] in ("ref",): break
                t = v
                for q in reversed(path):
                    if t[0] == "app" and t[1] == "ctor:std::pair" and len(t) == 4 and q[0] == "f" and q[2] in ("first", "second"):
                        t = t[2 if q[2] == "first" else 3]
                        continue
                    if t[0] == "some" and q[0] == "f" and q[2] == "$val":
                        t = t[1]
                        continue
                    if t[0] == "init":
                        t = ("init", (q[0], t[1], q[2]))
                        continue
                    t = ("app", "fld", t, ("str", q[2]) if q[0] == "f" else q[2])
                return t if depth(t) < 14 else ("top", "deep")
        if loc in s.mem and s.mem[loc][0] == "copyof": return ("obj", loc)
        r = root(loc)
        if r[0] == "g":
            c = self.const_global(loc)
            if c is not None: return c
        if r[0] == "d" and r[1][0] == "str": return ("app", "char", r[1])
        return ("init", loc)

    def const_global(self, loc):
        if loc[0] != "g": return None
        v = self.P.vars.get(loc[1])
        if not v or "init" not in v: return None
        t = self.P.type(v["t"])
        if not (v.get("const") or t.get("c")): return None
        return self.tree_const(v["init"])

    def tree_const(self, n):
        if n is None: return None
        if "cv" in n: return ("int", int(n["cv"]))
        if "sv" in n: return ("str", n["sv"])
        if n["k"] in ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "InitListExpr") and len(n.get("ops", ())) == 1:
            return self.tree_const(n["ops"][0])
        if n["k"] == "CXXNullPtrLiteralExpr": return INT0
        if n["k"] == "DeclRefExpr" and n.get("v", "").startswith("G:"):
            return self.const_global(("g", n["v"][2:]))
        return None

    def deref_loc(self, t):
        if t[0] == "addr": return t[1]
        if t[0] == "app" and t[1] in ("+", "-") and len(t) == 4:
            base = self.deref_loc(t[2])
            off = t[3] if t[1] == "+" else app("-", t[3])
            if base[0] == "ix": return mkix(base[1], app("+", base[2], off))
            return mkix(base, off)
        return ("d", t)

    def as_loc(self, fr, i, val, s):
        if val[0] == "L": return val[1]
        if val[0] == "obj": return val[1]
        loc = ("t", fr.id, i)
        s.mem[loc] = val
        return loc

    def val(self, fr, fi, i, s):
        """prvalue of an expression (reads a glvalue)"""
        v = self.ev(fr, fi, i, s)
        if v[0] == "L" :
            t = self.P.type(fi.ex[i]["t"])
            if fi.ex[i].get("lv"): return v
            return self.read(s, v[1])
        return v

    def rv(self, fr, fi, i, s):
        """value with glvalues read"""
        v = self.ev(fr, fi, i, s)
        if v[0] == "L": return self.read(s, v[1])
        return v

    def ev(self, fr, fi, i, s):
        k = (fr.id, i)
        v = s.ev.get(k)
        if v is not None: return v
        v = self._eval(fr, fi, i, s)
        return v

    def _elem(self, fr, fi, i, s):
        x = fi.ex[i]
        k = x["k"]
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            return self._call(fr, fi, i, x, s)
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            return self._construct(fr, fi, i, x, s)
        if k == "CXXInheritedCtorInitExpr":
            return [Outcome("val", s)]
        if k == "CXXThrowExpr":
            et = None
            if x.get("ops"):
                et = self.P.type(fi.ex[x["ops"][0]]["t"])["s"].replace("const ", "")
            else: et = "$rethrow"
            self.H.throw(self, s, x, fr)
            return [Outcome("exc", s, et, x.get("try"))]
        if k == "CXXDeleteExpr":
            v = self.rv(fr, fi, x["ops"][0], s)
            self.H.delete(self, s, v, x, fr)
            f = self.P.funcs.get(x.get("dfn"))
            s.ev[(fr.id, i)] = ("void",)
            if s.truth(v) == 0: return [Outcome("val", s)]
            if f and self.can_inline(fr, f):
                outs = self._call_fn(fr, fi, f, v, [], s, i, "del", tr=x.get("try"))
                if self.esp and v[0] == "addr":
                    for o in outs:
                        for l in [l for l in o.st.mem if base(l) == v[1]]: del o.st.mem[l]
                return outs
            return [Outcome("val", s)]
        if k == "BinaryOperator" and x["op"] in ("&&", "||"):
            m = s.ev.pop((fr.id, ("m", i)), None)
            if m is None: v = self._truthy(self.rv(fr, fi, x["ops"][1], s))
            else: v = m
            s.ev[(fr.id, i)] = v
            return [Outcome("val", s)]
        if k == "CXXNewExpr":
            return self._new(fr, fi, i, x, s)
        v = self._eval(fr, fi, i, s)
        s.ev[(fr.id, i)] = v
        return [Outcome("val", s)]

    def _truthy(self, v):
        if v[0] == "int": return ("int", int(v[1] != 0))
        if isbool(v): return v
        if nonnull_by_shape(v): return ("int", 1)
        return ("app", "!", ("app", "!", v))

    def fresh(self, s, sym):
        """a symbol is about to be (re)defined: forget what was known about it"""
        if any(contains(t, sym) for t in s.facts): s.facts = {t: c for t, c in s.facts.items() if not contains(t, sym)}
        for l in list(s.mem):
            if contains(s.mem[l], sym): s.mem[l] = ("top", ("old", l))
            elif contains(l, sym): del s.mem[l]

    def _new(self, fr, fi, i, x, s):
        at = self.P.type(x["at"])
        loc = ("h", (fr.id, i))
        ops = x.get("ops", [])
        constructed = False
        if x.get("ini") and ops:
            v = s.ev.get((fr.id, ops[0]))
            if v is not None and v[0] == "obj" and v[1] == loc: constructed = True
            elif v is not None and not x.get("array"):
                s.clear(loc)
                self.store(s, loc, v)
        v = ("addr", loc)
        s.ev[(fr.id, i)] = v
        outs = []
        if self._track_exc(fr, x) and at["k"] == "rec" and not self.E:
            outs.append(Outcome("exc", s.copy(), "std::bad_alloc", x.get("try")))
        self.H.alloc(self, s, v, x, fr)
        return [Outcome("val", s)] + outs

    def _track_exc(self, fr, x):
        return self.use_exc and (x.get("try") is not None or fr.intry)

    def _eval(self, fr, fi, i, s):
        x = fi.ex[i]
        k = x["k"]
        if k == "ImplicitCastExpr" or k.endswith("CastExpr"):
            return self._cast(fr, fi, i, x, s)
        if "cv" in x and not x.get("lv"):
            return ("int", int(x["cv"]))
        ops = x.get("ops", [])
        if k == "DeclRefExpr":
            if "fn" in x: return ("fn", x["fn"])
            if "v" in x:
                v = x["v"]
                if v.startswith("G:"):
                    loc = ("g", v[2:])
                else:
                    loc = ("v", fr.id, v)
                    if x.get("cap"):
                        c = s.mem.get(("cap", fr.id, v.split("#")[0]))
                        if c is not None and loc not in s.mem: return ("L", c[1])
                m = s.mem.get(loc)
                if m is not None and m[0] == "ref": return ("L", m[1])
                if loc[0] == "g":
                    vd = self.P.vars.get(loc[1])
                    if vd and self.P.type(vd["t"])["k"] == "ref": return ("L", ("d", ("init", loc)))
                return ("L", loc)
            return ("top", "decl")
        if k == "CXXThisExpr":
            c = s.mem.get(("cap", fr.id, "this"))
            if c is not None: return c[1]
            return s.mem.get(("v", fr.id, "this"), ("p", "this"))
        if k == "MemberExpr":
            if "fn" in x: return ("fn", x["fn"])
            if "v" in x: return ("L", ("g", x["v"][2:]))
            b = self.ev(fr, fi, ops[0], s)
            if x.get("arrow"):
                if b[0] == "L": b = self.read(s, b[1])
                self.H.deref(self, s, b, x, fr)
                base = self.deref_loc(b)
            else:
                base = self.as_loc(fr, ops[0], b, s)
            loc = ("f", base, x["f"])
            m = s.mem.get(loc)
            if m is not None and m[0] == "ref": return ("L", m[1])
            if m is None:
                rec = self.P.records.get(x["rec"])
                if rec:
                    for fd in rec["fields"]:
                        if fd["n"] == x["f"] and self.P.type(fd["t"])["k"] == "ref":
                            return ("L", ("d", ("init", loc)))
            return ("L", loc)
        if k == "CXXNullPtrLiteralExpr" or k == "GNUNullExpr": return INT0
        if k == "StringLiteral": return ("str", x.get("sv", ""))
        if k == "FloatingLiteral": return ("flt", x["fv"])
        if k == "UnaryOperator":
            op = x["op"]
            if op == "&":
                v = self.ev(fr, fi, ops[0], s)
                if v[0] == "L": return ("addr", v[1])
                return v
            if op == "*":
                v = self.rv(fr, fi, ops[0], s)
                self.H.deref(self, s, v, x, fr)
                return ("L", self.deref_loc(v))
            if op in ("++", "--"):
                l = self.ev(fr, fi, ops[0], s)
                if l[0] != "L": return ("top", "inc")
                old = self.read(s, l[1])
                new = app("+" if op == "++" else "-", old, ("int", 1))
                if self.P.type(x["t"])["k"] == "ptr" and old[0] == "addr": new = ("addr", self.deref_loc(new))
                self._assign(fr, s, l[1], new, x)
                return l if x.get("lv") else (old if x.get("post") else new)
            v = self.rv(fr, fi, ops[0], s)
            if op == "!": return app("!", v)
            if op in ("~", "-"): return app(op, v)
            return v
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            op = x["op"]
            if op == "=":
                v = self.rvalue_for_store(fr, fi, ops[1], s)
                l = self.ev(fr, fi, ops[0], s)
                if l[0] == "L": self._assign(fr, s, l[1], v, x)
                return l
            if op.endswith("=") and op not in CMP:
                v = self.rv(fr, fi, ops[1], s)
                l = self.ev(fr, fi, ops[0], s)
                if l[0] == "L":
                    self._assign(fr, s, l[1], self._arith(op[:-1], self.read(s, l[1]), v), x)
                return l
            if op == ",":
                self.ev(fr, fi, ops[0], s)
                return self.ev(fr, fi, ops[1], s)
            if op in ("&&", "||"):
                m = s.ev.pop((fr.id, ("m", i)), None)
                if m is not None: return m
                return self._truthy(self.rv(fr, fi, ops[1], s))
            a = self.rv(fr, fi, ops[0], s)
            b = self.rv(fr, fi, ops[1], s)
            return wrap(self.P.type(x["t"]), self._arith(op, a, b))
        if k == "ConditionalOperator" or k == "BinaryConditionalOperator":
            m = s.ev.pop((fr.id, ("m", i)), None)
            if m is not None: return self.ev(fr, fi, ops[1] if m[1] else ops[-1], s)
            c = self.rv(fr, fi, ops[0], s)
            t = s.truth(c)
            if t is not None: return self.ev(fr, fi, ops[1] if t else ops[2], s)
            return ("top", (fr.id, i))
        if k == "ArraySubscriptExpr":
            b = self.rv(fr, fi, ops[0], s)
            n = self.rv(fr, fi, ops[1], s)
            if self.P.type(fi.ex[ops[0]]["t"])["k"] != "ptr": b, n = n, b
            self.H.deref(self, s, b, x, fr)
            self.H.index(self, s, b, n, x, fr, "array")
            base = self.deref_loc(b)
            if base[0] == "ix": return ("L", mkix(base[1], app("+", base[2], n)))
            return ("L", mkix(base, n))
        if k == "InitListExpr":
            t = self.P.type(x["t"])
            loc = ("t", fr.id, i)
            if t["k"] == "rec" and t["r"] in self.P.records and self.P.records[t["r"]]["mine"]:
                s.clear(loc)
                for fd, o in zip(self.P.records[t["r"]]["fields"], ops):
                    self.store(s, ("f", loc, fd["n"]), self.ev(fr, fi, o, s))
                return ("obj", loc)
            if t["k"] == "arr":
                s.clear(loc)
                for n, o in enumerate(ops):
                    self.store(s, mkix2(loc, n), self.ev(fr, fi, o, s))
                return ("obj", loc)
            if len(ops) == 1: return self.rv(fr, fi, ops[0], s)
            return ("app", "list") + tuple(self.rv(fr, fi, o, s) for o in ops)
        if k == "ImplicitValueInitExpr" or k == "CXXScalarValueInitExpr":
            t = self.P.type(x["t"])
            if t["k"] in ("ptr", "int", "bool", "enum"): return INT0
            return ("zero",)
        if k == "LambdaExpr":
            loc = ("t", fr.id, i)
            caps = []
            for c in x.get("caps", ()):
                if c.get("this"): caps.append(("this", s.mem.get(("v", fr.id, "this"), ("p", "this"))))
                else:
                    vl = ("v", fr.id, c["v"]) if not c["v"].startswith("G:") else ("g", c["v"][2:])
                    m = s.mem.get(vl)
                    if m is not None and m[0] == "ref": vl = m[1]
                    caps.append((c["v"].split("#")[0], vl))
            return ("lambda", x["fn"], tuple(caps))
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            # evaluated out of order (e.g. default argument): value only
            outs = self._construct(fr, fi, i, x, s, inline=False)
            return s.ev.get((fr.id, i), ("top", (fr.id, i)))
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            outs = self._call(fr, fi, i, x, s, inline=False)
            return s.ev.get((fr.id, i), ("top", (fr.id, i)))
        if k == "UnaryExprOrTypeTraitExpr": return ("top", "sizeof")
        if k == "StmtExpr": return ("top", "stmt")
        if k == "CXXNewExpr": return ("addr", ("h", (fr.id, i)))
        if len(ops) == 1: return self.ev(fr, fi, ops[0], s)
        return ("top", (fr.id, i))

    def _arith(self, op, a, b):
        if op in ("+", "-") and a[0] == "addr" and a[1][0] == "ix":
            return ("addr", mkix2(a[1][1], app(op, a[1][2], b)))
        return app(op, a, b)

    def rvalue_for_store(self, fr, fi, i, s):
        v = self.ev(fr, fi, i, s)
        if v[0] == "L": v = self.read(s, v[1])
        return v

    def _assign(self, fr, s, loc, v, x):
        self.H.write(self, s, loc, v, x, fr)
        self.store(s, loc, v)

    def _cast(self, fr, fi, i, x, s):
        ck = x.get("ck")
        o = x["ops"][0]
        if ck == "LValueToRValue":
            v = self.ev(fr, fi, o, s)
            if v[0] == "L":
                return self.read(s, v[1])
            return v
        if "cv" in x and not x.get("lv"):
            return ("int", int(x["cv"]))
        if ck in ("NullToPointer", "NullToMemberPointer"): return INT0
        if ck == "ArrayToPointerDecay":
            v = self.ev(fr, fi, o, s)
            if v[0] == "str": return v
            if v[0] == "L": return ("addr", mkix2(v[1], INT0))
            if v[0] == "obj": return ("addr", mkix2(v[1], INT0))
            return v
        if ck == "FunctionToPointerDecay": return self.ev(fr, fi, o, s)
        if ck in ("PointerToBoolean", "IntegralToBoolean", "FloatingToBoolean"):
            return self._truthy(self.rv(fr, fi, o, s))
        if ck in ("ToVoid",):
            return ("void",)
        v = self.ev(fr, fi, o, s)
        if x.get("lv"): return v
        if v[0] == "L" and ck not in ("DerivedToBase", "UncheckedDerivedToBase", "NoOp", "BaseToDerived", "ConstructorConversion", "UserDefinedConversion"):
            v = self.read(s, v[1])
        if ck == "IntegralCast":
            t = self.P.type(x["t"])
            if v[0] == "int": return wrap(t, v)
            return convert(s, v, self.P.type(fi.ex[o]["t"]), t)
        return v

    # ------------------------------------------------------------ calls
    def can_inline(self, fr, f):
        if fr.depth >= self.max_depth: return False
        if f["qn"] in self.opaque: return False
        if self.inline_filter and not self.inline_filter(f, fr): return False
        p = fr
        n = 0
        while p:
            if p.fi.f["usr"] == f["usr"]: return False
            p = p.parent
        return "blocks" in f

    def _construct(self, fr, fi, i, x, s, inline=True):
        d = self.P.decls[x["fn"]]
        cls = notmpl(d.get("cls", ""))
        ops = x.get("ops", [])
        key = (fr.id, i)
        qn = notmpl(d["qn"])
        args = [self.ev(fr, fi, o, s) for o in ops]
        self.stats["calls"] += 1
        self.H.call(self, s, qn, args, x, fr)
        rec = self.P.records.get(d.get("cls", ""))
        m = self.models.get(cls + "::ctor")
        if m:
            v = m(self, fr, fi, i, x, s, d, args)
            s.ev[key] = v
            return self._with_exc(fr, x, s, d)
        if rec and rec["mine"]:
            target = self._target(fr, fi, i, s)
            f = self.P.funcs.get(x["fn"])
            if (d.get("copy") or d.get("move")) and (not f or f.get("impl")) or x.get("elide"):
                if args:
                    a = args[0]
                    if a[0] in ("L", "obj"):
                        if x.get("elide") and a[0] == "obj":
                            s.ev[key] = a
                            return [Outcome("val", s)]
                        self.copy_obj(s, target, a[1])
                    else: self.store(s, target, a)
                s.ev[key] = ("obj", target)
                return [Outcome("val", s)]
            s.clear(target)
            if f and inline and self.can_inline(fr, f):
                outs = self._call_fn(fr, fi, f, ("addr", target), list(zip(ops, args)), s, i, "ctor", tr=x.get("try"))
                for o in outs:
                    if o.kind == "val": o.st.ev[key] = ("obj", target)
                return outs
            s.ev[key] = ("obj", target)
            self._opaque_effects(fr, fi, i, x, s, d, None, args, ops)
            outs = self._with_exc(fr, x, s, d)
            self.H.constructed(self, s, qn, args, x, fr)
            return outs
        # unmodelled system class
        if args and (d.get("copy") or d.get("move") or x.get("elide")):
            v = args[0]
            if v[0] == "L": v = self.read(s, v[1])
        else:
            v = ("app", "ctor:" + cls) + tuple(self._pure(s, a) for a in args)
            if depth(v) > 12: v = ("top", "deep")
        s.ev[key] = v
        return self._with_exc(fr, x, s, d)

    def _target(self, fr, fi, i, s):
        """where a constructed object lives"""
        if i in fi.varinit and fi.varinit[i]:
            v = fi.varinit[i]
            return ("g", v[2:]) if v.startswith("G:") else ("v", fr.id, v)
        if i in fi.varinit and fi.varinit[i] is None:
            this = s.mem.get(("v", fr.id, "this"), ("p", "this"))
            for b in fi.blocks.values():
                for e in b["el"]:
                    if e["k"] == "I" and e["id"] == i:
                        if "f" in e: return ("f", self.deref_loc(this), e["f"])
                        return self.deref_loc(this)
        p = fi.parent.get(i)
        if p is not None and fi.ex[p]["k"] == "CXXNewExpr" and fi.ex[p]["ops"][0] == i and fi.ex[p].get("ini"):
            return ("h", (fr.id, p))
        return ("t", fr.id, i)

    def _pure(self, s, a):
        if a[0] == "L": return self.read(s, a[1])
        return a

    def _with_exc(self, fr, x, s, d):
        outs = [Outcome("val", s)]
        if self.E and not self.E.may_throw.get(x.get("fn")): return outs     # only explicit throws of the repository
        if self._track_exc(fr, x) and not d.get("ne") and not d.get("ec") and not d.get("builtin") and not x.get("elide"):
            outs.append(Outcome("exc", s.copy(), None, x.get("try")))
        return outs

    def _call(self, fr, fi, i, x, s, inline=True):
        ops = x.get("ops", [])
        key = (fr.id, i)
        self.stats["calls"] += 1
        usr = x.get("fn")
        obj, args, argids = None, None, None
        if usr is None:
            # through a pointer
            cal = self.rv(fr, fi, ops[0], s)
            args = [self.ev(fr, fi, o, s) for o in ops[1:]]
            if cal[0] == "fn" and self.invokers: cal = ("fn", self.invokers.get(cal[1], cal[1]))
            if cal[0] == "fn" and cal[1] in self.P.decls:
                usr = self.indirect = cal[1]
                argids = ops[1:]
            else:
                self.H.deref(self, s, cal, x, fr)
                self.H.call(self, s, "*", [cal] + args, x, fr)
                sym = ("call", key, "*")
                self.fresh(s, sym)
                s.ev[key] = sym
                for o, a in zip(ops[1:], args): self._havoc_arg(s, fi.ex[o], a, (fr.id, i))
                self.H.result(self, s, "*", sym, x, fr)
                outs = [Outcome("val", s)]
                if self._track_exc(fr, x): outs.append(Outcome("exc", s.copy(), None, x.get("try")))
                return outs
        d = self.P.decls[usr]
        qn = notmpl(d["qn"])
        if args is None:
            vals = [self.ev(fr, fi, o, s) for o in ops]
            if x.get("mc") or (x.get("oc") and "cls" in d and not d.get("st")):
                obj, args, argids = vals[0], vals[1:], ops[1:]
                ot = self.P.type(fi.ex[ops[0]]["t"])
                if ot["k"] == "ptr" and x.get("mc"):
                    if obj[0] == "L": obj = self.read(s, obj[1])
                    self.H.deref(self, s, obj, x, fr)
                    objptr = obj
                else:
                    objptr = ("addr", self.as_loc(fr, ops[0], obj, s))
            else:
                args, argids = vals, ops
        else: objptr = None
        if obj is None: objptr = None
        self.H.call(self, s, qn, ([objptr] if objptr is not None else []) + args, x, fr)
        if d["n"] == "operator()" and objptr is not None:
            lam = self.read(s, self.deref_loc(objptr))
            if lam[0] == "obj": lam = self.read(s, lam[1])
            if lam[0] == "lambda" and lam[1] in self.P.funcs and inline and self.can_inline(fr, self.P.funcs[lam[1]]):
                return self._call_fn(fr, fi, self.P.funcs[lam[1]], None, list(zip(argids, args)), s, i, "lam", tr=x.get("try"), retkey=key, caps=lam[2])
        m = self.models.get(qn) or (self.models.get(notmpl(d.get("cls", "")) + "::*") if "cls" in d else None)
        if m:
            r = m(self, fr, fi, i, x, s, d, objptr, args)
            if r is not NotImplemented:
                s.ev[key] = r
                self.H.result(self, s, qn, r, x, fr)
                return self._with_exc(fr, x, s, d)
        if d.get("nr"): return []
        # repository callee(s)
        targets = []
        if x.get("vc"):
            c = [usr] + sorted(self.P.all_overriders(usr))
            targets = [self.P.funcs[u] for u in c if u in self.P.funcs]
            if objptr is not None and objptr[0] == "addr":
                dt = self._dyn(s, objptr[1], fi, fr)
                if dt: targets = [t for t in targets if t.get("cls") == dt] or targets
        elif usr in self.P.funcs: targets = [self.P.funcs[usr]]
        targets = [t for t in targets if inline and self.can_inline(fr, t)] if not d.get("sys") or x.get("vc") else []
        if targets:
            outs = []
            for t in targets:
                st = s.copy() if len(targets) > 1 else s
                outs += self._call_fn(fr, fi, t, objptr, list(zip(argids, args)), st, i, "", tr=x.get("try"), retkey=key)
            return outs
        # opaque
        sym = ("call", key, qn)
        self.fresh(s, sym)
        rt = self.P.type(d["ret"])
        self._opaque_effects(fr, fi, i, x, s, d, objptr, args, argids)
        v = sym
        if rt["k"] == "ref": v = ("L", ("d", sym))
        elif rt["k"] == "rec" and rt["r"] in self.P.records and self.P.records[rt["r"]]["mine"]:
            loc = ("t", fr.id, i)
            s.clear(loc)
            s.mem[loc] = sym
            v = ("obj", loc)
        if rt["k"] == "int" and rt.get("u"): s.facts[sym] = (0, POS, frozenset())
        if rt["k"] == "bool": s.facts[sym] = (0, 1, frozenset())
        s.ev[key] = v
        self.H.result(self, s, qn, v, x, fr)
        return self._with_exc(fr, x, s, d)

    def _dyn(self, s, loc, fi, fr):
        return None

    def _opaque_effects(self, fr, fi, i, x, s, d, objptr, args, argids):
        tag = (fr.id, i)
        if self.E and x.get("fn") in self.E.mods:
            return self._summary_effects(fi, x, s, objptr, args, argids, self.E.mods[x["fn"]], tag, d)
        if objptr is not None and not d.get("const") and not d.get("st"):
            if objptr[0] == "addr": s.havoc(objptr[1], tag)
            else: s.havoc(("d", objptr), tag)
        for o, a in zip(argids or [], args): self._havoc_arg(s, fi.ex[o], a, tag)
        if not d.get("sys") and x.get("fn") in self.P.funcs:
            pass

    def _summary_effects(self, fi, x, s, objptr, args, argids, mods, tag, d):
        """a repository function that is not inlined: forget the fields it may write, wherever they are"""
        names = {f for r, f in mods}
        for l in list(s.mem):
            p = l
            while p[0] in ("f", "ix"):
                if p[0] == "f" and p[2] in names:
                    s.mem[l] = ("top", tag + (l,))
                    break
                p = p[1]
        objs = []
        if objptr is not None: objs.append((objptr[1] if objptr[0] == "addr" else ("d", objptr), d.get("cls")))
        for o, a in zip(argids or [], args):
            t = self.P.type(fi.ex[o]["t"])
            if a[0] == "L" and fi.ex[o].get("lv"):
                if not t.get("c") and t["k"] != "rec": s.havoc(a[1], tag + ("r",))
                elif not t.get("c") and t["k"] == "rec":
                    if t["r"] in self.P.records and self.P.records[t["r"]]["mine"]: objs.append((a[1], t["r"]))
                    else: s.havoc(a[1], tag + ("r",))
                continue
            if t["k"] != "ptr": continue
            pt = self.P.type(t["p"])
            if pt["k"] == "rec" and pt["r"] in self.P.records and self.P.records[pt["r"]]["mine"]:
                objs.append((a[1] if a[0] == "addr" else ("d", a), pt["r"]))
            elif a[0] == "addr" and not pt.get("c"): s.havoc(a[1] if a[1][0] != "ix" else a[1][1], tag + ("p",))

        def forget(loc, rec, n):
            r = self.P.records.get(rec)
            if not r or n > 3: return
            for fd in r["fields"]:
                l = ("f", loc, fd["n"])
                t = self.P.type(fd["t"])
                if (rec, fd["n"]) in mods: s.havoc(l, tag + (l,))
                elif t["k"] == "rec" and t["r"] in self.P.records: forget(l, t["r"], n + 1)
        for loc, rec in objs: forget(loc, rec, 0)

    def _havoc_arg(self, s, ax, a, tag):
        t = self.P.type(ax["t"])
        if a[0] == "L" and ax.get("lv"):
            # bound to a reference parameter: clobbered unless const
            if not t.get("c"): s.havoc(a[1], tag + ("r",))
            return
        if t["k"] == "ptr" and a[0] == "addr":
            pt = self.P.type(t["p"])
            if not pt.get("c"): s.havoc(a[1] if a[1][0] != "ix" else a[1][1], tag + ("p",))

    def _call_fn(self, fr, fi, f, this, args, s, i, kind, tr=None, retkey=None, caps=()):
        cfi = self.fi(f)
        nf = Frame(fr.id + ((i, kind) if kind else (i,)), cfi, fr, i, fr.intry or tr is not None)
        s = s.copy()
        # locals of an earlier activation of this frame are dead
        stale = [l for l in s.mem if l[0] in ("v", "t", "cap") and l[1][:len(nf.id)] == nf.id]
        for l in stale: del s.mem[l]
        s.ev = {k: v for k, v in s.ev.items() if k[0][:len(nf.id)] != nf.id}
        if this is not None: s.mem[("v", nf.id, "this")] = this
        for n, l in caps: s.mem[("cap", nf.id, n)] = l if n == "this" else ("ref", l)
        for p, (aid, a) in zip(f["params"], args):
            t = self.P.type(p["t"])
            loc = ("v", nf.id, p["v"])
            if t["k"] == "ref":
                s.mem[loc] = ("ref", self.as_loc(fr, aid, a, s))
            else:
                self.store(s, loc, a)
        outs = self.run(nf, s)
        if self.own_params:
            for p in f["params"]:
                t = self.P.type(p["t"])
                if t["k"] == "rec" and notmpl(t["r"]) in SMART:
                    for o in outs: self._destroy(fr, fi, o.st, ("v", nf.id, p["v"]), {"cls": t["r"], "clst": t["r"]}, None)
        res = []
        for o in outs:
            st = o.st
            if o.kind == "ret":
                v = o.val
                if v is None: v = ("void",)
                if v[0] == "L" and self.P.type(f["ret"])["k"] != "ref": v = self.read(st, v[1])
                if v[0] == "obj":
                    # move the object out of the callee's frame
                    loc = ("t", fr.id, i)
                    if v[1] != loc:
                        self.copy_obj(st, loc, v[1])
                    v = ("obj", loc)
                if retkey: st.ev[retkey] = v
                self._gc(nf, st, v)
                res.append(Outcome("val", st))
            elif o.kind == "exc":
                self._gc(nf, st, None)
                res.append(Outcome("exc", st, o.val, tr))
        return res

    def _gc(self, nf, st, keep):
        """forget the callee's locals unless something still points at them"""
        n = len(nf.id)
        dead = [l for l in st.mem if l[0] in ("v", "t", "cap") and l[1][:n] == nf.id]
        if not dead: return
        ds = set(dead)
        live = []
        for l, v in st.mem.items():
            if l not in ds: live.append(v)
        if keep is not None: live.append(keep)
        refs = set()

        def walk(t):
            if isinstance(t, tuple):
                for r in locals_in(t):
                    if r[1][:n] == nf.id: refs.add(r)
        for v in live: walk(v)
        for v in st.ev.values(): walk(v)
        for l in dead:
            if l not in refs: del st.mem[l]
        for l in [l for l in st.mem if l[0] in ("f", "ix")]:
            r = root(l)
            if r[0] in ("v", "t") and r[1][:n] == nf.id and r not in refs: del st.mem[l]


class BudgetExceeded(Exception):
    pass


def mkix(base, n):
    if n == INT0: return base if base[0] == "d" else ("ix", base, n)
    return ("ix", base, n)


def mkix2(base, n):
    if isinstance(n, int): n = ("int", n)
    return ("ix", base, n)


def rebase(loc, src, dst):
    if loc == src: return dst
    return (loc[0], rebase(loc[1], src, dst)) + loc[2:]


# ---------------------------------------------------------------- library models
def install_models(I):
    M = I.models

    def pv(I, s, a): return I.read(s, a[1]) if a[0] == "L" else a

    # std::move & friends: identity
    def ident(I, fr, fi, i, x, s, d, o, a): return a[0]
    for n in ("std::move", "std::forward", "std::addressof", "std::__addressof"): M[n] = ident

    # strings
    def str_ctor(I, fr, fi, i, x, s, d, a):
        if not a: return ("str", "")
        v = pv(I, s, a[0])
        t = I.P.type(fi.ex[x["ops"][0]]["t"])
        if t["k"] == "rec":
            return v
        if t["k"] == "ptr" or t["k"] == "arr":
            I.H.deref(I, s, v, x, fr)
            if v[0] == "cstr": return v[1]
            if v[0] == "str" : return v
            return ("strof", v) + tuple(pv(I, s, y) for y in a[1:2] if I.P.type(fi.ex[x["ops"][1]]["t"])["k"] in ("int",))
        return ("app", "ctor:string") + tuple(pv(I, s, y) for y in a)
    for c in STRINGS: M[c + "::ctor"] = str_ctor

    def cstr(I, fr, fi, i, x, s, d, o, a):
        v = I.read(s, I.deref_loc(o))
        if v[0] == "str": return v
        return ("cstr", v)
    for c in STRINGS:
        M[c + "::c_str"] = cstr
        M[c + "::data"] = cstr

    def str_any(I, fr, fi, i, x, s, d, o, a):
        n = d["n"]
        loc = I.deref_loc(o) if o is not None else None
        if n == "operator=" or (n == "assign" and len(a) == 1):
            t = I.P.type(fi.ex[x["ops"][1]]["t"])
            v = pv(I, s, a[0])
            if t["k"] in ("ptr", "arr"):
                I.H.deref(I, s, v, x, fr)
                v = v if v[0] == "str" else v[1] if v[0] == "cstr" else ("strof", v)
            I.H.write(I, s, loc, v, x, fr)
            s.write(loc, v)
            return ("L", loc)
        return container_any(I, fr, fi, i, x, s, d, o, a)
    for c in STRINGS: M[c + "::*"] = str_any

    # generic containers / value classes of the standard library
    def container_any(I, fr, fi, i, x, s, d, o, a):
        n = d["n"]
        if o is None: return NotImplemented
        loc = I.deref_loc(o)
        old = I.read(s, loc)
        av = [pv(I, s, y) for y in a]
        size = ("int", len(old[1])) if old[0] == "str" and isinstance(old[1], (str, bytes)) else INT0 if old == ("app", "cleared") else old[3] if old[0] == "app" and old[1] == "mut:resize" and len(old) > 3 and old[3][0] != "top" else ("app", "size", old)
        if n in ("size", "length"): return size
        if n == "empty": return app("==", size, INT0)
        if n in ("operator[]", "at"):
            I.H.index(I, s, o, av[0], x, fr, n)
            return ("L", ("ix", loc, av[0]))
        if n in ("front", "back", "top"):
            I.H.index(I, s, o, ("str", n), x, fr, n)
            return ("L", ("ix", loc, ("str", n)))
        if n in ("begin", "cbegin", "end", "cend", "rbegin", "rend", "find", "data", "c_str"):
            return ("app", "it:" + n, ("addr", loc)) + tuple(av)
        if d.get("const"):
            rt = I.P.type(d["ret"])
            v = ("app", "m:" + n, old) + tuple(av)
            if depth(v) > 12: v = ("call", (fr.id, i), n)
            if rt["k"] == "ref": return ("L", ("d", v))
            return v
        # mutator
        if n == "operator=" and av:
            v = av[0]
            if v[0] == "obj": v = ("top", (fr.id, i))
            I.H.write(I, s, loc, v, x, fr)
            s.write(loc, v)
            return ("L", loc)
        if n == "clear":
            v = ("app", "cleared")
        else:
            v = ("app", "mut:" + n, old) + tuple(av)
            if depth(v) > 9: v = ("top", (fr.id, i))
        I.H.write(I, s, loc, v, x, fr)
        s.write(loc, v)
        rt = I.P.type(d["ret"])
        if rt["k"] == "ref": return ("L", loc)
        if rt["k"] == "void": return ("void",)
        sym = ("call", (fr.id, i), n)
        I.fresh(s, sym)
        return sym
    for c in ("std::vector", "std::deque", "std::stack", "std::queue", "std::priority_queue", "std::map", "std::unordered_map",
              "std::set", "std::list", "std::array", "std::pair", "boost::multi_index::multi_index_container", "std::bitset",
              "std::initializer_list", "std::basic_ostringstream", "boost::multi_index::detail::random_access_index"):
        M[c + "::*"] = container_any

    def vec_ctor(I, fr, fi, i, x, s, d, a):
        if not a: return ("app", "cleared")
        t = I.P.type(fi.ex[x["ops"][0]]["t"])
        if d.get("copy") or d.get("move") or x.get("elide"): return pv(I, s, a[0])
        return ("app", "ctor:" + notmpl(d["cls"])) + tuple(pv(I, s, y) for y in a)
    for c in ("std::vector", "std::deque", "std::stack", "std::list", "std::set", "std::map"): M[c + "::ctor"] = vec_ctor

    def strval(I, fr, fi, s, oi, a, x):
        """a value converted to std::string when it is a character pointer"""
        v = pv(I, s, a)
        t = I.P.type(fi.ex[oi]["t"])
        if t["k"] in ("ptr", "arr"):
            I.H.deref(I, s, v, x, fr)
            return v if v[0] == "str" else v[1] if v[0] == "cstr" else ("strof", v)
        return v

    def pair_ctor(I, fr, fi, i, x, s, d, a):
        if len(a) == 2:
            isstr = "basic_string" in d.get("clst", "")
            return ("app", "ctor:std::pair") + tuple(strval(I, fr, fi, s, o, y, x) if isstr else pv(I, s, y) for o, y in zip(x["ops"], a))
        if len(a) == 1: return pv(I, s, a[0])
        return ("app", "ctor:std::pair") + tuple(pv(I, s, y) for y in a)
    M["std::pair::ctor"] = pair_ctor

    def make_pair(I, fr, fi, i, x, s, d, o, a):
        return ("app", "ctor:std::pair") + tuple(pv(I, s, y) for y in a)
    M["std::make_pair"] = make_pair

    # optional
    def is_opt(t): return t["k"] == "rec" and notmpl(t["r"]).startswith("boost::optional")

    def opt_ctor(I, fr, fi, i, x, s, d, a):
        if not a: return ("none",)
        t = I.P.type(fi.ex[x["ops"][0]]["t"])
        if t["k"] == "rec" and notmpl(t["r"]) == "boost::none_t": return ("none",)
        if len(a) == 2 and t["k"] == "bool":
            v = pv(I, s, a[1])
            c = s.truth(pv(I, s, a[0]))
            return ("none",) if c == 0 else ("some", v) if c == 1 else ("app", "optif", pv(I, s, a[0]), v)
        v = pv(I, s, a[0])
        if is_opt(t): return v
        if t["k"] in ("ptr", "arr") and d.get("clst", "").startswith("boost::optional<std::basic_string"): v = strval(I, fr, fi, s, x["ops"][0], a[0], x)
        return ("some", v)

    def make_optional(I, fr, fi, i, x, s, d, o, a):
        if len(a) == 1: return ("some", pv(I, s, a[0]))
        c = s.truth(pv(I, s, a[0]))
        v = pv(I, s, a[1])
        return ("none",) if c == 0 else ("some", v) if c == 1 else ("app", "optif", pv(I, s, a[0]), v)
    M["boost::make_optional"] = make_optional

    def opt_any(I, fr, fi, i, x, s, d, o, a):
        n = d["n"]
        loc = I.deref_loc(o)
        if n == "operator=":
            t = I.P.type(fi.ex[x["ops"][1]]["t"])
            v = pv(I, s, a[0])
            if t["k"] == "rec" and notmpl(t["r"]) == "boost::none_t": v = ("none",)
            elif not is_opt(t):
                if t["k"] in ("ptr", "arr"):
                    I.H.deref(I, s, v, x, fr)
                    v = v if v[0] == "str" else v[1] if v[0] == "cstr" else ("strof", v)
                v = ("some", v)
            I.H.write(I, s, loc, v, x, fr)
            s.write(loc, v)
            return ("L", loc)
        if n == "operator bool" or n == "has_value" or n == "is_initialized":
            v = I.read(s, loc)
            if v[0] == "some": return ("int", 1)
            if v[0] == "none": return INT0
            return ("app", "has", v)
        if n == "operator!":
            v = I.read(s, loc)
            return app("!", ("app", "has", v)) if v[0] not in ("some", "none") else ("int", int(v[0] == "none"))
        if n in ("operator->", "get_ptr"):
            I.H.index(I, s, o, ("str", "optional"), x, fr, "optional")
            return ("addr", ("f", loc, "$val"))
        if n in ("operator*", "get", "value"):
            I.H.index(I, s, o, ("str", "optional"), x, fr, "optional")
            return ("L", ("f", loc, "$val"))
        if n == "reset" and not a:
            I.H.write(I, s, loc, ("none",), x, fr)
            s.write(loc, ("none",))
            return ("void",)
        if n == "emplace" or n == "reset":
            t = I.P.type(fi.ex[x["ops"][-1]]["t"])
            if len(a) == 1: v = strval(I, fr, fi, s, x["ops"][-1], a[0], x)
            elif not a: v = ("str", "")
            else: v = ("top", (fr.id, i))
            I.H.write(I, s, loc, ("some", v), x, fr)
            s.write(loc, ("some", v))
            return ("L", ("f", loc, "$val")) if n == "emplace" else ("void",)
        if n in ("value_or", "get_value_or"):
            o = I.read(s, loc)
            if o[0] == "some": return o[1]
            if o[0] == "none": return pv(I, s, a[0])
            return ("app", "valor", o, pv(I, s, a[0]))
        return NotImplemented
    for c in ("boost::optional", "boost::optional_detail::optional_base", "boost::optional_detail::tc_optional_base"):
        M[c + "::ctor"] = opt_ctor
        M[c + "::*"] = opt_any

    # std::function: the callable it was made from
    def fun_ctor(I, fr, fi, i, x, s, d, a):
        if not a: return INT0
        v = pv(I, s, a[0])
        if v[0] == "obj": v = I.read(s, v[1])
        return v
    M["std::function::ctor"] = fun_ctor

    # smart pointers
    def sp_ctor(I, fr, fi, i, x, s, d, a):
        if not a: return INT0
        v = pv(I, s, a[0])
        t = I.P.type(fi.ex[x["ops"][0]]["t"])
        if t["k"] == "null": return INT0
        if d.get("move") and a[0][0] == "L":
            s.write(a[0][1], INT0)
        return v

    def sp_any(I, fr, fi, i, x, s, d, o, a):
        n = d["n"]
        loc = I.deref_loc(o)
        v = I.read(s, loc)
        if n == "get": return v
        if n == "operator bool": return I._truthy(v)
        if n == "operator->":
            return v
        if n == "operator*":
            I.H.deref(I, s, v, x, fr)
            return ("L", I.deref_loc(v))
        if n == "release":
            I.H.write(I, s, loc, INT0, x, fr)
            s.write(loc, INT0)
            return v
        if n == "reset":
            if v != INT0 and s.truth(v) != 0: I.H.delete(I, s, v, dict(x, smart=d.get("clst", ""), at=loc), fr)
            nv = pv(I, s, a[0]) if a else INT0
            I.H.write(I, s, loc, nv, x, fr)
            s.write(loc, nv)
            return ("void",)
        if n == "operator=":
            if v != INT0 and s.truth(v) != 0: I.H.delete(I, s, v, dict(x, smart=d.get("clst", ""), at=loc), fr)
            nv = pv(I, s, a[0])
            if a[0][0] == "L":
                if notmpl(d["cls"]) == "std::unique_ptr": s.write(a[0][1], INT0)
            I.H.write(I, s, loc, nv, x, fr)
            s.write(loc, nv)
            return ("L", loc)
        return NotImplemented
    for c in SMART:
        M[c + "::ctor"] = sp_ctor
        M[c + "::*"] = sp_any
    M["std::__shared_ptr::get"] = lambda I, fr, fi, i, x, s, d, o, a: I.read(s, I.deref_loc(o))
    M["std::__shared_ptr::operator bool"] = lambda I, fr, fi, i, x, s, d, o, a: I._truthy(I.read(s, I.deref_loc(o)))
    M["std::__shared_ptr_access::operator->"] = lambda I, fr, fi, i, x, s, d, o, a: I.read(s, I.deref_loc(o))

    # comparison operators on library values
    def cmp(op):
        def h(I, fr, fi, i, x, s, d, o, a):
            v = [pv(I, s, y) for y in (([("L", I.deref_loc(o))] if o is not None else []) + a)]
            if len(v) != 2: return NotImplemented
            if op in ("==", "!=", "<", ">"):
                for y, oi in zip(v, x["ops"]):
                    if I.P.type(fi.ex[oi]["t"])["k"] == "ptr": I.H.deref(I, s, y, x, fr)
            if op == "==" : return ("app", "==", v[0], v[1]) if v[0] != v[1] else ("int", 1)
            if op == "!=" : return ("app", "!", ("app", "==", v[0], v[1])) if v[0] != v[1] else INT0
            return ("app", "cmp" + op, v[0], v[1])
        return h
    for op in ("==", "!=", "<", ">", "<=", ">="):
        for ns in ("std::", "boost::", ""):
            M[ns + "operator" + op] = cmp(op)

    # C string functions: dereference their arguments
    def cfun(ndr, pure=True):
        def h(I, fr, fi, i, x, s, d, o, a):
            av = [pv(I, s, y) for y in a]
            for y in av[:ndr]: I.H.deref(I, s, y, x, fr)
            t = av[:ndr]
            if all(y[0] == "str" and len(y) == 2 for y in t):
                if d["n"] == "strlen": return ("int", len(t[0][1]))
                if d["n"] == "strcmp": return ("int", (t[0][1] > t[1][1]) - (t[0][1] < t[1][1]))
                if d["n"] == "strncmp" and av[2][0] == "int":
                    p, q = t[0][1][:av[2][1]], t[1][1][:av[2][1]]
                    return ("int", (p > q) - (p < q))
            return ("app", "c:" + d["n"]) + tuple(av)
        return h
    for n, k in (("strlen", 1), ("strcmp", 2), ("strncmp", 2), ("strchr", 1), ("strrchr", 1), ("strstr", 2), ("atoi", 1), ("strtol", 1), ("memchr", 1), ("memcmp", 2)):
        M[n] = cfun(k)
        M["std::" + n] = cfun(k)
    for n in ("std::to_string",):
        M[n] = lambda I, fr, fi, i, x, s, d, o, a: ("app", "to_string", pv(I, s, a[0]))
