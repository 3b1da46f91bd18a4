"""The source input (UTF8CharBuffer): what is read, hashed, converted and delivered, as linear relations between symbolic positions in the buffer."""
from .interp import *
from . import facts, api

CLS = "UTF8CharBuffer"
THIS = ("d", ("p", "this"))


def fld(n): return ("f", THIS, n)


def lin(t):
    """a term as (constant, {atom: coefficient}); None if it is unknown"""
    k = t[0]
    if k == "int": return (t[1], {})
    if k in ("top", "loop"): return None
    if k == "app":
        op = t[1]
        if op == "cast": return lin(t[2])
        if op in ("+", "-") and len(t) == 4:
            a, b = lin(t[2]), lin(t[3])
            if a is None or b is None: return None
            s = 1 if op == "+" else -1
            d = dict(a[1])
            for x, c in b[1].items():
                d[x] = d.get(x, 0) + s * c
                if not d[x]: del d[x]
            return (a[0] + s * b[0], d)
        if op == "-" and len(t) == 3:
            a = lin(t[2])
            return None if a is None else (-a[0], {x: -c for x, c in a[1].items()})
        if op == "size":
            o = t[2]
            if o[0] == "app" and o[1] == "mut:resize" and len(o) > 3: return lin(o[3])
            if o[0] == "app" and o[1] == "cleared": return (0, {})
            if o[0] == "loop" or o[0] == "top": return None
        if op.startswith("it:") and t[2][0] == "addr" and op in ("it:begin", "it:cbegin"): return (0, {("app", "it:data", t[2]): 1})
        if op in ("it:end", "it:cend"): return None
        if any(x[0] in ("top", "loop") for x in subterms(t) if isinstance(x, tuple) and x): return None
    if k == "addr" and t[1][0] == "ix":
        b, i = ("app", "it:data", ("addr", t[1][1])), lin(t[1][2])
        if i is None: return None
        d = dict(i[1])
        d[b] = d.get(b, 0) + 1
        return (i[0], d)
    return (0, {t: 1})


def sub(a, b): return lin(app("-", a, b)) if a is not None and b is not None else None


def equal(a, b):
    """True / False / None (cannot tell): are two terms equal?"""
    d = sub(a, b)
    if d is None: return None
    return not d[1] and d[0] == 0


def pointer(t):
    """(buffer location, offset term) of a pointer into a buffer"""
    l = lin(t)
    if l is None: return None
    bases = [x for x, c in l[1].items() if x[0] == "app" and x[1] == "it:data" and c == 1]
    if len(bases) != 1: return None
    off = INT0 if not l[0] else ("int", l[0])
    for x, c in sorted(l[1].items(), key=repr):
        if x == bases[0]: continue
        for _ in range(abs(c)): off = app("+" if c > 0 else "-", off, x) if off != INT0 or c < 0 else x
    return bases[0][2][1], off


class Input(Hooks):
    """follows the bytes: 'raw' holds valid bytes [0, valid), of which [unhashed, valid) are new"""

    def __init__(self, boms=False): self.viol, self.done, self.boms = {}, {}, boms

    def bad(self, key, x, fr, text): self.viol.setdefault(key, (fr.fi.f, x.get("l") if x else None, text))
    def ok(self, what): self.done[what] = self.done.get(what, 0) + 1

    def get(self, st, n):
        if n == "valid":
            # a read that delivered nothing adds nothing
            r = st.ts.get(("in", "last"))
            if r is not None and r in st.facts and st.facts[r][1] <= 0: return st.ts.get(("in", "before"))
        return st.ts.get(("in", n))
    def set(self, st, n, v): st.ts[("in", n)] = v

    def start(self, I, st, valid):
        self.set(st, "valid", valid)
        self.set(st, "new", I.read(st, fld("inbytesleft")) if valid is None else INT0)
        self.set(st, "hashed", 0)

    def unknown(self, st):
        self.set(st, "valid", None)
        self.set(st, "new", None)

    def call(self, I, st, qn, args, x, fr):
        q = qn.split("::")[-1]
        if qn == "*" or x["k"] == "CallExpr" and args and "read_callback" in show(args[0]):
            if args and "read_callback" in show(args[0]) and len(args) >= 4: self.read(I, st, args, x, fr)
            elif args and "close_callback" in show(args[0]): self.set(st, "closed", (self.get(st, "closed") or 0) + 1)
        elif q in ("SHA1_Update", "CC_SHA1_Update", "EVP_DigestUpdate"): self.hash(I, st, args, x, fr)
        elif q in ("SHA1_Init", "SHA1_Final"): self.set(st, q, min(2, (self.get(st, q) or 0) + 1))
        elif q == "iconv": self.convert(I, st, args, x, fr)
        elif q == "iconv_open":
            if self.boms: self.opened(I, st, args, x, fr)
            else: self.forget(st, x, fr)
        elif q in ("move", "copy", "memmove", "memcpy", "copy_n") and len(args) == 3: self.move(I, st, q, args, x, fr)
        elif q in ("readChars",) and "UTF8CharBuffer" in qn: self.set(st, "again", 1)

    def opened(self, I, st, a, x, fr):
        self.ok(("opened", show(a[1]), show(I.read(st, fld("encoding"))), show(I.read(st, fld("pos")))))

    def forget(self, st, x, fr):
        """what happens to the bytes does not depend on the encoding, nor on what led to it, from here on"""
        st.mem[fld("encoding")] = ("sym", "encoding")
        used = {"this"} | {y["v"] for y in fr.fi.f["exprs"].values() if y["k"] == "DeclRefExpr" and y.get("l", 0) >= x.get("l", 0) and "v" in y}
        for l in [l for l in st.mem if locals_in(l)]:
            if not any(r[2] in used for r in locals_in(l)): del st.mem[l]
        for t in [t for t in st.facts if isinstance(t, tuple) and t[0] in ("loop", "app")]: del st.facts[t]

    def rawloc(self): return fld("raw")

    def read(self, I, st, a, x, fr):
        size = ("app", "size", I.read(st, self.rawloc()))
        p, n = pointer(a[2]), a[3]
        self.ok("reads")
        if a[1] != I.read(st, ("f", fld("sio"), "context")): self.bad("context", x, fr, "the read callback is not given its context")
        r = ("call", "read", self.get(st, "reads") or 0)
        self.set(st, "reads", min(3, (self.get(st, "reads") or 0) + 1))
        self.pending = ("read", r)
        if p is None:
            self.unknown(st)
            return
        buf, off = p
        if buf != self.rawloc():
            self.bad("read into", x, fr, "input is read into %s" % show(buf))
            return
        d = sub(app("+", off, n), size)
        if d is not None and (d[1] or d[0] > 0): self.bad("overrun", x, fr, "up to %s bytes are read at offset %s of a buffer of %s" % (show(n), show(off), show(size)))
        v = self.get(st, "valid")
        if v is None: v = I.read(st, fld("inbytesleft"))
        e = equal(off, v)
        if e is False: self.bad("read at", x, fr, "input is read to offset %s of the buffer, but its first %s bytes are valid: bytes are lost or left over" % (show(off), show(v)))
        self.set(st, "before", self.get(st, "valid"))
        self.set(st, "valid", app("+", off, r))
        self.set(st, "last", r)

    def result(self, I, st, qn, val, x, fr):
        p, self.pending = getattr(self, "pending", None), None
        if p is None: return
        if p[0] == "read":
            # give the result of this read its own name
            if val[0] == "call":
                v = st.ts.get(("in", "valid"))
                if v is not None: self.set(st, "valid", subst(v, p[1], val))
                self.set(st, "last", val)
        elif p[0] == "iconv":
            for loc, sym in p[1]:
                st.write(loc, sym)
                if sym[1] in ("left", "outleft"): st.facts[sym] = (0, POS, frozenset())
            self.set(st, "iconvresult", val)

    def hash(self, I, st, a, x, fr):
        self.ok("hash updates")
        size = ("app", "size", I.read(st, self.rawloc()))
        p = pointer(a[1])
        v, u = self.get(st, "valid"), self.get(st, "new")
        if v is None and not self.get(st, "reads"): v = size
        if p is None or u is None or v is None: return self.hashed(st)
        buf, off = p
        if buf != self.rawloc(): self.bad("hash of", x, fr, "what is hashed is not the input as it was read but %s" % show(buf))
        elif equal(off, u) is False: self.bad("hash from", x, fr, "hashing starts at offset %s, but the bytes read start at %s" % (show(off), show(u)))
        elif equal(app("+", off, a[2]), v) is False: self.bad("hash length", x, fr, "%s bytes are hashed from offset %s, but the buffer holds %s" % (show(a[2]), show(off), show(v)))
        self.hashed(st)

    def hashed(self, st):
        n = self.get(st, "hashed") or 0
        self.set(st, "hashed", min(2, n + 1))

    def checkhash(self, I, st, x, fr):
        """at the conversion of bytes or on return: new bytes were hashed exactly once"""
        if st.truth(I.read(st, fld("hashneeded"))) == 1:
            n = self.get(st, "hashed") or 0
            self.ok("bytes hashed once")
            if n != 1: self.bad("hashed %s" % n, x, fr, "bytes that were read are %s" % ("not hashed" if n == 0 else "hashed more than once"))
        elif st.truth(I.read(st, fld("hashneeded"))) == 0 and self.get(st, "hashed"):
            self.bad("hash unneeded", x, fr, "bytes are hashed although no hash was set up")

    def convert(self, I, st, a, x, fr):
        self.ok("conversions")
        if len(a) < 5 or any(y[0] != "addr" for y in a[1:5]): return self.unknown(st)
        inl, leftl, outl, outleftl = (y[1] for y in a[1:5])
        k = min(2, self.get(st, "iconvs") or 0)
        self.set(st, "iconvs", k + 1)
        p, n = pointer(I.read(st, inl)), I.read(st, leftl)
        size = ("app", "size", I.read(st, self.rawloc()))
        v = self.get(st, "valid")
        if v is None and not self.get(st, "reads"): v = size
        self.checkhash(I, st, x, fr)
        if p is not None:
            if p[0] != self.rawloc(): self.bad("convert from", x, fr, "what is converted is not the input but %s" % show(p[0]))
            elif equal(p[1], INT0) is False: self.bad("convert at", x, fr, "conversion starts at offset %s of the input instead of its start" % show(p[1]))
            elif v is not None and equal(n, v) is False: self.bad("convert length", x, fr, "%s bytes are converted, but the buffer holds %s" % (show(n), show(v)))
        o, on = pointer(I.read(st, outl)), I.read(st, outleftl)
        if o is not None:
            cs = ("app", "size", I.read(st, o[0]))
            d = sub(app("+", o[1], on), cs)
            if d is not None and (d[1] or d[0] > 0): self.bad("convert overrun", x, fr, "conversion may write %s bytes at offset %s of a buffer of %s" % (show(on), show(o[1]), show(cs)))
            self.set(st, "out", (o[0], o[1], on))
        self.pending = ("iconv", [(inl, ("sym", "in", k)), (leftl, ("sym", "left", k)), (outl, ("sym", "outp", k)), (outleftl, ("sym", "outleft", k))])
        self.set(st, "carry", k)
        self.set(st, "hashed", 0)

    def move(self, I, st, q, a, x, fr):
        k = self.get(st, "carry")
        if k is None: return
        if q in ("memmove", "memcpy"): dst, src, n = a
        elif q == "copy_n": src, n, dst = a
        else:
            src, dst = a[0], a[2]
            n = app("-", a[1], a[0])
        p = pointer(dst)
        if p is None or p[0] != self.rawloc(): return
        self.ok("incomplete characters carried over")
        if equal(p[1], INT0) is False: self.bad("carry to", x, fr, "the incomplete character is kept at offset %s of the buffer" % show(p[1]))
        elif equal(src, ("sym", "in", k)) is False: self.bad("carry from", x, fr, "what is kept is not what the conversion left over (from %s)" % show(src))
        elif equal(n, ("sym", "left", k)) is False: self.bad("carry length", x, fr, "%s bytes are kept instead of what the conversion left over" % show(n))
        st.ts.pop(("in", "carry"), None)
        self.set(st, "carried", k)
        self.set(st, "valid", ("sym", "left", k))
        self.set(st, "new", ("sym", "left", k))

    def leftover(self, I, st, x, fr):
        """on return, or before the next round: what the conversion left over is at the start of the buffer and counted"""
        k = self.get(st, "carry")
        if k is None: k = self.get(st, "carried")
        elif st.truth(("sym", "left", k)) != 0: self.bad("carry lost", x, fr, "an incomplete character left over by the conversion is not kept for the next read")
        if k is None: return
        self.ok("left-over count kept")
        v = I.read(st, fld("inbytesleft"))
        if equal(v, ("sym", "left", k)) is False and not (v == INT0 and st.truth(("sym", "left", k)) == 0):
            self.bad("carry count", x, fr, "the number of bytes kept for the next read is %s instead of what the conversion left over" % show(v))


def subst(t, a, b):
    if t == a: return b
    if isinstance(t, tuple): return tuple(subst(y, a, b) if isinstance(y, tuple) else y for y in t)
    return t


class Known(Interp):
    """the input starts with the bytes H.boms"""

    def read(self, s, loc):
        if loc[0] == "ix" and loc[1] == fld("raw") and loc[2][0] == "int" and 0 <= loc[2][1] < 4:
            b = self.H.boms[loc[2][1]]
            return ("int", b - 256 if b > 127 else b)
        v = Interp.read(self, s, loc)
        if v[0] != "int" and loc[0] == "f" and loc[1][0] == "v" and any(l[0] == "ix" and l[1][0] == "f" and l[1][1] == loc[1] and l[1] != loc for l in s.mem):
            return ("int", int.from_bytes(self.H.boms, "little"))       # the other member of a union
        return v


def interp(P, h, **kw):
    I = (Known if h.boms else Interp)(P, hooks=h, soft=4000, limit=60000, budget=4000000, **kw)
    I.esp = True
    I.opaque |= {f["qn"] for f in P.funcs.values() if f["qn"].endswith("::compatibleEncodings")}
    return I


ENTRIES = {
    "a buffer with all of the input, first use": dict(insize=("sym", "N"), inbytesleft=INT0, pos=INT0, firstRead=("int", 1), error=INT0),
    "an empty buffer, first use": dict(insize=INT0, inbytesleft=INT0, pos=INT0, firstRead=("int", 1), error=INT0),
    "a used-up buffer": dict(insize=INT0, inbytesleft=("sym", "carry"), pos=INT0, firstRead=INT0, error=INT0),
}


def readchars(P, h, entry, hashneeded, encoding=None):
    f = P.fn(CLS + "::readChars")
    have = {fd["n"] for fd in P.record(CLS)["fields"]}
    need = {"insize", "inbytesleft", "pos", "firstRead", "raw", "cooked", "hashneeded", "sio", "trivial"}
    if need - have: raise facts.AnalysisBroken("members of %s not found: %s" % (CLS, ", ".join(sorted(need - have))))

    def setup(I, st, fr):
        for n, v in ENTRIES[entry].items():
            if n in have: st.mem[fld(n)] = v
        st.mem[fld("hashneeded")] = ("int", hashneeded)
        st.mem[fld("trivial")] = INT0
        if encoding is not None: st.mem[fld("encoding")] = ("str", encoding)
        st.facts[("sym", "carry")] = (0, POS, frozenset())
        if "all of the input" in entry:
            st.mem[fld("raw")] = ("app", "mut:resize", ("app", "cleared"), ("sym", "N"))
            st.facts[("sym", "N")] = (1, POS, frozenset())
            if h.boms: st.facts[("sym", "N")] = (8, POS, frozenset())
            h.set(st, "valid", ("sym", "N"))
            h.set(st, "new", INT0)
        else:
            h.set(st, "valid", ENTRIES[entry]["inbytesleft"])
            h.set(st, "new", ENTRIES[entry]["inbytesleft"])
            st.facts[("init", ("f", fld("sio"), "read_callback"))] = (NEG, POS, frozenset([0]))
        h.set(st, "hashed", 0)
    return f, interp(P, h).analyze(f, setup=setup)


def nothing(st, r):
    """a read result that is known to be no data (None: unknown, -1: an error)"""
    lo, hi = NEG, POS
    for t, c in st.facts.items():
        u = t
        while u[0] == "app" and u[1] == "cast": u = u[2]
        if u == r: lo, hi = max(lo, c[0]), min(hi, c[1])
        if u[0] == "app" and u[1] == "<":
            a, b = (y[2] if y[0] == "app" and y[1] == "cast" else y for y in u[2:4])
            if a == r and b == INT0:
                if c[0] == 1: hi = min(hi, -1)
                elif c[1] == 0: lo = max(lo, 0)
            if a == INT0 and b == r and c[1] == 0: hi = min(hi, 0)
    return -1 if hi < 0 else 0 if hi <= 0 else 1 if lo > 0 else None


def check_return(I, h, o, f):
    """what readChars may report when it returns"""
    st = o.st
    class F: pass
    fr = F(); fr.fi = F(); fr.fi.f = f
    line = {"l": f["line"]}
    v = o.val
    for n in ("lastcr", "loc"):
        if h.get(st, "again"): break
        if I.read(st, fld(n)) != ("init", fld(n)) and I.read(st, fld(n))[0] not in ("top", "loop"): h.bad("state " + n, line, fr, "reading more input changes %s, which belongs to what was handed on before" % n)
    err = I.read(st, fld("error"))
    failed = st.truth(err) == 1
    if v is None: return
    if v[0] == "L": v = I.read(st, v[1])
    h.ok("returns")
    res = h.get(st, "iconvresult")
    if res is not None and not failed:
        # a conversion that stopped: only an incomplete character may be left over without an error
        if st.truth(app("==", res, ("int", -1))) == 1 or st.truth(app("==", res, ("int", (1 << 64) - 1))) == 1:
            h.ok("conversion failures")
            if not any("errno" in show(t) and c[0] == c[1] == 22 for t, c in st.facts.items()) and not any("errno" in show(t) and "22" in show(t) and c[:2] in ((1, 1), (0, 0)) for t, c in st.facts.items()):
                h.bad("conversion failure", line, fr, "a conversion that fails is not flagged as an error")
    if st.truth(v) == 0:
        last = h.get(st, "last")
        io = I.read(st, ("f", fld("sio"), "read_callback"))
        over = last is not None and nothing(st, last) in (0, -1)
        if not failed and not over and last is not None and not h.get(st, "again"): h.bad("early end", line, fr, "the end of the input is reported although the last read delivered bytes and no error is flagged")
        if last is not None and nothing(st, last) == -1 and not failed: h.bad("read failure", line, fr, "a read callback that fails is taken for the end of the input: no error is flagged")
        return
    if failed or h.get(st, "again"): return
    h.leftover(I, st, line, fr)
    out = h.get(st, "out")
    if out is not None and h.get(st, "iconvs") == 1:
        cooked, off, on = out
        if equal(off, INT0) is False: h.bad("cooked at", line, fr, "converted text starts at offset %s of the buffer it is taken from" % show(off))
        want = app("-", on, ("sym", "outleft", 0))
        h.ok("sizes")
        if equal(v, want) is False: h.bad("size", line, fr, "the number of bytes handed on is %s, but the conversion produced %s" % (show(v), show(want)))
    p = I.read(st, fld("pos"))
    if st.truth(I.read(st, fld("firstRead"))) == 0 and p[0] == "int" and p[1] not in (0, 3): h.bad("pos", line, fr, "reading of a new buffer starts at %s" % p[1])


def deliver(P):
    """getChar: every element of the buffer is handed on once, in order; CR and CRLF as one LF"""
    f = P.fn(CLS + "::getChar")
    viol, done = {}, {}
    E = fld("lastcr")

    class H(Hooks):
        def ok(self, w): done[w] = done.get(w, 0) + 1
        def bad(self, key, x, fr, text): viol.setdefault(key, (f, x.get("l") if x else f["line"], text))
        def call(self, I, st, qn, args, x, fr):
            if qn.endswith("::readChars"):
                self.hit = "read"
                self.skipped(I, st, x, fr)
                self.keep = [(fld(n), I.read(st, fld(n))) for n in ("lastcr", "loc", "trivial")]      # readChars leaves these alone: see check_return
            elif qn.endswith("::getChar"):
                self.hit = "again"
                self.skipped(I, st, x, fr)
        def result(self, I, st, qn, val, x, fr):
            w, self.hit = getattr(self, "hit", None), None
            if w == "read":
                st.ts["r"] = val
                st.write(fld("pos"), INT0)          # a new buffer
                for l, v in self.keep: st.write(l, v)
                st.ts["expect"] = INT0
            elif w == "again":
                st.ts["again"] = val
        def index(self, I, st, cont, idx, x, fr, how):
            l = cont[1] if cont[0] == "addr" else None
            if l not in (fld("raw"), fld("cooked")): return
            self.ok("elements taken")
            t = st.truth(I.read(st, fld("trivial")))
            if t is not None and l != fld("raw" if t else "cooked"): self.bad("buffer", x, fr, "characters are taken from the wrong buffer")
            p = I.read(st, fld("pos"))
            if st.ts.get("took"):
                self.skipped(I, st, x, fr)
            prev = st.ts.get("expect", ("init", fld("pos")) if "r" not in st.ts else INT0)
            if prev is not None and equal(idx, prev) is False: self.bad("order", x, fr, "the next character is taken from position %s instead of %s" % (show(idx), show(prev)))
            st.ts["expect"] = app("+", idx, ("int", 1))
            st.ts["took"] = (l, idx)
            # a refilled buffer must have something in it
            r = st.ts.get("r")
            if r is not None and st.truth(r) == 0: self.bad("after the end", x, fr, "a character is taken although the input is at its end")

        def elem(self, I, st): return I.read(st, ("ix",) + st.ts["took"])
        def is_(self, I, st, ch):
            v = self.elem(I, st)
            for t in (v, ("app", "cast", v, ("str", "u8"))):
                for q in (t,):
                    r = st.truth(app("==", q, ("int", ch)))
                    if r is not None: return r
            return None
        def skipped(self, I, st, x, fr):
            """the character taken last is not handed on"""
            if not st.ts.get("took"): return
            self.ok("characters skipped")
            if self.is_(I, st, 10) != 1 or st.ts.get("cr0", st.truth(("init", E))) != 1 or st.ts.get("skips"): self.bad("skip", x, fr, "a character is skipped that is not the line feed of a carriage return and line feed")
            elif st.truth(I.read(st, E)) == 1: self.bad("skip state", x, fr, "after the line feed of a carriage return and line feed was skipped, the next line feed would be skipped too")
            st.ts["skips"] = 1
            st.ts["cr0"] = 0
            st.ts.pop("took")

    h = H()
    I = Interp(P, hooks=h, budget=200000)
    I.opaque |= {CLS + "::readChars", CLS + "::getChar"}

    def setup(I, st, fr):
        st.facts[("init", fld("lastcr"))] = (0, 1, frozenset())
        st.mem[fld("loc")] = ("sym", "lines")
    outs = I.analyze(f, setup=setup)
    for o in outs:
        if o.kind != "ret": continue
        st = o.st
        v = o.val
        if v[0] == "L": v = I.read(st, v[1])
        h.ok("results")
        if "again" in st.ts and equal(v, st.ts["again"]): continue
        if "again" in st.ts: continue
        if v == ("int", -1) or st.truth(app("==", v, ("int", -1))) == 1 and not st.ts.get("took"):
            r = st.ts.get("r")
            if r is None: h.bad("end", None, None, "the end of the input is reported without trying to read more")
            elif st.truth(r) == 1: h.bad("end", None, None, "the end of the input is reported although there are more characters")
            continue
        if not st.ts.get("took"):
            h.bad("nothing", None, None, "a character is handed on that was not taken from the input")
            continue
        if equal(I.read(st, fld("pos")), st.ts["expect"]) is False: h.bad("advance", None, None, "after a character was handed on, the next one is expected at %s instead of %s" % (show(I.read(st, fld("pos"))), show(st.ts["expect"])))
        cr, lf = h.is_(I, st, 13), h.is_(I, st, 10)
        ncr = st.truth(I.read(st, E))
        was = st.ts.get("cr0", st.truth(("init", E)))
        if cr == 1:
            if v != ("int", 10): h.bad("cr", None, None, "a carriage return is handed on as %s" % show(v))
            if ncr != 1: h.bad("cr state", None, None, "a carriage return is not remembered: the line feed that follows counts twice")
        elif cr == 0:
            if ncr == 1: h.bad("cr state2", None, None, "a line feed would be skipped after a character that is not a carriage return")
            if lf == 0 and v[0] == "int": h.bad("value", None, None, "another character than the one in the input is handed on: %s" % show(v))
            if lf == 1 and was == 1: h.bad("crlf", None, None, "the line feed of a carriage return and line feed is handed on as a line of its own")
        n = I.read(st, fld("loc"))
        want = 1 if v == ("int", 10) or lf == 1 else 0 if cr == 0 and lf == 0 else None
        d = sub(n, ("sym", "lines"))
        if want is not None and d is not None and not d[1] and d[0] != want: h.bad("lines %d" % want, None, None, "the line count goes up by %d for %s" % (d[0], "a line" if want else "a character that does not end a line"))
    return viol, done


BOMS = (("UTF-8", b"\xef\xbb\xbfa", 3), ("UTF-16", b"\xff\xfea\0", 0), ("UTF-16", b"\xfe\xff\0a", 0), ("UTF-32", b"\xff\xfe\0\0", 0), ("UTF-32", b"\0\0\xfe\xff", 0), ("ISO-8859-1", b"abcd", 0))
PARSES = ("srcml_unit_parse_memory", "srcml_unit_parse_filename", "srcml_unit_parse_FILE", "srcml_unit_parse_fd", "srcml_unit_parse_io")


class Passed(Hooks):
    """what a parse function hands to the source input"""
    def __init__(self, I=None): self.calls = []
    def call(self, I, st, qn, args, x, fr):
        if qn == CLS + "::" + CLS: self.calls.append((st.copy() if hasattr(st, "copy") else st, list(args), fr.fi.f["qn"], x.get("l")))


def parse(P, name, setup):
    """run of a public parse function up to the construction of its input: [(state, arguments)]"""
    f = P.fn(name)
    h = Passed()
    I = Interp(P, hooks=h, soft=4000, limit=60000, budget=2000000)
    I.esp = True
    I.opaque |= {CLS + "::" + CLS, "srcml_write_start_unit", "srcml_write_end_unit", "srcml_check_language", "srcml_translator::translate"}
    I.opaque |= {g["qn"] for g in P.funcs.values() if g["qn"].endswith("::get_language_from_filename")}
    u = ("d", ("p", f["params"][0]["v"]))
    ar = ("d", ("sym", "archive"))

    def s(I, st, fr):
        st.mem[("f", u, "archive")] = ("sym", "archive")
        st.facts[("sym", "archive")] = (NEG, POS, frozenset([0]))
        setup(I, st, u, ar)
    I.analyze(f, setup=s)
    return f, I, h.calls
