"""C16: every byte of the source is read, converted and handed to the lexer exactly once, in order, from the right encoding."""
from ..inputbuf import *
from ..par import pmap
from ..report import Report

HASHKEYS = ("hash",)


def mode(P, e):
    h = Input()
    f, outs = readchars(P, h, e, 1)
    I = interp(P, h)
    for o in outs:
        if o.kind == "ret": check_return(I, h, o, f)
    return {k: (g["file"], l or g["line"], t) for k, (g, l, t) in h.viol.items()}, dict(h.done)


def bom(P, b):
    want, data, pos = b
    viol, done = {}, 0
    f = P.fn(CLS + "::readChars")
    for user in ("", want):
        h = Input(boms=data)
        readchars(P, h, list(ENTRIES)[0], 0, user)
        for k in h.done:
            if k[0] != "opened": continue
            done += 1
            what = "input that starts with the bytes %s%s" % (" ".join("%02X" % x for x in data), "" if not user else ", read as " + user)
            if k[1].startswith('"') and k[1] != '"%s"' % want: viol["bom %s %s" % (data.hex(), bool(user))] = (f["file"], f["line"], "%s is decoded from %s instead of %s" % (what, k[1], want))
            elif k[3].isdigit() and int(k[3]) != pos: viol["bom skip %s %s" % (data.hex(), bool(user))] = (f["file"], f["line"], "for %s, %s bytes are skipped instead of %d" % (what, k[3], pos))
            if k[1] != k[2]: viol["reported %s" % data.hex()] = (f["file"], f["line"], "for %s the encoding reported is %s, but the text is decoded from %s" % (what, k[2], k[1]))
    return viol, {"byte order marks": done}


def getchar(P, _):
    v, d = deliver(P)
    return {"getChar " + k: (f["file"], l, t) for k, (f, l, t) in v.items()}, d


ENC = ("sym", "user encoding")
ARC = ("sym", "archive encoding")


def passed(P, name):
    """a parse function reads from what the caller gave, in the encoding of the unit or else the archive"""
    viol, n = {}, 0
    for unit in ("none", "set", "detected"):
        for arch in (0, 1):
            def setup(I, st, u, ar):
                st.mem[("f", u, "encoding")] = ("none",) if unit == "none" else ("some", ENC)
                st.mem[("f", u, "encoding_detected")] = ("int", int(unit == "detected"))
                st.mem[("f", ar, "src_encoding")] = ("some", ARC) if arch else ("none",)
            f, I, calls = parse(P, name, setup)
            want = ENC if unit == "set" else ARC if arch else INT0
            what = {"none": "a unit without an encoding", "set": "a unit with an encoding of its own", "detected": "a unit whose encoding was detected by an earlier parse"}[unit]
            for st, a, fn, l in calls:
                n += 1
                own = [p for p in P.fns(CLS + "::" + CLS) if len(p["params"]) == len(a)]
                if len(a) < 4: continue
                enc = a[-3]
                if enc[0] == "cstr": enc = enc[1]
                ok = enc == want or enc == ("null",) and want == INT0 or enc[0] == "app" and want in subterms(enc)
                known = enc in (ENC, ARC, INT0) or enc[0] == "app" and (ENC in subterms(enc) or ARC in subterms(enc))
                if known and not ok: viol["encoding %s %s %d" % (name, unit, arch)] = (f["file"], f["line"], "%s decodes %s from %s instead of %s" % (name, what + (" in an archive with one" if arch else ""), show(enc), show(want) if want != INT0 else "what the source shows"))
                pars = [p["v"] for p in f["params"][1:]]
                for p, got in zip(pars, a):
                    if name.endswith("_filename"): continue
                    t = ("p", p)
                    if got == t or got[0] == "str" and st.truth(t) == 0 or got[0] in ("top", "loop") or t in subterms(got) and got[0] != "app": continue
                    if equal(got, t) is False: viol["argument %s %s" % (name, p)] = (f["file"], f["line"], "%s reads its source with %s %s instead of the one given" % (name, p, show(got)))
    return viol, {"inputs opened": n}


def ctor(P, _):
    """every way to open an input passes its arguments on, sets up the matching callback and reads the first part once"""
    viol, done = {}, {}
    for f in P.fns(CLS + "::" + CLS):
        names = [p["n"] for p in f["params"]]
        par = {p["n"]: ("p", p["v"]) for p in f["params"]}
        if "cooked_size" in names or "blocks" not in f: continue
        reads = []

        class H(Hooks):
            def call(self, I, st, qn, args, x, fr):
                if qn == CLS + "::readChars":
                    st.ts["reads"] = min(2, st.ts.get("reads", 0) + 1)
                    st.ts["at read"] = tuple(sorted([(n, I.read(st, fld(n))) for n in ("raw", "insize", "hashneeded")] + [(m, I.read(st, ("f", fld("sio"), m))) for m in ("context", "read_callback")], key=repr))
        h = H()
        I = Interp(P, hooks=h, budget=400000)
        I.opaque |= {CLS + "::readChars", "antlr::CharBuffer::CharBuffer"}
        sig = ",".join(names)
        for o in I.analyze(f, setup=lambda I, st, fr: None):
            if o.kind != "ret": continue
            st = o.st
            done["inputs set up"] = done.get("inputs set up", 0) + 1
            def bad(k, t): viol["%s %s" % (k, sig)] = (f["file"], f["line"], "an input opened with (%s) %s" % (sig, t))
            n = st.ts.get("reads", 0)
            if n != 1: bad("first read", "reads its first part %d times when it is set up" % n)
            at = dict(st.ts.get("at read", ()))
            if n == 0: at = dict([(m, I.read(st, fld(m))) for m in ("raw", "insize", "hashneeded")] + [(m, I.read(st, ("f", fld("sio"), m))) for m in ("context", "read_callback")])
            hn = at["hashneeded"]
            if hn != par["hashneeded"] and hn[0] in ("int", "p"): bad("hashneeded", "does not pass on whether a hash is wanted")
            if "read_callback" in names:
                for m in ("context", "read_callback"):
                    if equal(at[m], par[m]) is False: bad(m, "does not use the %s given" % m)
            elif "c_buffer" in names:
                t = at["raw"]
                s = subterms(t)
                if par["c_buffer"] not in s and not any(y[0] in ("top", "loop") for y in s if y): bad("text", "does not contain the text given")
                if t[0] == "app" and t[1] in ("mut:insert", "mut:assign") and len(t) >= 5:
                    d = sub(t[-1], app("+", t[-2], par["buffer_size"]))
                    if equal(t[-2], par["c_buffer"]) is False or d is not None and (d[0] or d[1]): bad("extent", "does not contain exactly the text given, but [%s, %s)" % (show(t[-2]), show(t[-1])))
            else:
                if st.truth(at["read_callback"]) == 0: bad("callback", "has no way to read its source")
    return viol, done


def callbacks(P, _):
    """the read callbacks of files and descriptors return what the system call delivered into the buffer given"""
    viol, done = {}, {}
    for f in P.funcs.values():
        if not f.get("lambda") or not f["qn"].startswith(CLS + "::" + CLS) or not f["qn"].endswith("operator()") or len(f["params"]) != 3: continue
        buf, size = (("p", p["v"]) for p in f["params"][1:])
        for o in (lambda I: I.analyze(f))(Interp(P, hooks=Reads(f, buf, size, viol, done), budget=100000)):
            if o.kind != "ret": continue
            done["callback results"] = done.get("callback results", 0) + 1
            v, st = o.val, o.st
            if v[0] == "L": v = st.mem.get(v[1], v)
            r = st.ts.get("got")
            if r is None: continue
            if equal(v, r) or v[0] == "app" and v[1] == "cast" and v[2] == r: continue
            if v[0] == "int" and st.truth(r) == 0 and v[1] <= 0: continue
            if v[0] == "int" and st.truth(app("<", r, INT0)) == 1 and v[1] < 0: continue
            if v[0] == "int": viol["result|%s" % st.ts.get("fn")] = (f["file"], f["line"], "the read callback returns %s when %s delivered something else" % (show(v), st.ts.get("fn")))
    return viol, done


class Reads(Hooks):
    def __init__(self, f, buf, size, viol, done): self.f, self.buf, self.size, self.viol, self.done = f, buf, size, viol, done
    def call(self, I, st, qn, args, x, fr):
        if qn in ("read", "fread"):
            self.hit = qn
            b, n = (args[1], args[2]) if qn == "read" else (args[0], app("*", args[1], args[2]) if args[1] != ("int", 1) else args[2])
            self.done["callback reads"] = self.done.get("callback reads", 0) + 1
            if qn == "fread" and args[2] == ("int", 1): n = args[1]
            if equal(b, self.buf) is False: self.viol["into|" + qn] = (self.f["file"], self.f["line"], "%s reads into %s instead of the buffer given" % (qn, show(b)))
            d = sub(n, self.size)
            if d is not None and not d[1] and d[0] > 0: self.viol["extent|" + qn] = (self.f["file"], self.f["line"], "%s may read %s bytes into a buffer of %s" % (qn, show(n), show(self.size)))
            if qn == "fread" and args[1] != ("int", 1) and args[2] != ("int", 1): self.viol["unit|fread"] = (self.f["file"], self.f["line"], "fread counts units that are not bytes")
            if qn == "fread" and args[2] == ("int", 1) and args[1] != ("int", 1): self.viol["unit|fread"] = (self.f["file"], self.f["line"], "fread counts whole buffers instead of bytes")
    def result(self, I, st, qn, val, x, fr):
        if getattr(self, "hit", None):
            st.ts["got"], st.ts["fn"] = val, self.hit
            self.hit = None


def jobs():
    return [(mode, e) for e in list(ENTRIES)[::-1]][::-1] + [(passed, n) for n in PARSES] + [(bom, b) for b in BOMS] + [(getchar, 0), (ctor, 0), (callbacks, 0)]


def run_check():
    P = facts.load(("libsrcml", "parser"))
    R = Report("C16", "UTF8CharBuffer is interpreted over symbolic buffer positions, compared as linear forms: what is read goes right after what is left over, all of the buffer is converted from its start, "
               "what the conversion leaves over is moved to the front and counted, the number of bytes handed on is what the conversion produced, and the end is reported only after a read that "
               "delivered nothing or a flagged error. getChar takes each element once, in order, merging CR and CRLF into LF. Byte order marks select the decoder when no encoding is given; the parse functions "
               "pass on their source and the encoding of the unit or else of the archive.")
    total = {}
    order = sorted(jobs(), key=lambda j: 0 if j[0] is mode and "empty" in str(j[1]) else 1)
    for viol, done in pmap(lambda j: j[0](P, j[1]), order):
        for k, v in done.items():
            if isinstance(k, tuple): continue
            total[k] = total.get(k, 0) + v
        for k, (file, l, t) in viol.items():
            if k.startswith("hash"): continue
            R.violation(k, "%s:%s" % (file.replace("/repo/", ""), l), t)
    for k, v in sorted(total.items()):
        R.ok("%s: %d" % (k, v), v)
        R.count(k, v)
    R.require("reads", total.get("reads", 0), 2)
    R.require("conversions", total.get("conversions", 0), 1)
    R.require("elements taken", total.get("elements taken", 0), 1)
    R.require("inputs opened", total.get("inputs opened", 0), 10)
    return R.finish(P)
