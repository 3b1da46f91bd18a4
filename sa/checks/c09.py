"""C09: a step that fails makes the call fail."""
import os
import re
from .. import facts, api
from ..api import where
from ..interp import *
from ..report import Report
from ..par import pmap
from ..effects import effects

# steps that can fail, and the result that shows it
NULLFAIL = {"xmlParserInputBufferCreateMem", "xmlParserInputBufferCreateFilename", "xmlParserInputBufferCreateFile", "xmlParserInputBufferCreateFd", "xmlParserInputBufferCreateIO",
            "xmlOutputBufferCreateFile", "xmlOutputBufferCreateFd", "xmlOutputBufferCreateIO", "xmlOutputBufferCreateBuffer", "xmlOutputBufferCreateFilename", "xmlNewTextWriter",
            "xmlReadMemory", "xmlReadFile", "xmlReadFd", "xmlReadIO", "xmlRelaxNGParse", "xmlRelaxNGNewDocParserCtxt", "xmlRelaxNGNewValidCtxt", "xsltParseStylesheetDoc",
            "xmlCreateMemoryParserCtxt", "xmlNewParserCtxt", "xmlNewIOInputStream", "fopen", "xmlXPathNewContext", "xmlXPathCompiledEval", "xsltApplyStylesheetUser"}
NEGFAIL = {"xmlOutputBufferWrite", "xmlOutputBufferFlush", "xmlOutputBufferClose", "open", "read"}
# functions of the library: false or 0 is failure
FALSEFAIL = {"srcml_translator::translate", "srcml_translator::add_unit", "srcml_translator::add_start_unit", "srcml_translator::add_end_unit", "srcml_translator::add_start_element",
             "srcml_translator::add_end_element", "srcml_translator::add_namespace", "srcml_translator::add_attribute", "srcml_translator::add_string"}
OPAQUE = {"srcml_translator::close", "srcml_sax2_reader::read_header", "srcml_sax2_reader::read_body", "srcml_sax2_reader::read", "srcMLOutput::consume"}
BODY = "srcml_sax2_reader::read_body"
# not failures of the call: what they report is kept by the object and reported by a later step, or only memory can make them fail
STICKY = {"xmlTextWriterFlush", "xmlTextWriterSetIndent"}
ASKING = re.compile(r"_(get|has|is|check|find)_|_has_|_size$|skip_unit|_check|_version|_libarchive")
WRITER = "xmlTextWriter"
# a unit of an archive is given to the caller only with its body, so the others never have to read one
READS = {"srcml_archive_read_unit", "srcml_archive_write_unit"}


def status(n, f, P):
    """the function answers with a status"""
    return P.type(f["ret"])["k"] == "int" and not ASKING.search(n)


def writes(s): return s.split("::")[-1].startswith((WRITER, "add_"))


class Steps(Hooks):
    def __init__(self, f, P, pub):
        self.f, self.P = f, P
        self.stat = {n for n, g in pub.items() if status(n, g, P)}
        t = P.type(f["ret"])
        self.how = "ptr" if t["k"] == "ptr" else ("status" if f["qn"] in self.stat else "bool")
        self.bad, self.sites, self.returns = {}, set(), 0

    def kind(self, q):
        n = notmpl(q)
        s = n.split("::")[-1]
        if n in FALSEFAIL or s in NULLFAIL: return "null"
        if n in self.stat: return "nonzero"
        if s in STICKY: return None
        if s in NEGFAIL or s.startswith(WRITER) or s == "iconv_open": return "neg"
        if s == "xmlParseDocument" or n == "UTF8CharBuffer::isError": return "nonzero"
        return None

    def okay(self, st, k, v):
        if k == "null": return st.truth(v) == 1
        if k == "nonzero": return st.truth(v) == 0
        return st.truth(app("==", v, ("int", -1))) == 0 or st.truth(app("<", v, INT0)) == 0

    def result(self, I, st, qn, val, x, fr):
        if qn == "*": return
        k = self.kind(qn)
        if notmpl(qn) == "srcMLOutput::consume": st.ts[("consumed",)] = True
        if notmpl(qn) == BODY and self.f["qn"] in READS: st.ts[("body",)] = True
        if not k: return
        s = notmpl(qn)
        if s == "UTF8CharBuffer::isError": st.ts.pop(("consumed",), None)
        key = (s, fr.fi.f["qn"].split("(")[0], x.get("l"))
        self.sites.add(key)
        if writes(s):                            # an error of a writer is seen by every later call on it
            for q in [q for q in st.ts if q[0] == "step" and writes(q[2][0])]: del st.ts[q]
        for q in [q for q in st.ts if q[0] == "step" and q[2] == key]:
            if not writes(s) and not self.okay(st, q[3], q[1]): st.ts[("lost", key)] = True
            del st.ts[q]
        st.ts[("step", val, key, k)] = True

    def caught(self, I, st, et, fr):
        st.ts[("caught", fr.fi.f["qn"].split("(")[0], str(et))] = True

    def say(self, key, line, text):
        if key not in self.bad: self.bad[key] = (line, text)

    def ret(self, I, st, val, el, fr):
        if fr.parent is not None or val is None: return
        st = st.copy()
        if not st.assume(val, self.how != "status"): return
        self.returns += 1
        name = self.f["qn"].split("(")[0]
        for q in list(st.ts):
            if q[0] == "step" and not self.okay(st, q[3], q[1]):
                self.say("%s|%s|%s" % (name, q[2][0], q[2][1]), q[2][2], "%s may report success although %s (called in %s) has failed" % (name, q[2][0], q[2][1]))
            elif q[0] == "lost":
                self.say("%s|%s|%s" % (name, q[1][0], q[1][1]), q[1][2], "%s may report success although an earlier call of %s (in %s) has failed" % (name, q[1][0], q[1][1]))
            elif q[0] == "caught":
                self.say("%s|catch|%s" % (name, q[1]), None, "%s may report success although an exception was caught in %s" % (name, q[1]))
            elif q[0] == "body":
                if not any(l[0] == "f" and l[2] == "read_body" and st.truth(v) == 1 for l, v in st.mem.items()) and not any(
                           t[0] == "init" and t[1][0] == "f" and t[1][2] == "read_body" and st.truth(t) == 1 for t in st.facts):
                    self.say("%s|read_body" % name, None, "%s may report success although the body of the unit could not be read" % name)
            elif q[0] == "consumed":
                self.say("%s|isError" % name, None, "%s reports success without having asked whether the input could be read" % name)

    def key(self, st):
        return frozenset((q, self.okay(st, q[3], q[1]) if q[0] == "step" else 0) for q in st.ts)


SKIP = {"srcml_transform_free": "frees, and reports nothing but a missing archive", "srcml_unit_apply_transforms": "decided by C21"}


EINVAL = 22      # errno of iconv: the input ends inside of a character, and the rest is yet to come


def inner(t, v): return t == v or t[0] == "app" and t[1] == "cast" and inner(t[2], v)


class Input(Hooks):
    """what goes wrong with the input sets the error of the buffer"""
    def __init__(self): self.bad, self.n, self.seen = {}, 0, set()

    def result(self, I, st, qn, val, x, fr):
        s = qn.split("::")[-1]
        if s in ("iconv", "iconv_open"): st.ts[("step", val, s, x.get("l"))] = True
        elif qn == "*" : st.ts[("step", val, "the read callback", x.get("l"))] = True
        elif s == "__errno_location": st.ts[("errno", ("init", ("d", val)))] = True
        else: return
        self.seen.add(s)

    def branch(self, I, st, term, val, fr):
        """what is compared is the result, converted"""
        for q in [q for q in st.ts if q[0] == "step"]:
            for t in list(st.facts):
                if t != q[1] and inner(t, q[1]): st.ts[("as", t, q[1])] = True
            if self.ok(I, st, q): del st.ts[q]

    def write(self, I, st, loc, val, x, fr):
        if loc[0] != "f" or loc[2] != "error": return
        if st.truth(val) == 1:
            for q in [q for q in st.ts if q[0] == "step"]: del st.ts[q]
        else: self.bad.setdefault("readChars|cleared", (x.get("l"), "UTF8CharBuffer::readChars clears the error of the input"))

    def ok(self, I, st, q):
        for t in list(st.facts):
            if inner(t, q[1]):
                lo, hi, ne = st.con(t)
                if q[2] == "the read callback":
                    if lo >= 0: return True
                elif hi < 2 ** 64 - 1 and lo >= 0 or -1 in ne or 2 ** 64 - 1 in ne: return True
        if q[2] == "iconv" and any(t[0] == "init" and "errno" in str(t) and st.con(t)[:2] == (EINVAL, EINVAL) for t in st.facts): return True
        return False

    def ret(self, I, st, val, el, fr):
        if fr.parent is not None: return
        self.n += 1
        for q in st.ts:
            if q[0] == "step" and not self.ok(I, st, q):
                self.bad.setdefault("readChars|" + q[2], (q[3], "UTF8CharBuffer::readChars may go on without an error although %s has failed" % q[2]))


def reading(P, E, R):
    for f in P.fns("UTF8CharBuffer::readChars"):
        if not f.get("blocks"): continue
        h = Input()
        conv = {u for u, g in P.funcs.items() if g["file"] == f["file"] and not g.get("cls") and any(P.decls.get(x.get("fn"), {}).get("qn") == "iconv" for x in g["exprs"].values())}
        I = Interp(P, h, max_depth=3, budget=60000, effects=E, inline_filter=lambda g, fr: "/src/parser/" in g["file"] and (g.get("cls") == "UTF8CharBuffer" or g["usr"] in conv) and g is not f)
        I.esp = True
        I.joinkey = lambda st: frozenset((q, h.ok(I, st, q)) for q in st.ts if q[0] == "step")
        I.analyze(f)
        if h.seen - {"__errno_location"} != {"iconv", "iconv_open", "*"}: raise facts.AnalysisBroken("C09: reading and converting in %s not found: %s" % (f["qn"], sorted(h.seen)))
        R.ok("%s: %d returns" % (f["qn"], h.n), h.n)
        for k, (l, t) in sorted(h.bad.items()): R.violation(k, where(P, f, l), t)


def run():
    P = facts.load(("libsrcml", "parser"))
    pub = api.public(P)
    E = effects(P)
    R = Report("C09", "Every public function that answers with a status or a pointer, and every function of the translator and the reader that answers with success or failure, is followed along all of its paths; each "
               "result of a step that can fail (libxml2, libxslt, iconv, files, and the library's own steps) must be known not to be a failure at every return that may report success, and no return after a caught "
               "exception may report success.")
    small = {u for u, f in P.funcs.items() if "/src/libsrcml/" in f["file"]}
    roots = {u: f for n, f in pub.items() for u in [f["usr"]] if n not in SKIP and P.type(f["ret"])["k"] in ("int", "ptr") and (status(n, f, P) or P.type(f["ret"])["k"] == "ptr")}
    for u, f in P.funcs.items():
        if notmpl(f["qn"]) in FALSEFAIL and f.get("blocks"): roots[u] = f

    def one(u):
        f = P.funcs[u]
        h = None
        for d in (5, 4, 3, 2):
            h = Steps(f, P, pub)
            I = Interp(P, h, max_depth=d, budget=20000, effects=E,
                       inline_filter=lambda g, fr: g["usr"] in small and not h.kind(g["qn"]) and notmpl(g["qn"]) not in OPAQUE or
                       "UTF8CharBuffer" in g["qn"] and not h.kind(g["qn"]) or g.get("lambda") or "unique_ptr" in g["qn"] or "std::function" in g["qn"])
            I.esp = True
            I.joinkey = h.key
            try: I.analyze(f)
            except BudgetExceeded: continue
            return h.bad, h.sites, h.returns, d
        return None

    import time
    def timed(u):
        t0 = time.time(); r = one(u); return r, time.time() - t0
    res = pmap(timed, sorted(roots))
    sites = set()
    deep = []
    for u, (r, t) in zip(sorted(roots), res):
        f = P.funcs[u]
        if os.environ.get("C09T") and t > 1: print(f["qn"][:50], "%.1f" % t, r and r[3])
        if r is None: raise facts.AnalysisBroken("C09: the paths of %s were not followed" % f["qn"])
        bad, s, n, d = r
        sites |= s
        if s: R.ok("%s: %d fallible steps, %d successful returns" % (f["qn"].split("(")[0], len(s), n), max(n, 1))
        for k, (l, x) in sorted(bad.items()): R.violation(k, where(P, f, None), x + (" (line %s)" % l if l else ""))
    reading(P, E, R)
    R.require("steps that can fail", len(sites), 40)
    R.cov["functions"] = len(roots)
    R.assumptions = ["memory is available", "an error of an xmlTextWriter is reported by every later call on it, and one of an input by its next read"]
    return R.finish(P)
