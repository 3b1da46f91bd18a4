"""The reachable abstract states of a unit, under every sequence of building it by element, parsing, querying and freeing."""
from .archsession import *
from .par import pmap

ARCH = ("p", "arch")
WRITE = ["srcml_write_start_element", "srcml_write_end_element", "srcml_write_namespace", "srcml_write_attribute", "srcml_write_string"]
GET = ["srcml_unit_get_srcml", "srcml_unit_get_srcml_outer", "srcml_unit_get_srcml_inner"]
PARSE = ["srcml_unit_parse_" + s for s in ("filename", "memory", "FILE", "fd", "io")]
UNPARSE = ["srcml_unit_unparse_" + s for s in ("filename", "memory", "FILE", "fd", "io")]
START, END, FREE = "srcml_write_start_unit", "srcml_write_end_unit", "srcml_unit_free"
OPENERS = {"xmlTextWriterStartElement", "xmlTextWriterStartElementNS"}
CLOSERS = {"xmlTextWriterEndElement", "xmlTextWriterFullEndElement"}


class UnitHooks(Res):
    """also counts the elements opened and closed on the writer"""
    def call(self, I, st, qn, args, x, fr):
        Res.call(self, I, st, qn, args, x, fr)
        d = I.P.decls.get(x.get("fn"), {})
        if d.get("sys", True) and (qn in OPENERS or qn in CLOSERS):
            n = st.ts.get(("bal",))
            if n is not None: st.ts[("bal",)] = max(-3, min(9, n + (1 if qn in OPENERS else -1)))
            k = ("n", "open" if qn in OPENERS else "close")
            st.ts[k] = min(9, st.ts.get(k, 0) + 1)


    def result(self, I, st, qn, val, x, fr):
        Res.result(self, I, st, qn, val, x, fr)
        # these only fail when memory runs out
        if qn in MEMORY and val[0] == "call" and I.P.decls.get(x.get("fn"), {}).get("sys", True): st.facts[val] = (NEG, POS, frozenset([0]))


MEMORY = {"xmlNewTextWriter", "xmlBufferCreate", "xmlBufferCreateSize", "xmlOutputBufferCreateBuffer", "xmlAllocOutputBuffer", "xmlBufferDetach"}


class UnitSession(Session):
    smallints = (-1, 1)
    noinline = ("srcMLOutput", "srcml_sax2_reader", "srcml_reader_handler", "srcSAXController", "StreamMLParser", "KeywordLexer", "antlr")

    def inline(self, f, fr):
        if f["qn"] in ("srcml_translator::translate", "srcml_translator::add_unit"): return False
        if f.get("cls") == "srcml_translator" and f["qn"] not in self.opaque: return True
        return Session.inline(self, f, fr)


def one(P, pub, S, hooks, mode, st, name):
    """one public function on one abstract state"""
    node = (mode, S.key(st))
    f = pub[name]
    h = hooks(name, OPAQUE)
    S.functions = set()
    steps = []
    outs = S.step(f, State(dict(st.mem), dict(st.facts), ts=dict(st.ts)), opargs(P, f), h, name)
    viol = [("%s|%s|%s" % (name, key, fn["qn"]), (api.where(P, fn, line), "%s: %s in %s" % (name, text, fn["qn"]), chain)) for key, fn, line, text, chain in h.viol]
    for o in outs:
        if o.kind not in ("ret", "exc"): continue
        bal = o.st.ts.get(("bal",))
        dst, leaks = S.canon(o.st, OBJLOC, given=o.val)
        dst.mem[("f", OBJLOC, "archive")] = ARCH
        dst.facts[ARCH] = (NEG, POS, frozenset([0]))
        ok = o.kind == "ret" and (o.val is None or o.st.truth(o.val) == 0)
        nm = mode
        if name == START and ok: nm, bal = "started", 0
        elif (name == END or name in PARSE) and ok: nm, bal = "built", None
        elif name in PARSE or name == START: nm = "failed"
        elif name == END and mode == "started": nm = "failed"
        if bal is not None and -1 <= bal <= 1 and nm == "started": dst.ts[("bal",)] = bal
        k = (nm, S.key(dst))
        steps.append(Step(mode=mode, src=st, name=name, out=o, dst=dst, leaks=leaks, newmode=nm, how=None, srcnode=node, dstnode=None if name == FREE else k))
    return steps, viol, S.functions


def explore_unit(P, pub, names=None, hooks=UnitHooks):
    S = UnitSession(P, "srcml_unit", opaque=OPAQUE)
    steps, viol = [], {}

    def note(h, name):
        for key, f, line, text, chain in h.viol:
            viol.setdefault("%s|%s|%s" % (name, key, f["qn"]), (api.where(P, f, line), "%s: %s in %s" % (name, text, f["qn"]), chain))

    h = hooks("create", OPAQUE)
    start = None
    for o in S.step(pub["srcml_unit_create"], None, {0: ARCH}, h, "create", obj=None):
        if o.kind != "ret" or o.val is None or o.val[0] != "addr": continue
        o.st.ts = {}
        start, leaks = S.canon(o.st, o.val[1])
        start.mem[("f", OBJLOC, "archive")] = ARCH
        start.facts[ARCH] = (NEG, POS, frozenset([0]))
    note(h, "srcml_unit_create")
    if start is None: raise facts.AnalysisBroken("srcml_unit_create creates nothing")
    names = names or WRITE + GET + UNPARSE + PARSE + [START, END, FREE]
    seen = {("fresh", S.key(start))}
    wave = [("fresh", start)]
    while wave:
        jobs = [(mode, st, name) for mode, st in wave for name in names]
        wave = []
        for out, v, fns in pmap(lambda j: one(P, pub, S, hooks, *j), jobs):
            for k, w in v: viol.setdefault(k, w)
            S.functions |= fns
            for s in out:
                steps.append(s)
                k = s.dstnode
                if k is not None and k not in seen:
                    seen.add(k)
                    if len(seen) > 3000: raise facts.AnalysisBroken("too many unit states")
                    wave.append((k[0], s.dst))
    S.states = len(seen)
    return S, steps, viol, start
