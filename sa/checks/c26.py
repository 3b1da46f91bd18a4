"""C26: nothing of a source text is lost, doubled or moved on its way from the lexer to the writer."""
from .. import facts, guess, lexset, tokenflow, tokenout, tokenpos
from ..api import where
from ..effects import effects
from ..exc import Exc
from ..report import Report


def run():
    P = facts.load(("libsrcml", "parser", "gen"))
    E = effects(P)
    R = Report("C26", "The generated lexers are analysed on sets of characters: from the entry of nextToken() no character may be left that no rule matches, and no rule may change the text it matched or let its token be "
               "skipped. The token queues of StreamMLParser carry a typestate (empty, filled, moved from; current token queued or not) that is propagated through all its functions for every choice of queues and "
               "with and without guessing, exceptions included: each token consumed must have been queued once and behind everything before it, no queue may be emptied, overwritten or left behind. In the grammar every "
               "guess begun is ended on all ways out, exceptions included, and a token whose type is changed is the start of an element begun just before. The writer must write every token that is not in the table of "
               "elements as text once, and the table must not hold a token of the lexers except the one for control characters.")
    # lexers
    rules = 0
    for c in tokenout.LEXERS:
        L = lexset.Lex(P, c).run()
        rules += len(L.nrules)
        R.ok("%s: rules on every character" % c, len(L.nrules))
        for (kind, rule, line), m in sorted(L.bad.items()):
            if kind in ("match", "throw"): R.violation("%s|%s|%s" % (c, kind, rule), "%s::%s" % (c, rule), "%s::%s() gives up on the characters %s: the translation ends there and the rest of the text is lost" % (c, rule, lexset.show(m)))
            elif kind == "empty": R.violation("%s|%s|%s" % (c, kind, rule), "%s::%s" % (c, rule), "%s::%s() makes a token without taking a character" % (c, rule))
    bad, n = tokenout.lexer_text(P)
    R.ok("functions of the lexers that keep what they match", n)
    for f, l, k, t in bad: R.violation("text|%s" % k, where(P, f, l), "%s %s" % (f["qn"].split("(")[0], t))
    R.require("lexer rules", rules, 8)
    R.require("lexer functions", n, 30)
    # guesses
    X = Exc(P)
    G = guess.Guess(P, X, ("srcMLParser", "StreamMLParser") + tokenout.LEXERS)
    called = {x["fn"] for u, f in P.funcs.items() for x in f["exprs"].values() if "fn" in x and x["fn"] != u}
    R.ok("functions that guess", len(G.nfn))
    for (kind, qn), (f, l, t) in sorted(G.bad.items()):
        if f["usr"] not in called: continue
        R.violation("guess|%s|%s" % (kind, qn.split("(")[0]), where(P, f, l), "%s %s" % (qn.split("(")[0], t))
    R.require("functions that guess", len(G.nfn), 15)
    # queues
    W, bad, st = tokenflow.run(P, E)
    R.ok("tokens queued", st["pushes"])
    R.ok("tokens consumed", st["consumes"])
    for (kind, qn, line), (f, l, t) in sorted(bad.items(), key=str): R.violation("queue|%s|%s" % (kind, qn), where(P, f, l), "%s: %s" % (qn, t))
    R.require("token queues", len(W.queues), 2)
    R.require("functions through which the stream parser is entered", st["roots"], 8)
    R.require("tokens consumed", st["consumes"], 20)
    R.cov["choices of queues"] = st["scenarios"]
    R.cov["analysed entries"] = st["runs"]
    # the grammar
    O = tokenout.Out(P, E)
    T = tokenpos.Positions(P, W)
    R.ok("places that remember a token to change its type", T.sites)
    for (qn, l), (f, l2, t) in sorted(T.bad.items()): R.violation("position|%s" % qn, where(P, f, l2), "%s: %s" % (qn, t))
    bad, n = tokenpos.misuse(P, W, O.rows)
    R.ok("places where the grammar takes a token", n)
    for f, l, k, t in bad + tokenpos.base_once(P, W): R.violation("grammar|%s" % k, where(P, f, l), "%s %s" % (f["qn"].split("(")[0], t))
    R.require("places that remember a token to change its type", T.sites, 6)
    # the writer
    bad, ntok, nsink, nf = O.run()
    R.ok("tokens handed to the writer", ntok)
    for (kind, qn), (f, l, t) in sorted(bad.items()): R.violation("writer|%s|%s" % (kind, qn), where(P, f, l), "%s: %s" % (qn, t))
    R.require("functions that take tokens from the parser", nf, 1)
    R.require("texts written", nsink, 1)
    voc = {}
    for c in tokenout.LEXERS: voc.update({v: k for k, v in tokenout.vocabulary(P, c).items()})
    R.require("token types of the lexers", len(voc), 100)
    for v, (name, parts, line) in sorted(O.rows.items()):
        if v in voc and (v, v) not in W.escaped:
            if parts and parts[0]: R.violation("table|%s" % name, O.mapvar, "the table of elements has a row for %s, a token of the source (line %d): its text is not written" % (name, line))
        else: R.ok("row of the table of elements")
    for v in sorted(voc):
        if v in O.silent and v != O.eof: R.violation("table|silent", O.mapvar, "the writer leaves out a token of the source")
    R.assumptions = ["the antlr runtime keeps what it is documented to keep (characters matched are appended to the text of the token, match() consumes through the virtual consume())", "the grammar reaches the end of the input",
                     "characters reach the lexers as C16 and C01 decide"]
    return R.finish(P)
