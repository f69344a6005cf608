"""C01: expressions denote the tree IEEE 1364 precedence/associativity gives them."""
import itertools

import gensyn
import parsing
import vt
from gensyn import BIN, UN

N1 = ["a", "b", "c", "d", "e"]


def forms(thorough):
    """token lists (as strings joined by blanks) enumerated exhaustively"""
    b = sorted(BIN.values())
    u = sorted(UN.values())
    for p in b:
        yield "a %s b" % p
    for p, q in itertools.product(b, b):
        yield "a %s b %s c" % (p, q)
        yield "a %s ( b %s c )" % (p, q)
        yield "( a %s b ) %s c" % (p, q)
    for p, q in itertools.product(u, b):
        yield "%s a %s b" % (p, q)
        yield "a %s %s b" % (q, p)
        yield "%s ( a %s b )" % (p, q)
    for p, q in itertools.product(u, u):
        yield "%s %s a" % (p, q)
    for p in b:
        yield "a %s b ? c : d" % p
        yield "a ? b %s c : d" % p
        yield "a ? b : c %s d" % p
        yield "a %s ( b ? c : d )" % p
        yield "( a ? b : c ) %s d" % p
        yield "{ a %s b , c }" % p
        yield "{ 2 { a %s b } }" % p
        yield "{ a %s b { c } }" % p
        yield "a [ b %s c ]" % p
        yield "a [ b %s c : d ]" % p
        yield "a [ b : c %s d ]" % p
        yield "a [ b %s c +: d ]" % p
        yield "a [ b -: c %s d ]" % p
        yield "f ( a %s b , c )" % p
    for p in u:
        yield "%s a ? b : c" % p
        yield "%s { a , b }" % p
        yield "%s a [ b ]" % p
        yield "%s f ( a )" % p
    yield "a ? b : c ? d : e"
    yield "a ? b ? c : d : e"
    yield "( a ? b : c ) ? d : e"
    if thorough:
        for p, q, r in itertools.product(b, b, b):
            yield "a %s b %s c %s d" % (p, q, r)
        for p, q, r in itertools.product(b, u, b):
            yield "a %s %s b %s c" % (p, q, r)


def main(prop):
    chk = vt.Check(prop)
    rng = chk.rng
    ex = list(forms(chk.thorough))
    texts = {}
    n = 60
    for i in range(0, len(ex), n):
        texts["x%d" % (i // n)] = "module m;\n" + "\n".join("assign y%d = %s ;" % (k, e)
                                                            for k, e in enumerate(ex[i:i + n])) + "\nendmodule\n"
    for i in range(1500 if chk.thorough else 150):
        g = gensyn.G(rng, 4)
        g.nid = 0
        toks = [gensyn.K("module"), gensyn.ID("m"), gensyn.P("SEMICOLON")]
        k = rng.randint(2, 6)
        for _ in range(k):
            chk.count("random_expressions")
            toks += [gensyn.K("assign"), gensyn.ID("y"), gensyn.P("EQUALS")] + g.expr(rng.randint(2, 5)) + [gensyn.P("SEMICOLON")]
        texts["r%d" % i] = gensyn.layout(toks + [gensyn.K("endmodule")], rng)
    parsing.check(chk, texts, "tree", "accept")
    chk.samples = ex[:2] + ex[-2:]
    return chk.finish({"expressions_enumerated": len(ex),
                       "explanation": "every pair of binary operators in all groupings, every unary/binary and "
                                      "unary/unary pair, operators in every operand position; plus random deep expressions"})
