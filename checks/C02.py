"""C02: every construct of an accepted source reaches the syntax tree."""
import gensyn
import parsing
import vt


def main(prop):
    chk = vt.Check(prop)
    rng = chk.rng
    texts = {}
    for i in range(12000 if chk.thorough else 4000):
        g = gensyn.G(rng, rng.choice([1, 2, 3]))
        texts["r%d" % i] = gensyn.layout(g.source(), rng)
    # found by reading the grammar: constructs that are accepted but lose something
    texts["logic-decl"] = "module m;\nlogic a;\nlogic [3:0] b, c;\nendmodule\n"
    texts["logic-port"] = "module m(input logic a, output logic b);\nendmodule\n"

    parsing.check(chk, texts, "tree")
    chk.samples = [texts["r%d" % i] for i in range(2)]
    return chk.finish({})
