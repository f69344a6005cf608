"""C04: text outside the language is rejected with ParseError; nothing is repaired silently."""
import itertools

import gensyn
import parsing
import vt


def main(prop):
    chk = vt.Check(prop)
    rng = chk.rng
    texts = {}
    for i in range(9000 if chk.thorough else 4000):
        g = gensyn.G(rng, rng.choice([1, 1, 2]))
        toks = g.source()
        for _ in range(rng.choice([1, 1, 1, 2])):
            toks = gensyn.mutate(toks, rng)
        texts["m%d" % i] = gensyn.layout(toks, rng, comments=0)
    # every sequence of up to three signal types (four in the thorough run for declarations)
    kinds = ["input", "output", "inout", "wire", "reg", "tri", "signed", "supply0", "supply1"]
    for n in (1, 2, 3) + ((4,) if chk.thorough else ()):
        for q in itertools.product(kinds, repeat=n):
            if n == 4 and sum(1 for x in q if x.startswith("supply")):
                continue
            t, i = " ".join(q), "-".join(q)
            texts["decl-" + i] = "module m;\n%s %sa;\nendmodule\n" % (t, "[3:0] " if len(i) % 2 else "")
            if n < 4:
                texts["port-" + i] = "module m(%s %sa, b);\nendmodule\n" % (t, "[3:0] " if len(i) % 2 else "")
                if n < 3 or chk.thorough or not len(i) % 3:
                    texts["decla-" + i] = "module m;\n%s a = 1;\nendmodule\n" % t
    texts["delay-if"] = "module m;\ninitial begin\n#5 if (a) b = 1;\nend\nendmodule\n"
    parsing.check(chk, texts, "tree")
    chk.samples = [texts["m%d" % i] for i in range(2)]
    return chk.finish({})
