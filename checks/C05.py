"""C05: line numbers and compiler directives."""
import gensyn
import parsing
import vt

DIRS = ["`timescale 1ns / 1ps", "`default_nettype none", "`default_nettype wire", "`default_nettype  none // why",
        "`celldefine", "`endcelldefine", "`resetall", "`unconnected_drive pull1", "`default_nettype tri"]


def main(prop):
    chk = vt.Check(prop)
    rng = chk.rng
    texts = {}
    for i in range(12000 if chk.thorough else 2500):
        g = gensyn.G(rng, rng.choice([1, 2]))
        g.uplus = False
        src = gensyn.layout(g.source(), rng, newline=0.25, comments=0.06, odd=0.5)
        if i % 2:
            # directives on lines of their own, anywhere between tokens that start a line
            k = rng.randint(1, 3)
            g2 = []
            for _ in range(k):
                g = gensyn.G(rng, 1)
                g.uplus = False
                g2.append(gensyn.layout(g.module(), rng, comments=0))
            parts = []
            for m in g2:
                if rng.random() < 0.8:
                    parts.append("".join(rng.choice(DIRS) + "\n" * rng.randint(1, 3) for _ in range(rng.randint(1, 2))))
                parts.append(m.replace("module mod", "module q%d_mod" % len(parts), 1))
            if rng.random() < 0.5:
                parts.append(rng.choice(DIRS) + "\n")
            src = "".join(parts) if rng.random() < 0.7 else "".join(parts) + src
        texts["l%d" % i] = src
    parsing.check(chk, texts, "lines")
    chk.samples = [texts["l%d" % i] for i in range(2)]
    return chk.finish({})
