"""C16: a sub graph is what its targets depend on, no more and no less."""
import subset
import vt


def main(prop):
    chk = vt.Check(prop)
    n = 4000 if chk.thorough else 800
    subset.mixes(chk, ["clk,comb,mem", "clk,hier,param,comb", "gen,range,func,comb", "clk,fields,loop,comb", "clk,gen,hier,mem,func", "dynsel,comb,range", "hier,param,gen"],
                 n, False)
    return chk.finish({"explanation": "random designs of all kinds, random targets: the sub graph against the dependencies in the graph"})
