"""C17: the module generated from a sub graph computes what the design computes."""
import named
import subset
import vt


def main(prop):
    chk = vt.Check(prop)
    n = 3000 if chk.thorough else 500
    subset.check(chk, named.C17, True, whole=True)
    subset.mixes(chk, ["noconcat,clk,comb,mem", "noconcat,clk,hier,param,comb", "noconcat,gen,range,func,comb", "noconcat,clk,fields,loop,comb",
                       "noconcat,clk,gen,hier,mem,func", "noconcat,dynsel,comb,range", "noconcat,hier,param,gen", "noconcat,clk,range,fields"], n, True)
    return chk.finish({"explanation": "random designs of all kinds, random targets or the whole design: the generated module against the design, "
                                      "values after settling and after a clock edge, clocks and resets of registers"})
