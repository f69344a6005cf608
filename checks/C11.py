"""C11: the data flow graph of a hierarchy: instances, parameters, generate constructs."""
import flow
import vt


def main(prop):
    chk = vt.Check(prop)
    flow.mixes(chk, ["hier", "gen,param", "hier,gen,param", "hier,param,range", "hier,clk", "gen,clk,param", "hier,comb,readback",
                     "gen,dynsel,param", "hier,func"], 6000 if chk.thorough else 900)
    return chk.finish({})
