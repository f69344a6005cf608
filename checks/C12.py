"""C12: the tables of signals, constants and instances."""
import flow
import vt


def main(prop):
    chk = vt.Check(prop)
    flow.mixes(chk, ["hier", "gen,param", "hier,gen,param,range", "clk,mem,range", "comb,loop,param", "hier,clk,mem", "comb,func,range",
                     "gen,clk,param,mem"], 8000 if chk.thorough else 1600, mode=("terms",), nvec=0)
    return chk.finish({})
