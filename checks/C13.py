"""C13: the clock and reset of every state signal."""
import flow
import vt


def main(prop):
    chk = vt.Check(prop)
    flow.mixes(chk, ["clk", "clk,mem", "clk,hier", "clk,gen,param", "clk,fields", "clk,loop", "clk,comb,readback"],
               8000 if chk.thorough else 1600, mode=("clocks",), nvec=0)
    return chk.finish({})
