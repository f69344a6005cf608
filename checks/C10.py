"""C10: the data flow graph of edge triggered blocks gives the next state."""
import flow
import named
import stmts
import vt


def main(prop):
    chk = vt.Check(prop)
    pr = stmts.programs(chk, 8 if chk.thorough else 7, "<=", False)
    flow.check(chk, stmts.pack(pr, True), nvec=10)
    flow.check(chk, named.C10, nvec=30)
    tg = stmts.targets(chk, 3)
    if not chk.thorough:
        tg = chk.rng.sample(tg, 2000)
    flow.check(chk, stmts.pack_targets(tg, "ff"), nvec=6)
    flow.mixes(chk, ["clk", "clk,mem", "clk,fields", "clk,mem,fields,range", "clk,comb,readback", "clk,loop", "clk,func,comb",
                     "clk,param,dynsel"], 6000 if chk.thorough else 800)
    return chk.finish({"targets_enumerated": len(tg), "programs_enumerated": len(pr),
                       "explanation": "all statement programs spec/StmtGen builds in that many steps (nonblocking assignments under "
                                      "nested if/else/case/blocks), and random clocked designs with resets and memories"})
