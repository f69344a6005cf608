"""C09: the data flow graph of combinational always blocks and functions."""
import flow
import named
import stmts
import vt


def main(prop):
    chk = vt.Check(prop)
    pr = stmts.programs(chk, 6 if chk.thorough else 5, "=", True)
    flow.check(chk, stmts.pack(pr, False), nvec=10)
    flow.check(chk, named.C09, nvec=30)
    tg = stmts.targets(chk, 3)
    if not chk.thorough:
        tg = chk.rng.sample(tg, 2000)
    flow.check(chk, stmts.pack_targets(tg, "comb"), nvec=6)
    flow.mixes(chk, ["comb", "comb,readback", "comb,fields", "comb,readback,fields,range", "comb,loop,readback", "comb,func", "func,param",
                     "comb,func,loop,dynsel"], 6000 if chk.thorough else 800)
    return chk.finish({"targets_enumerated": len(tg), "programs_enumerated": len(pr),
                       "explanation": "all statement programs spec/StmtGen builds in that many steps (blocking assignments that "
                                      "read the registers, nested if/else/case/blocks), and random always @* blocks and functions"})
