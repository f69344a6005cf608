"""C14: constant resolution and optimization of a data flow graph preserve its meaning."""
import flow
import named
import stmts
import vt

JOB = {"op": "optimized"}


def main(prop):
    chk = vt.Check(prop)
    deep = chk.thorough
    srcs, n = {}, 0
    for part, quick in (("pairs", 4000), ("logic", 4000), ("selects", 3150), ("consts", 4000)):
        ex = stmts.optimizable(chk, part)
        if not deep and len(ex) > quick:
            ex = chk.rng.sample(ex, quick)
        n += len(ex)
        srcs.update(stmts.pack_opt(ex, 40, part))
    srcs.update(stmts.cuts())
    flow.check(chk, srcs, nvec=10, job=JOB)
    flow.check(chk, named.C14, nvec=20, job=JOB)
    st = stmts.expressions(chk, False)
    flow.check(chk, stmts.pack_expr(st if deep else chk.rng.sample(st, 800)), nvec=8, job=JOB)
    flow.mixes(chk, ["", "param,range", "dynsel,range", "comb", "comb,func", "clk,mem", "clk,param,dynsel", "hier,param", "gen,param"],
               5000 if deep else 500, job=JOB)
    return chk.finish({"expressions_enumerated": n,
                       "explanation": "expressions enumerated by spec/OptGen (every pair of operands and operators an optimizer may "
                                      "simplify, combinations of logical operators, adjacent and nested selects, constant operands), "
                                      "parts of concatenations at every position, and random designs; every bind of the resolved "
                                      "graph is optimized and the graph evaluated"})
