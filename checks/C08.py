"""C08: the data flow graph of continuous assignments computes the values of the design."""
import flow
import stmts
import vt


def main(prop):
    chk = vt.Check(prop)
    ex = stmts.expressions(chk, False)
    deep = stmts.expressions(chk, True)
    if not chk.thorough:
        deep = chk.rng.sample(deep, 8000)
    srcs = stmts.pack_expr(ex + deep)
    flow.check(chk, srcs, nvec=8)
    tg = stmts.targets(chk, 3)
    if not chk.thorough:
        tg = chk.rng.sample(tg, 4000)
    flow.check(chk, stmts.pack_targets(tg, "assign"), nvec=6)
    flow.mixes(chk, ["", "param,range", "dynsel", "range,dynsel", "param"], 6000 if chk.thorough else 900)
    return chk.finish({"targets_enumerated": len(tg), "expressions_enumerated": len(ex) + len(deep),
                       "explanation": "expressions enumerated by spec/ExprGen and random modules of continuous assignments "
                                      "(whole, partial, concatenated and computed targets, ascending and offset ranges, "
                                      "constant and variable selects, parameters), each on 6-8 input vectors"})
