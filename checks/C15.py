"""C15: the state machines, loops and active conditions of the control flow analyzer are those of the design."""
import fsm
import genfsm
import named
import vt


def main(prop):
    chk = vt.Check(prop)
    deep = chk.thorough
    fsm.check(chk, named.C15, nvec=24)
    gs = genfsm.guards(chk)
    n = len(gs)
    if not deep:
        gs = chk.rng.sample(gs, 5000)
    fsm.check(chk, genfsm.pack(gs), nvec=16)
    fsm.check(chk, {"r%d" % i: genfsm.F(chk.rng).design() for i in range(6000 if deep else 700)})
    fsm.check(chk, {"l%d" % i: genfsm.ring(chk.rng) for i in range(600 if deep else 80)}, nvec=12)
    return chk.finish({"guards_enumerated": n, "guards_checked": len(gs),
                       "explanation": "state machines for guards enumerated by spec/FsmGen, and random ones (one or two processes, reset, "
                                      "named states, helper wires, instances), and long cycles; each in all states with random inputs and registers"})
