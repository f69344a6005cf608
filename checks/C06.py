"""C06: code generated from a syntax tree denotes that tree."""
import importlib

import gensyn
import vt


def main(prop):
    chk = vt.Check(prop)
    rng = chk.rng
    texts = {}
    forms = list(importlib.import_module("C01").forms(chk.thorough))
    n = 60
    for i in range(0, len(forms), n):
        part = forms[i:i + n]
        body = "\n".join("assign y%d = %s ;" % (k, e) for k, e in enumerate(part))
        rng_ = "\n".join("wire [ %s : %s ] w%d ;" % (e, part[-1 - k], k) for k, e in enumerate(part[:20])
                         if "?" not in e)
        rest = part[20:40]
        if rest:
            rng_ += "\nalways @ ( * ) begin\n" + "\n".join(
                "x [ %s ] = y ; if ( %s ) x = 1 ; for ( i = %s ; %s ; i = %s ) x = y [ %s : 0 ] ;" % (e, e, e, e, e, e)
                for e in rest) + "\nend"
        texts["x%d" % (i // n)] = "module m;\n" + body + "\n" + rng_ + "\nendmodule\n"
    for i in range(9000 if chk.thorough else 3000):
        g = gensyn.G(rng, rng.choice([1, 2, 3]))
        texts["r%d" % i] = gensyn.layout(g.source(), rng)
    ids = sorted(texts)
    for p in range(0, len(ids), 1500):
        sel = ids[p:p + 1500]
        res = chk.observe([{"id": i, "op": "codegen", "src": texts[i]} for i in sel])
        cases = []
        for i in sel:
            r, o = res[i], res[i].get("out", "")
            cases.append({"id": i, "s": texts[i], "c": [ord(x) for x in texts[i]], "err": r["err"],
                          "o": o, "oc": [ord(x) for x in o]})
            chk.count("traces_validated_against_impl" if o else "rejected")
        chk.judge("CheckCodegen", cases, {i: {"source": texts[i], "generated": res[i].get("out")} for i in sel},
                      tag=str(p))
    chk.samples = [texts["r0"]]
    return chk.finish({"expressions_enumerated": len(forms)})
