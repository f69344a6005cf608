"""Shared by the check of the control flow analyzer: run designs through it and let TLC
compare its machines with the next state function of the design (spec/CheckFsm)."""
import flow
import vt


def check(chk, designs, nvec=8, part=250):
    ids = sorted(designs)
    for p in range(0, len(ids), part):
        sel = ids[p:p + part]
        res = chk.observe([{"id": i, "op": "fsm", "src": designs[i]["src"], "watch": designs[i]["watch"]} for i in sel])
        chk.count("designs_too_large_to_judge", len([i for i in sel if res[i].get("skip")]))
        sel = [i for i in sel if not res[i].get("skip")]
        cases = []
        for i in sel:
            d, r = designs[i], res[i]
            fsms = [f for f in r.get("fsms", []) if f["delay"] == 0]
            cases.append({"id": i, "s": d["src"], "c": [ord(x) for x in d["src"]], "top": "TOP",
                          "err": "" if not r["err"] else "%s: %s" % (r["err"], r.get("msg", "")), "terms": r.get("terms", []), "binds": [],
                          "fsms": fsms, "act": r.get("act", []), "rst": d["rst"], "want": d.get("want", []),
                          "full": True, "vecs": flow.vectors(chk.rng, nvec)})
            chk.count("machines", len(fsms))
            chk.count("transitions_of_machines", sum(len(f["trans"]) + len(f["any"]) for f in fsms))
            chk.count("loops", sum(len(f["loops"]) for f in fsms))
            chk.count("active_conditions", len(r.get("act", [])))
        v = chk.judge("CheckFsm", cases, {i: {"source": designs[i]["src"]} for i in sel}, tag="_%d" % p)
        for i in sel:
            chk.count("traces_validated_against_impl")
            if v[i].startswith("MACHINERY"):
                raise vt.MachineryError(i + " " + v[i] + "\n" + designs[i]["src"])
