"""Shared by the checks about the data flow analyzer: run sources through it and let TLC
compare the graph with the elaborated design (spec/CheckFlow)."""
import vt


def vectors(rng, n):
    v = [[0] * 4, [32767] * 4]
    while len(v) < n:
        v.append([rng.randrange(32768) for _ in range(37)])
    return v[:n]


def case(cid, src, r, mode, vecs, top="TOP"):
    return {"id": cid, "s": src, "c": [ord(x) for x in src], "top": top, "mode": mode, "vecs": vecs,
            "err": "" if not r["err"] else "%s: %s" % (r["err"], r.get("msg", "")),
            "terms": r.get("terms", []), "binds": r.get("binds", []), "insts": r.get("insts", []),
            "clocks": r.get("clocks", []), "same": r.get("same", True)}


def check(chk, srcs, mode=("values",), nvec=6, part=400, job=None):
    ids = sorted(srcs)
    for p in range(0, len(ids), part):
        sel = ids[p:p + part]
        res = chk.observe([dict({"id": i, "op": "dataflow", "src": srcs[i]}, **(job or {})) for i in sel])
        skip = [i for i in sel if res[i].get("skip")]
        chk.count("graphs_too_large_to_judge", len(skip))
        if len(skip) > len(sel) * 0.6:
            raise vt.MachineryError("%d of %d graphs too large or too slow" % (len(skip), len(sel)))
        sel = [i for i in sel if i not in set(skip)]
        cases = [case(i, srcs[i], res[i], list(mode), vectors(chk.rng, nvec)) for i in sel]
        v = chk.judge("CheckFlow", cases, {i: {"source": srcs[i]} for i in sel}, tag="_%d" % p)
        for i in sel:
            chk.count("traces_validated_against_impl")
            chk.count("binds_compared", len(res[i].get("binds", [])))
            if v[i].startswith("MACHINERY"):
                raise vt.MachineryError(i + " " + v[i] + "\n" + srcs[i])


def mixes(chk, feats, n, mode=("values",), sizes=(2, 3, 4, 5), nvec=6, prefix="r", job=None):
    """n random designs, cycling through the feature sets"""
    import gendf
    srcs = {}
    for i in range(n):
        f = feats[i % len(feats)]
        srcs["%s%d" % (prefix, i)] = gendf.D(chk.rng, f.split(","), chk.rng.choice(sizes)).design()
    check(chk, srcs, mode, nvec, job=job)
    chk.samples += [srcs[k] for k in sorted(srcs)[:1]]
    chk.count("random_designs", n)
