"""Shared by the checks of sub graphs and of the code generated from them: run designs through
VerilogSubset and VerilogCodeGenerator and let TLC judge the result (spec/CheckSubset)."""
import flow
import gendf
import vt


def check(chk, srcs, code, nvec=4, part=300, clk="CLK", rst="RST", whole=False):
    ids = sorted(srcs)
    for p in range(0, len(ids), part):
        sel = ids[p:p + part]
        pick = {i: [] if whole else [chk.rng.randrange(1000) for _ in range(chk.rng.choice([0, 1, 1, 1, 2, 3, 5]))] for i in sel}
        res = chk.observe([{"id": i, "op": "subset", "src": srcs[i], "pick": pick[i], "clk": clk, "rst": rst, "code": code} for i in sel])
        chk.count("graphs_too_large_to_judge", len([i for i in sel if res[i].get("skip")]))
        sel = [i for i in sel if not res[i].get("skip")]
        cases = []
        for i in sel:
            r = res[i]
            c = flow.case(i, srcs[i], r, ["values"], flow.vectors(chk.rng, nvec))
            t = r.get("code", "")
            c.update({"sub": r.get("sub", []), "sources": r.get("sources", []), "targets": r.get("targets", []),
                      "map": [[n, "Subset." + m] for n, m in r.get("map", [])], "code": t, "cc": [ord(x) for x in t], "clk": clk, "rst": rst})
            cases.append(c)
            chk.count("binds_compared", len(c["sub"]))
        v = chk.judge("CheckSubset", cases, {i: {"source": srcs[i], "targets": res[i].get("targets", []), "code": res[i].get("code", "")} for i in sel}, tag="_%d" % p)
        for i in sel:
            chk.count("traces_validated_against_impl")
            if v[i].startswith("MACHINERY"):
                raise vt.MachineryError(i + " " + v[i] + "\n" + srcs[i])


def mixes(chk, feats, n, code, prefix="r"):
    srcs = {}
    for i in range(n):
        srcs["%s%d" % (prefix, i)] = gendf.D(chk.rng, feats[i % len(feats)].split(","), chk.rng.choice((2, 3, 4, 5))).design()
    check(chk, srcs, code)
    chk.samples += [srcs[k] for k in sorted(srcs)[:1]]
    chk.count("random_designs", n)
