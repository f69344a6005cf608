"""Programs enumerated by the specification StmtGen, packed into modules."""
import re


def programs(chk, maxlen, op, reads):
    cfg = ('SPECIFICATION Spec\nINVARIANT Balanced\nCONSTANTS MaxLen = %d Op = "%s" Reads = %s\nCHECK_DEADLOCK FALSE\n'
           % (maxlen, op, "TRUE" if reads else "FALSE"))
    lines, _ = chk.tlc("StmtGen", cfg=cfg, tag="_%d%s" % (maxlen, "r" if reads else ""))
    return sorted(set(l.split("|", 1)[1] for l in lines))


def pack(progs, clocked, per=30):
    """{id: source}: modules of always blocks, one per program"""
    out = {}
    for k in range(0, len(progs), per):
        decl, body = [], []
        for i, p in enumerate(progs[k:k + per]):
            t = re.sub(r"\b([pq])\b", lambda m: m.group(1) + str(i), p)
            used = [v for v in ("p", "q") if re.search(r"\b%s\b" % v, p)]
            decl += ["reg [3:0] %s%d;" % (v, i) for v in used]
            if clocked:
                body.append("always @(posedge CLK) begin %s end" % t)
            else:
                body.append("always @(*) begin %s %s end" % (" ".join("%s%d = %d;" % (v, i, 8 + len(used) * (v == "q")) for v in used), t))
        out["e%d" % (k // per)] = "module TOP (CLK, c, d, s);\ninput CLK, c, d;\ninput [1:0] s;\n%s\n%s\nendmodule\n" % (
            "\n".join(decl), "\n".join(body))
    return out


def expressions(chk, deep):
    cfg = "SPECIFICATION Spec\nCONSTANT Deep = %s\nCHECK_DEADLOCK FALSE\n" % ("TRUE" if deep else "FALSE")
    lines, _ = chk.tlc("ExprGen", cfg=cfg, tag="_deep" if deep else "")
    return sorted(set(lines))


def pack_expr(exprs, per=40):
    out = {}
    for k in range(0, len(exprs), per):
        sel = exprs[k:k + per]
        out["x%d" % (k // per)] = "module TOP (a, b, c, d, e);\ninput [3:0] a, b, c, d;\ninput e;\n%s\nendmodule\n" % "\n".join(
            "wire [5:0] y%d;\nassign y%d = %s;" % (i, i, t) for i, t in enumerate(sel))
    return out


def optimizable(chk, part):
    cfg = 'SPECIFICATION Spec\nCONSTANT Part = "%s"\nCHECK_DEADLOCK FALSE\n' % part
    lines, _ = chk.tlc("OptGen", cfg=cfg, tag="_" + part)
    return sorted(set(lines))


def pack_opt(exprs, per=40, tag="o"):
    out = {}
    for k in range(0, len(exprs), per):
        sel = exprs[k:k + per]
        out["%s%d" % (tag, k // per)] = ("module TOP (a, b, c, d, e, f, u, v);\ninput [3:0] a, b, c, d;\ninput e, f;\ninput [0:3] u;\n"
            "input [4:1] v;\nparameter K = 5;\nlocalparam [4:1] L = 4'd6;\n%s\nendmodule\n" % "\n".join(
                "wire [11:0] y%d;\nassign y%d = %s;" % (i, i, t) for i, t in enumerate(sel)))
    return out


def cuts(n=6):
    """a concatenation of n bits taken apart at every pair of positions"""
    src = ["{a, b[1:0]}", "{e, a, f}", "{b[2:1], 4'd9}", "{u[0:1], v}", "{e, f, a[3:2], 2'd1}", "(e ? {a, b[1:0]} : {c[1:0], d})"]
    out, k = {}, 0
    for s in src:
        decl, body = [], []
        for i in range(1, n):
            for j in range(i, n):
                w = [n - j, j - i, i]
                t = []
                for m, x in enumerate(w):
                    if x:
                        decl.append("wire [%d:0] y%d_%d;" % (x - 1, k, m))
                        t.append("y%d_%d" % (k, m))
                body.append("assign {%s} = %s;" % (", ".join(t), s))
                k += 1
        out["c%d" % len(out)] = ("module TOP (a, b, c, d, e, f, u, v);\ninput [3:0] a, b, c, d;\ninput e, f;\ninput [0:3] u;\n"
            "input [4:1] v;\n%s\n%s\nendmodule\n" % ("\n".join(decl), "\n".join(body)))
    return out


def targets(chk, maxlen):
    lines, _ = chk.tlc("TargetGen", cfg="SPECIFICATION Spec\nCONSTANT Max = %d\nCHECK_DEADLOCK FALSE\n" % maxlen, tag="_%d" % maxlen)
    return sorted(set(lines))


def pack_targets(lines, how, per=40):
    """how: assign, comb (always @*) or ff (always @(posedge CLK))"""
    out = {}
    rng = {"p": "[3:0] ", "q": "[0:3] ", "r": "[5:2] ", "s": ""}
    for k in range(0, len(lines), per):
        decl, body = [], []
        for i, l in enumerate(lines[k:k + per]):
            t, s = l.split("|")
            for v in "pqrs":
                if v + "#" in t:
                    decl.append("%s %s%s%d;" % ("wire" if how == "assign" else "reg", rng[v], v, i))
            t = t.replace("#", str(i))
            body.append({"assign": "assign %s = %s;", "comb": "always @(*) %s = %s;",
                         "ff": "always @(posedge CLK) %s <= %s;"}[how] % (t, s))
        out["%s%d" % (how[0], k // per)] = (
            "module TOP (CLK, a, u, e, f, g, h, k);\ninput CLK, e, f;\ninput [3:0] a;\ninput [0:3] u;\ninput [7:0] g;\n"
            "input [0:7] h;\ninput [9:2] k;\n%s\n%s\nendmodule\n" % ("\n".join(decl), "\n".join(body)))
    return out
