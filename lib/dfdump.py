"""Projection of a data flow graph (terms, binds) to plain data for the specifications.

Names become <top>.<inst>...<name>; labels of generate blocks and loops are kept as
<label> and <label>[<i>], the implementation's own frames (always0, if3, ...) dropped."""
import re

NONE = {"k": "None", "s": "", "c": [], "v": 0, "w": 0}
DROP = ("generate", "if", "always", "initial", "while")


def flat(chain):
    out, loop = [], None
    labels = list(chain)
    for n, l in enumerate(labels):
        if n == len(labels) - 1:
            out.append(l.scopename)
        elif l.scopetype in DROP:
            continue
        elif l.scopetype == "for":
            loop = l.scopeloop
        else:
            out.append(l.scopename + ("" if loop is None else "[%s]" % loop))
            loop = None
    if loop is not None:
        out.insert(-1, "[%s]" % loop)
    return ".".join(out)


def node(k, s="", c=(), v=0, w=0):
    return {"k": k, "s": s, "c": list(c), "v": v, "w": w}


class TooBig(Exception):
    pass


LIMIT = 8000        # nodes of one graph
count = [0]


def tree(t):
    count[0] += 1
    if count[0] > LIMIT:
        raise TooBig()
    if t is None:
        return NONE
    k = type(t).__name__
    if k == "DFIntConst":
        return node("Int", str(t.value).replace("_", ""))
    if k in ("DFFloatConst", "DFStringConst"):
        return node("Text", str(t.value))
    if k == "DFEvalValue":
        if not isinstance(t.value, int) or isinstance(t.value, bool):
            return node("Text", str(t.value))
        return node("Val", "", (), t.value % (1 << 30), t.width)
    if k == "DFUndefined":
        return node("Undef", w=t.width if isinstance(t.width, int) else -1)
    if k == "DFHighImpedance":
        return node("Highz", w=t.width if isinstance(t.width, int) else -1)
    if k == "DFTerminal":
        return node("Term", flat(t.name) if t.name is not None else "?")
    if k == "DFBranch":
        return node("Branch", "", [tree(t.condnode), tree(t.truenode), tree(t.falsenode)])
    if k == "DFOperator":
        return node("Op", t.operator, [tree(n) for n in t.nextnodes])
    if k == "DFPartselect":
        return node("Partselect", "", [tree(t.var), tree(t.msb), tree(t.lsb)])
    if k == "DFPointer":
        return node("Pointer", "", [tree(t.var), tree(t.ptr)])
    if k == "DFConcat":
        return node("Concat", "", [tree(n) for n in t.nextnodes])
    return node("Other:" + k)


def names(t, acc):
    if t["k"] == "Term":
        acc.add(t["s"])
    for c in t["c"]:
        names(c, acc)
    return acc


def local(chain):
    """declared inside a function, task or procedural block"""
    return any(l.scopetype in ("function", "functioncall", "task", "taskcall", "always", "initial") for l in list(chain)[:-1])


def term(t):
    return {"n": flat(t.name), "ty": sorted(t.termtype), "msb": tree(t.msb), "lsb": tree(t.lsb),
            "loc": local(t.name), "dims": [] if t.dims is None else [[tree(a), tree(b)] for a, b in t.dims]}


def bind(b):
    p = "comb"
    if b.parameterinfo in ("parameter", "localparam"):
        p = "par"
    elif b.isClockEdge():
        p = "clk"
    return {"n": flat(b.dest), "msb": tree(b.msb), "lsb": tree(b.lsb), "ptr": tree(b.ptr), "tree": tree(b.tree), "p": p}


def order(binds):
    """a topological order of the combinational binds where there is one (only a hint)"""
    by = {}
    for i, b in enumerate(binds):
        by.setdefault(b["n"], []).append(i)
    out, state = [], {}

    def visit(i):
        stack = [(i, None)]
        while stack:
            i, it = stack.pop()
            if it is None:
                if i in state:
                    continue
                state[i] = 1
                b = binds[i]
                deps = set()
                for x in ("tree", "ptr", "msb", "lsb"):
                    names(b[x], deps)
                if b["p"] == "clk":
                    deps = set()
                it = iter([j for n in sorted(deps) for j in by.get(n, [])])
            nxt = next(it, None)
            if nxt is None:
                state[i] = 2
                out.append(i)
                continue
            stack.append((i, it))
            if nxt not in state:
                stack.append((nxt, None))
    for i in range(len(binds)):
        visit(i)
    return [binds[i] for i in out]


def always(b):
    a = b.alwaysinfo
    if a is None:
        return None
    f = lambda x: "" if x is None else (flat(x) if not isinstance(x, str) else x)
    return {"clk": f(b.getClockName()), "ce": b.getClockEdge() or "", "cb": b.getClockBit() or 0,
            "rst": f(b.getResetName()), "re": b.getResetEdge() or "", "rb": b.getResetBit() or 0}


def graph(terms, binddict):
    """raises TooBig for graphs that are too large to judge"""
    count[0] = 0
    ts = [term(t) for t in terms.values()]
    bs, cl = [], []
    for n, lst in binddict.items():
        for b in lst:
            bs.append(bind(b))
            a = always(b)
            if a is not None:
                a["n"] = flat(b.dest)
                cl.append(a)
    return {"terms": ts, "binds": order(bs), "clocks": cl}
