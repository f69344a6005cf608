"""Operations of the real Pyverilog that the checks observe."""
import os
import signal

import astdump
import dfdump


def write(name, text):
    with open(name, "w") as f:
        f.write(text)
    return name


def op_warm(job):
    from pyverilog.vparser.parser import VerilogParser
    VerilogParser(outputdir=".", debug=False)
    return {}


def op_parse(job):
    """public parse() of one file -> AST"""
    from pyverilog.vparser.parser import parse
    f = write("in.v", job["src"])
    ast, directives = parse([f], debug=False)
    return {"ast": astdump.dump(ast), "dirs": [[l, t] for l, t in directives]}


def op_lex(job):
    """the public tokenizer class on many texts"""
    from pyverilog.vparser.lexer import VerilogLexer

    class Bad(Exception):
        pass

    def error(msg, line, column):
        raise Bad(line)
    lexer = VerilogLexer(error_func=error)
    lexer.build()
    out = []
    for text in job["texts"]:
        lexer.reset_lineno()
        lexer.directives = []
        lexer.input(text)
        toks, ok, at = [], True, 0
        try:
            while True:
                t = lexer.token()
                if not t:
                    break
                toks.append([t.type, str(t.value), t.lineno])
        except Bad as e:
            ok, at = False, int(str(e))
        out.append({"s": text, "c": [ord(x) for x in text], "ok": ok, "at": at, "toks": toks,
                    "dirs": [[l, d] for l, d in lexer.get_directives()]})
    return {"texts": out}


def op_codegen(job):
    """public parse() and code generator: text -> tree -> text"""
    from pyverilog.vparser.parser import parse
    from pyverilog.ast_code_generator.codegen import ASTCodeGenerator
    ast, directives = parse([write("in.v", job["src"])], debug=False)
    return {"out": ASTCodeGenerator().visit(ast)}


class Late(BaseException):
    pass


def limited(f, job, seconds=10):
    """f(job) with a time limit"""
    def late(*_):
        raise Late()
    old = signal.signal(signal.SIGALRM, late)
    signal.alarm(seconds)
    try:
        return f(job)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def analyze(job):
    from pyverilog.dataflow.dataflow_analyzer import VerilogDataflowAnalyzer
    a = VerilogDataflowAnalyzer([write("in.v", job["src"])], job.get("top", "TOP"),
                                noreorder=job.get("noreorder", False),
                                preprocess_include=[], preprocess_define=[])
    a.generate()
    return a


def op_dataflow(job):
    """public data flow analysis of one file -> terms, binds, instances"""
    try:
        a = limited(analyze, job)
        r = dfdump.graph(a.getTerms(), a.getBinddict())
    except (dfdump.TooBig, Late, MemoryError):
        return {"skip": True}
    r["insts"] = [{"n": dfdump.flat(i), "m": m} for i, m in a.getInstances()]
    return r


def resolved(a):
    from pyverilog.dataflow.optimizer import VerilogDataflowOptimizer
    o = VerilogDataflowOptimizer(a.getTerms(), a.getBinddict())
    o.resolveConstant()
    return o


def op_optimized(job):
    """the resolved graph, its trees optimized as the walker and the analyzers do"""
    import copy
    try:
        a = limited(analyze, job)

        def work(_):
            o = resolved(a)
            before = dfdump.graph(a.getTerms(), a.getBinddict())
            binds = {}
            for n, l in o.getResolvedBinddict().items():
                binds[n] = []
                for b in l:
                    b = copy.copy(b)
                    b.tree, b.msb, b.lsb, b.ptr = (o.optimize(t) for t in (b.tree, b.msb, b.lsb, b.ptr))
                    binds[n].append(b)
            r = dfdump.graph(o.getResolvedTerms(), binds)
            r["same"] = before == dfdump.graph(a.getTerms(), a.getBinddict())
            return r
        r = limited(work, None)
    except (dfdump.TooBig, Late, MemoryError):
        return {"skip": True}
    r["insts"] = []
    return r


def op_session(job):
    import session
    return limited(session.run, job, 60)


def op_fsm(job):
    """the state machines the control flow analyzer finds, their loops, and active conditions of the signals job["watch"]"""
    from pyverilog.controlflow.active_analyzer import VerilogActiveConditionAnalyzer

    def work(_):
        a = analyze(job)
        o = resolved(a)
        c = VerilogActiveConditionAnalyzer("TOP", a.getTerms(), a.getBinddict(),
                                           o.getResolvedTerms(), o.getResolvedBinddict(), o.getConstlist())
        loops, fsms = c.getLoops()
        r = dfdump.graph(o.getResolvedTerms(), {})
        r["fsms"] = []
        for n, f in fsms.items():
            cond = lambda x: dfdump.tree(x)
            r["fsms"].append({
                "n": dfdump.flat(n), "delay": f.delaycnt, "loops": [list(p) for p in sorted(loops.get(n, ()))],
                "trans": [{"src": s, "cond": cond(x), "dst": d} for s, t in sorted(f.fsm.items()) for x, d in t.items()],
                "any": [{"cond": cond(x), "dst": d} for x, d in f.any.items()]})
        r["act"] = []
        for t in a.getTerms():
            if dfdump.flat(t) in job.get("watch", ()):
                for n, l in c.getActiveConditions(t).items():
                    r["act"] += [{"y": dfdump.flat(t), "n": dfdump.flat(n), "q": q, "cond": dfdump.tree(x)} for q, x in l if q != "any"]
        return r
    try:
        return limited(work, None)
    except (dfdump.TooBig, Late, MemoryError):
        return {"skip": True}


def op_walked(job):
    """the graph with every signal bound, as a whole, to its walked tree"""
    from pyverilog.dataflow.walker import VerilogDataflowWalker
    import pyverilog.dataflow.replace as replace
    import copy

    def work(_):
        a = analyze(job)
        o = resolved(a)
        w = VerilogDataflowWalker("TOP", a.getTerms(), a.getBinddict(), o.getResolvedTerms(), o.getResolvedBinddict(), o.getConstlist())
        binds = {}
        for n, l in o.getResolvedBinddict().items():
            b = copy.copy(l[0])
            if b.parameterinfo in ("parameter", "localparam") or o.getResolvedTerms()[n].dims is not None:
                binds[n] = l
                continue
            t = w.walkTree(w.getTree(n), visited=set())
            b.tree, b.msb, b.lsb, b.ptr = replace.replaceUndefined(t, n), None, None, None
            binds[n] = [b]
        return dfdump.graph(o.getResolvedTerms(), binds)
    try:
        r = limited(work, None)
    except (dfdump.TooBig, Late, MemoryError):
        return {"skip": True}
    r["insts"] = []
    return r


def op_subset(job):
    """the sub graph the targets depend on, and the code generated from it"""
    from pyverilog.dataflow.subset import VerilogSubset
    from pyverilog.dataflow.dataflow_codegen import VerilogCodeGenerator
    import pyverilog.utils.util as util

    def work(_):
        a = analyze(job)
        o = resolved(a)
        args = ("TOP", a.getTerms(), a.getBinddict(), o.getResolvedTerms(), o.getResolvedBinddict(), o.getConstlist())
        names = {dfdump.flat(n): n for n in a.getTerms()}
        cand = sorted(n for n in names if names[n] in a.getBinddict() and util.toTermname(str(names[n])) in a.getTerms())
        targets = sorted(set(cand[p % len(cand)] for p in job["pick"])) if cand else []
        s = VerilogSubset(*args)
        s.set_clock_info(job["clk"], "posedge")
        s.set_reset_info(job["rst"], "posedge")
        binds, sources = s.getBindSourceSubset([str(names[t]) for t in targets])
        r = dfdump.graph(a.getTerms(), a.getBinddict())
        sub = dfdump.graph(a.getTerms(), binds)
        r["sub"], r["sources"], r["targets"] = sub["binds"], sorted(dfdump.flat(n) for n in sources), targets
        r["clocks"], r["subclocks"] = r.get("clocks", []), sub.get("clocks", [])
        r["map"] = [[n, util.toFlatname(names[n]).replace(".", "_")] for n in sorted(names)]
        if job.get("code"):
            g = VerilogCodeGenerator(*args)
            g.set_clock_info(job["clk"], "posedge")
            g.set_reset_info(job["rst"], "posedge")
            r["code"] = g.generateCode([str(names[t]) for t in targets])
        return r
    try:
        return limited(work, None)
    except (dfdump.TooBig, Late, MemoryError):
        return {"skip": True}
