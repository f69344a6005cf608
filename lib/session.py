"""Sessions: histories of operations in one process, each in a directory of its own.

A history is a list of steps as spec/SessionGen prints them.  op_session forks, so that
histories do not see each other, runs the steps, and records per step what the caller
observes, and which files appeared."""
import json
import os
import shutil
import tempfile

import astdump
import ops

ALLOWED = {"parser.out", "parsetab.py"}


def squash(x):
    return json.dumps(x, sort_keys=True, default=str)


def each(names, f):
    out = []
    for n in names:
        try:
            out.append([str(n), f(n)])
        except Exception as e:
            out.append([str(n), "raises " + type(e).__name__])
    return out


class Session(object):
    def __init__(self, texts):
        self.texts = texts
        self.asts = []      # (tree, its dump): later operations must not change it
        self.graphs = []
        for f, t in (("a.v", "m1"), ("b.v", "cfg"), ("d/inc.v", "sub")):
            if t in texts:
                self.write(f, t)

    def write(self, f, t):
        if "/" in f and not os.path.isdir(os.path.dirname(f)):
            os.makedirs(os.path.dirname(f))
        with open(f, "w") as o:
            o.write(self.texts[t])

    def job(self, text):
        srcs, flags = text.split(";")
        out = []
        for s in srcs.split(","):
            kind, name = s.split(":")
            out.append(name if kind == "f" else self.texts[name])
        return out, {"preprocess_include": ["d"] if flags[2] == "I" else [],
                     "preprocess_define": [d for d in (["W=7"] if flags[0] == "W" else []) + (["MODE=7"] if flags[1] == "M" else [])]}

    def keep(self, ast):
        d = astdump.dump(ast)
        self.asts.append((ast, squash(d)))
        return d

    def tree(self, ast, directives):
        return {"ast": self.keep(ast), "dirs": [[l, t] for l, t in directives]}

    def do(self, step):
        w = step.split(" ")
        return getattr(self, "do_" + w[0])(*w[1:])

    def do_write(self, f, t):
        self.write(f, t)
        return {}

    def do_parse(self, job):
        from pyverilog.vparser.parser import parse
        src, kw = self.job(job)
        if not kw["preprocess_include"] and not kw["preprocess_define"]:
            return self.tree(*parse(src, debug=False))
        return self.tree(*parse(src, debug=False, **kw))

    def do_newp(self):
        from pyverilog.vparser.parser import VerilogParser
        self.p = VerilogParser(debug=False)
        return {}

    def do_usep(self, t):
        return self.tree(self.p.parse(self.texts[t]), self.p.get_directives())

    def do_newk(self, job):
        from pyverilog.vparser.parser import VerilogCodeParser
        src, kw = self.job(job)
        self.k = VerilogCodeParser(src, debug=False, **kw)
        return {}

    def do_usek(self):
        return self.tree(self.k.parse(), self.k.get_directives())

    def do_newg(self):
        from pyverilog.ast_code_generator.codegen import ASTCodeGenerator
        self.g = ASTCodeGenerator()
        return {}

    def do_gen(self, t):
        from pyverilog.vparser.parser import VerilogParser
        ast = VerilogParser(debug=False).parse(self.texts[t])
        self.keep(ast)
        g = self.g
        return {"dig": [g.visit(ast), g.visit(ast)]}

    def do_lex(self, t):
        from pyverilog.vparser.lexer import dump_tokens
        return {"dig": dump_tokens(self.texts[t])}

    def graph(self, a):
        terms, binds = a.getTerms(), a.getBinddict()
        return {"terms": [[str(n), t.tostr()] for n, t in terms.items()],
                "binds": [[str(n), [b.tostr() for b in l]] for n, l in binds.items()],
                "insts": [[str(i), m] for i, m in a.getInstances()],
                "signals": sorted(str(x) for x in a.getSignals()), "consts": sorted(str(x) for x in a.getConsts())}

    def do_flow(self, job, top):
        from pyverilog.dataflow.dataflow_analyzer import VerilogDataflowAnalyzer
        src, kw = self.job(job)
        a = VerilogDataflowAnalyzer(src, topmodule=top, **kw)
        self.a, self.top = a, top
        a.generate()
        d = self.graph(a)
        self.graphs.append((a, squash(d)))
        return {"dig": [d, list(a.get_directives())]}

    def names(self):
        return list(self.a.getTerms().keys())

    def resolved(self):
        from pyverilog.dataflow.optimizer import VerilogDataflowOptimizer
        o = VerilogDataflowOptimizer(self.a.getTerms(), self.a.getBinddict())
        o.resolveConstant()
        self.o = o
        return (self.top, self.a.getTerms(), self.a.getBinddict(), o.getResolvedTerms(), o.getResolvedBinddict(), o.getConstlist())

    def do_ask(self, q):
        return {"dig": getattr(self, "ask_" + q)()}

    def ask_text(self):
        a = self.a
        return [self.graph(a), each(self.names(), lambda n: a.getTerms()[n].tocode()),
                each(list(a.getBinddict()), lambda n: [b.tocode() for b in a.getBinddict()[n]])]

    def ask_resolve(self):
        args = self.resolved()
        return [[[str(n), t.tostr()] for n, t in args[3].items()],
                [[str(n), [self.o.optimize(b.tree).tostr() if b.tree is not None else "" for b in l]] for n, l in args[4].items()],
                [[str(n), str(v)] for n, v in args[5].items()]]

    def ask_walk(self):
        from pyverilog.dataflow.walker import VerilogDataflowWalker
        w = VerilogDataflowWalker(*self.resolved())
        return [each(self.names(), lambda n: w.walkBind(str(n), step).tocode()) for step in (0, 1)]

    def ask_subset(self):
        from pyverilog.dataflow.subset import VerilogSubset
        s = VerilogSubset(*self.resolved())

        def one(n):
            binds, sources = s.getBindSourceSubset([str(n)])
            return [[[str(k), [b.tostr() for b in l]] for k, l in binds.items()], sorted(str(x) for x in sources)]
        return each(self.names(), one)

    def ask_code(self):
        from pyverilog.dataflow.dataflow_codegen import VerilogCodeGenerator
        c = VerilogCodeGenerator(*self.resolved())
        c.set_clock_info("CLK", "posedge")
        c.set_reset_info("RST", "posedge")
        return [each(self.names(), lambda n: c.generateCode([str(n)])), each(["all"], lambda n: c.generateCode())]

    def ask_graph(self):
        from pyverilog.dataflow.graphgen import VerilogGraphGenerator

        def one(n):
            g = VerilogGraphGenerator(*(self.resolved() + ("out.png",)))
            g.generate(str(n), walk=True)
            return g.graph.to_string()
        return each(self.names(), one)

    def ask_fsm(self):
        from pyverilog.controlflow.controlflow_analyzer import VerilogControlflowAnalyzer
        c = VerilogControlflowAnalyzer(*(self.resolved() + (("s", "y"),)))

        def one(_):
            loops, fsms = c.getLoops()
            return [[[str(n), f.delaycnt, [[k, [[v.tocode() if v is not None else "", d] for v, d in t.items()]] for k, t in f.fsm.items()],
                      [[v.tocode() if v is not None else "", d] for v, d in f.any.items()]] for n, f in fsms.items()],
                    [[str(n), sorted(list(x) for x in l)] for n, l in loops.items()]]
        return each(["all"], one)

    def kept(self):
        bad = []
        for i, (ast, d) in enumerate(self.asts):
            if squash(astdump.dump(ast)) != d:
                bad.append("syntax tree %d" % i)
        for i, (a, d) in enumerate(self.graphs):
            if squash(self.graph(a)) != d:
                bad.append("data flow graph %d" % i)
        return bad


def stray(known, tmp):
    here = set(os.path.join(d, f) for d, _, fs in os.walk(".") for f in fs)
    return sorted(f for f in here - known if os.path.basename(f) not in ALLOWED) + sorted("TMP/" + f for f in os.listdir(tmp))


def play(job):
    import contextlib
    import io
    tmp = os.path.abspath("tmp")
    os.mkdir(tmp)
    tempfile.tempdir = tmp
    os.environ["TMPDIR"] = tmp
    os.mkdir("w")
    os.chdir("w")
    s = Session(job["texts"])
    out = []
    for step in job["steps"]:
        known = set(os.path.join(d, f) for d, _, fs in os.walk(".") for f in fs)
        if step.startswith("write"):
            known.add("./" + step.split(" ")[1])
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                r = s.do(step)
            r["err"] = ""
        except (Exception, SystemExit) as e:
            r = {"err": type(e).__name__, "msg": str(e)[:300]}
        r["stray"] = stray(known, tmp)
        if "dig" in r:
            r["dig"] = squash(r["dig"])
        out.append(r)
    return {"steps": out, "kept": s.kept()}


def run(job):
    """play the history in a forked process, in a directory of its own"""
    d = tempfile.mkdtemp(dir=".")
    res = os.path.join(os.path.abspath(d), "res.json")
    pid = os.fork()
    if pid == 0:
        try:
            os.chdir(d)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 2)
            os.dup2(null, 1)
            out = play(job)
            with open(res, "w") as f:
                json.dump(out, f)
        finally:
            os._exit(0)
    os.waitpid(pid, 0)
    try:
        return json.load(open(res))
    finally:
        shutil.rmtree(d, ignore_errors=True)
