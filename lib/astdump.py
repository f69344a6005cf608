"""Projection of a Pyverilog AST (public node classes / attributes) to the uniform
JSON shape [k, s, c, l] the TLA+ specifications compare:
   k  node kind            s  scalar payload ("" when none)
   c  children, one slot per role ("None" node for an absent optional child)
   l  line number
"""

NONE = {"k": "None", "s": "", "c": [], "l": 0}


def lst(xs):
    return {"k": "List", "s": "", "c": xs, "l": 0}


VARS = ("Input", "Output", "Inout", "Tri", "Wire", "Reg", "Integer", "Real", "Genvar")
PARAMS = ("Parameter", "Localparam", "Supply")
UNARY = ("Uplus", "Uminus", "Ulnot", "Unot", "Uand", "Unand", "Uor", "Unor", "Uxor", "Uxnor")
BINARY = ("Power", "Times", "Divide", "Mod", "Plus", "Minus", "Sll", "Srl", "Sla", "Sra",
          "LessThan", "GreaterThan", "LessEq", "GreaterEq", "Eq", "NotEq", "Eql", "NotEql",
          "And", "Xor", "Xnor", "Or", "Land", "Lor")


def sgn(n):
    return "signed" if n.signed else ""


def st(x):
    return "" if x is None else str(x)


def many(xs):
    if xs is None:
        return []
    return [dump(x) for x in xs]


TABLE = {
    "Source": lambda n: ("", [dump(n.description)]),
    "Description": lambda n: ("", many(n.definitions)),
    "ModuleDef": lambda n: (n.name + "|" + st(n.default_nettype),
                            [dump(n.paramlist), dump(n.portlist), lst(many(n.items))]),
    "Paramlist": lambda n: ("", many(n.params)),
    "Portlist": lambda n: ("", many(n.ports)),
    "Port": lambda n: (n.name + "|" + st(n.type), [dump(n.width), dump(n.dimensions)]),
    "Width": lambda n: ("", [dump(n.msb), dump(n.lsb)]),
    "Length": lambda n: ("", [dump(n.msb), dump(n.lsb)]),
    "Dimensions": lambda n: ("", many(n.lengths)),
    "Identifier": lambda n: (n.name, [dump(n.scope)]),
    "IdentifierScope": lambda n: ("", many(n.labellist)),
    "IdentifierScopeLabel": lambda n: (n.name, [dump(n.loop)]),
    "IntConst": lambda n: (st(n.value), []),
    "FloatConst": lambda n: (st(n.value), []),
    "StringConst": lambda n: (st(n.value), []),
    "Ioport": lambda n: ("", [dump(n.first), dump(n.second)]),
    "Decl": lambda n: ("", many(n.list)),
    "Concat": lambda n: ("", many(n.list)),
    "LConcat": lambda n: ("", many(n.list)),
    "Repeat": lambda n: ("", [dump(n.value), dump(n.times)]),
    "Partselect": lambda n: ("", [dump(n.var), dump(n.msb), dump(n.lsb)]),
    "Pointer": lambda n: ("", [dump(n.var), dump(n.ptr)]),
    "Lvalue": lambda n: ("", [dump(n.var)]),
    "Rvalue": lambda n: ("", [dump(n.var)]),
    "Cond": lambda n: ("", [dump(n.cond), dump(n.true_value), dump(n.false_value)]),
    "Assign": lambda n: ("", [dump(n.left), dump(n.right), dump(n.ldelay), dump(n.rdelay)]),
    "SensList": lambda n: ("", many(n.list)),
    "Sens": lambda n: (st(n.type), [dump(n.sig)]),
    "IfStatement": lambda n: ("", [dump(n.cond), dump(n.true_statement), dump(n.false_statement)]),
    "ForStatement": lambda n: ("", [dump(n.pre), dump(n.cond), dump(n.post), dump(n.statement)]),
    "WhileStatement": lambda n: ("", [dump(n.cond), dump(n.statement)]),
    "Case": lambda n: ("", [NONE if n.cond is None else lst(many(n.cond)), dump(n.statement)]),
    "Block": lambda n: (st(n.scope), many(n.statements)),
    "ParallelBlock": lambda n: (st(n.scope), many(n.statements)),
    "Initial": lambda n: ("", [dump(n.statement)]),
    "EventStatement": lambda n: ("", [dump(n.senslist)]),
    "WaitStatement": lambda n: ("", [dump(n.cond), dump(n.statement)]),
    "ForeverStatement": lambda n: ("", [dump(n.statement)]),
    "DelayStatement": lambda n: ("", [dump(n.delay)]),
    "InstanceList": lambda n: (n.module, [lst(many(n.parameterlist)), lst(many(n.instances))]),
    "Instance": lambda n: (n.module + "|" + n.name,
                           [lst(many(n.portlist)), lst(many(n.parameterlist)), dump(n.array)]),
    "ParamArg": lambda n: (st(n.paramname), [dump(n.argname)]),
    "PortArg": lambda n: (st(n.portname), [dump(n.argname)]),
    "Function": lambda n: (n.name, [dump(n.retwidth), lst(many(n.statement))]),
    "FunctionCall": lambda n: ("", [dump(n.name), lst(many(n.args))]),
    "Task": lambda n: (n.name, [lst(many(n.statement))]),
    "GenerateStatement": lambda n: ("", many(n.items)),
    "SystemCall": lambda n: (n.syscall, many(n.args)),
    "SingleStatement": lambda n: ("", [dump(n.statement)]),
    "Pragma": lambda n: ("", [dump(n.entry)]),
    "PragmaEntry": lambda n: (n.name, [dump(n.value)]),
    "Disable": lambda n: (st(n.dest), []),
    "EmbeddedCode": lambda n: (n.code, []),
}
for _k in VARS:
    TABLE[_k] = lambda n: (st(n.name) + "|" + sgn(n), [dump(n.width), dump(n.dimensions), dump(n.value)])
for _k in PARAMS:
    TABLE[_k] = lambda n: (st(n.name) + "|" + sgn(n), [dump(n.value), dump(n.width), dump(n.dimensions)])
for _k in UNARY:
    TABLE[_k] = lambda n: ("", [dump(n.right)])
for _k in BINARY:
    TABLE[_k] = lambda n: ("", [dump(n.left), dump(n.right)])
for _k in ("Always", "AlwaysFF", "AlwaysComb", "AlwaysLatch"):
    TABLE[_k] = lambda n: ("", [dump(n.sens_list), dump(n.statement)])
for _k in ("BlockingSubstitution", "NonblockingSubstitution"):
    TABLE[_k] = lambda n: ("", [dump(n.left), dump(n.right), dump(n.ldelay), dump(n.rdelay)])
for _k in ("CaseStatement", "CasexStatement", "CasezStatement", "UniqueCaseStatement"):
    TABLE[_k] = lambda n: ("", [dump(n.comp), lst(many(n.caselist))])


def dump(n):
    if n is None:
        return NONE
    if isinstance(n, (str, int)):
        return {"k": "#", "s": str(n), "c": [], "l": 0}
    if isinstance(n, (tuple, list)):
        return lst(many(n))
    k = n.__class__.__name__
    f = TABLE.get(k)
    line = getattr(n, "lineno", 0)
    line = line if isinstance(line, int) else -1
    if f is None:
        return {"k": "?" + k, "s": "", "c": [], "l": line}
    s, c = f(n)
    return {"k": k, "s": s, "c": c, "l": line}
