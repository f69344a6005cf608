"""Random designs with a defined two-state meaning (no latches, no combinational loops, no
sign, no division by zero), for the checks of the data flow analyzer.  Nothing here is
trusted: the specification decides what a design means."""

BINW = ["+", "-", "*", "&", "|", "^", "~^"]
CMP = ["==", "!=", "<", ">", "<=", ">=", "===", "!=="]
RED = ["&", "|", "^", "~&", "~|", "~^"]


class Sig(object):
    def __init__(self, name, w, hi=None, lo=0, dim=0, d0=0):
        self.name, self.w, self.dim, self.d0 = name, w, dim, d0
        self.hi, self.lo = (w - 1 if hi is None else hi), lo

    def rng(self):
        return "" if self.w == 1 and self.hi == 0 and self.lo == 0 else "[%d:%d] " % (self.hi, self.lo)

    def at(self, p, n=1):
        """the n bits from position p (0 = least significant)"""
        if self.hi >= self.lo:
            a, b = self.lo + p + n - 1, self.lo + p
        else:
            a, b = self.lo - p - n + 1, self.lo - p
        return "%s[%d]" % (self.name, a) if n == 1 else "%s[%d:%d]" % (self.name, a, b)


class D(object):
    def __init__(self, rng, feats, size=3):
        self.r = rng
        self.f = set(feats)
        self.size = size
        self.n = 0
        self.modules = []
        self.budget = 5
        self.maxw = 8
        self.pool = []      # conditions of the current block
        self.cb = 4         # branches left in the current item (graphs grow exponentially with them)

    def fresh(self, p="n"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def has(self, x):
        return x in self.f

    # ------------------------------------------------------------ expressions
    def const(self, w):
        v = self.r.randrange(1 << w) if w < 16 else self.r.randrange(1 << 12)
        b = self.r.random()
        if b < 0.5:
            return "%d'd%d" % (w, v)
        if b < 0.7:
            return "%d'h%x" % (w, v)
        if b < 0.9:
            return "%d'b%s" % (w, bin(v)[2:])
        return "%d'o%o" % (w, v)

    def leaf(self, w, env):
        r = self.r
        c = []
        for s in env:
            if s.dim:
                if s.w == w and r.random() < 0.5:
                    c.append(("%s[%s]" % (s.name, self.index(s, env))))
                continue
            if s.w == w:
                c.append(s.name)
                c.append(s.name)
            elif s.w > w:
                p = r.randrange(s.w - w + 1)
                if w == 1 and r.random() < 0.2 and "dynsel" in self.f:
                    ix = self.small(env, s.w)
                    if ix:
                        c.append("%s[%s]" % (s.name, ix))
                        continue
                c.append(s.at(p, w))
        if not c or r.random() < 0.12:
            if w >= 2 and env and r.random() < 0.5:
                k = r.randrange(1, w)
                return "{%s, %s}" % (self.leaf(w - k, env), self.leaf(k, env))
            return self.const(w)
        return r.choice(c)

    def small(self, env, n):
        """a signal usable as an index into n positions"""
        c = [s for s in env if not s.dim and s.lo == 0 and s.hi >= s.lo and (1 << s.w) <= max(n, 2)]
        return self.r.choice(c).name if c else None

    def index(self, s, env):
        x = self.small(env, s.dim)
        if s.d0 == 0 and x and self.r.random() < 0.7:
            return x
        return str(s.d0 + self.r.randrange(s.dim))

    def E(self, w, env, d=None, cond=True):
        """an expression whose self-determined width is exactly w"""
        r = self.r
        if d is None:
            d = r.choice([0, 1, 2, 2, 3])
        if d <= 0:
            return self.leaf(w, env)
        x = r.random()
        e = lambda ww, dd=None: self.E(ww, env, d - 1 if dd is None else dd, cond)
        if w == 1 and x < 0.45:
            y = r.random()
            k = r.choice([1, 2, 3, 4, 4, 6])
            if y < 0.4:
                return "(%s %s %s)" % (e(k), r.choice(CMP), e(k))
            if y < 0.6:
                return "(%s %s %s)" % (e(r.choice([1, 2, k])), r.choice(["&&", "||"]), e(1))
            if y < 0.8:
                return "(%s%s)" % (r.choice(RED), self.prim(e(k)))
            return "(!%s)" % self.prim(e(r.choice([1, k])))
        if x < 0.55:
            return "(%s %s %s)" % (e(w), r.choice(BINW), e(w))
        if x < 0.63:
            return "(~%s)" % self.prim(e(w))
        if x < 0.67:
            return "(-%s)" % self.prim(e(w))
        if x < 0.75 and cond and self.cb > 0:
            self.cb -= 1
            return "(%s ? %s : %s)" % (e(1), e(w), e(w))
        if x < 0.83 and w >= 2:
            k = r.randrange(1, w)
            if w - k >= 2 and r.random() < 0.3:
                j = r.randrange(1, w - k)
                return "{%s, %s, %s}" % (e(w - k - j), e(j), e(k))
            return "{%s, %s}" % (e(w - k), e(k))
        if x < 0.87 and w >= 2:
            k = r.choice([q for q in range(1, w + 1) if w % q == 0])
            return "{%d{%s}}" % (w // k, e(k))
        if x < 0.93:
            op = r.choice(["<<", ">>", "<<<", ">>>"])
            ix = self.small(env, 8)
            return "(%s %s %s)" % (e(w), op, ix if ix and r.random() < 0.5 else r.randrange(0, w + 1))
        if x < 0.96:
            return "(%s %s %d'd%d)" % (e(w), r.choice(["/", "%"]), w, r.randrange(1, 1 << min(w, 4)))
        if "func" in self.f and self.funcs and x < 0.99:
            c = [f for f in self.funcs if f[1] == w]
            if c:
                f = r.choice(c)
                return "%s(%s)" % (f[0], ", ".join(self.E(q, env, 1, cond) for q in f[2]))
        return self.leaf(w, env)

    def prim(self, t):
        return t

    def rhs(self, w, env):
        """right hand side: any width is fine where no conditional is involved"""
        r = self.r
        x = 1 if "exact" in self.f else r.random()
        if x < 0.12:
            k = r.randrange(1, self.maxw + 1)
            return "%s %s %s" % (self.E(k, env, 1, False), r.choice(["+", "-", "&", "|", "^", "*"]),
                                 r.choice([str(r.randrange(20)), self.E(r.randrange(1, self.maxw + 1), env, 1, False)]))
        if x < 0.2:
            return str(r.randrange(1 << min(w, 8)))
        if x < 0.25:
            return self.E(r.randrange(1, self.maxw + 1), env, 1, False)
        return self.E(w, env)

    # ------------------------------------------------------------ modules
    def newsig(self, p="n", w=None, dim=0):
        r = self.r
        w = w or r.choice([1, 1, 2, 3, 4, 4, 5, 8])
        if r.random() < 0.12 and w > 1 and "range" in self.f:
            if r.random() < 0.5:
                lo = r.randrange(1, 5)
                return Sig(self.fresh(p), w, lo + w - 1, lo, dim)
            return Sig(self.fresh(p), w, 0, w - 1, dim)
        return Sig(self.fresh(p), w, dim=dim)

    def dimtext(self, s):
        if not s.dim:
            return ""
        a, b = s.d0, s.d0 + s.dim - 1
        return " [%d:%d]" % ((a, b) if self.r.random() < 0.6 else (b, a))

    def splitw(self, s):
        """random partition of a signal's bits: [(position, count)]"""
        out, p = [], 0
        while p < s.w:
            n = self.r.randrange(1, s.w - p + 1)
            out.append((p, n))
            p += n
        return out

    def assigns(self, items, env, n):
        r = self.r
        for _ in range(n):
            self.cb = 4
            x = 0 if "wholes" in self.f else r.random() * (0.75 if "noconcat" in self.f else 1)
            if x < 0.5:
                s = self.newsig()
                if r.random() < 0.3:
                    items.append(("d", "wire %s%s = %s;" % (s.rng(), s.name, self.rhs(s.w, env))))
                else:
                    items.append(("d", "wire %s%s;" % (s.rng(), s.name)))
                    items.append(("i", "assign %s = %s;" % (s.name, self.rhs(s.w, env))))
                env.append(s)
            elif x < 0.75:
                s = self.newsig(w=r.choice([2, 3, 4, 6, 8]))
                items.append(("d", "wire %s%s;" % (s.rng(), s.name)))
                for p, k in self.splitw(s):
                    if r.random() < 0.93:
                        items.append(("i", "assign %s = %s;" % (s.at(p, k) if k < s.w else s.name, self.rhs(k, env))))
                env.append(s)
            else:
                parts, tot, new = [], 0, []
                for _ in range(r.choice([2, 2, 3])):
                    s = self.newsig()
                    if tot + s.w > 16:
                        break
                    tot += s.w
                    items.append(("d", "wire %s%s;" % (s.rng(), s.name)))
                    new.append(s)
                    parts.append(s.name)
                items.append(("i", "assign {%s} = %s;" % (", ".join(parts), self.catrhs(tot, env))))
                env.extend(new)

    def catrhs(self, w, env):
        return self.E(w, env)

    # statements: targets are Sig; whole: assigned as a whole
    def stmts(self, targets, env, depth, op, n, fields):
        out = []
        for _ in range(n):
            out.append(self.stmt(targets, env, depth, op, fields))
        return out

    def lhs(self, t, fields):
        if t.name in fields:
            p, k = self.r.choice(fields[t.name])
            return t.at(p, k) if k < t.w else t.name, k
        return t.name, t.w

    def block(self, ss, ind="  "):
        if len(ss) == 1 and self.r.random() < 0.5:
            return ss[0]
        lab = " : %s" % self.fresh("blk") if self.r.random() < 0.15 else ""
        return "begin%s\n%s\nend" % (lab, "\n".join(ss))

    def stmt(self, targets, env, depth, op, fields):
        r = self.r
        t = r.choice(targets)
        x = r.random()
        if depth <= 0 or x < 0.45 or self.cb <= 0:
            if t.dim:
                return "%s[%s] %s %s;" % (t.name, self.windex(t, env), op, self.E(t.w, env))
            l, w = self.lhs(t, fields)
            return "%s %s %s;" % (l, op, self.rhs(w, env))
        sub = lambda: self.block(self.stmts(targets, env, depth - 1, op, r.choice([1, 1, 2, 3]), fields))
        self.cb -= 1
        if x < 0.8:
            c = self.cond(env)
            s = "if (%s) %s" % (c, self.wrap(sub()))
            y = r.random()
            if y < 0.35:
                s += "\nelse %s" % sub()
            elif y < 0.55:
                self.cb -= 1
                s += "\nelse if (%s) %s" % (self.cond(env), self.wrap(sub()))
                if r.random() < 0.6:
                    s += "\nelse %s" % sub()
            return s
        if x < 0.95:
            w = r.choice([1, 2, 2, 3])
            vals = list(range(1 << w))
            r.shuffle(vals)
            items, k = [], r.randrange(1, min(4, len(vals)) + 1)
            for _ in range(k):
                if not vals:
                    break
                self.cb -= 1
                m = min(len(vals), r.choice([1, 1, 1, 2, 2, 3, 4, 5]))
                labs = [self.caselab(w, vals.pop()) for _ in range(m)]
                items.append("%s: %s" % (", ".join(labs), sub()))
            if r.random() < 0.7:
                items.append("default: %s" % sub())
            return "%s (%s)\n%s\nendcase" % (r.choice(["case", "case", "casex"]), self.E(w, env, r.choice([0, 0, 1])), "\n".join(items))
        return self.loop(targets, env, op, fields)

    def cond(self, env):
        """a condition; often a variation of an earlier one of the same block"""
        r = self.r
        if self.pool and r.random() < 0.45:
            c = list(r.choice(self.pool))
            y = r.random()
            if c[0] == "cmp":
                if y < 0.6:
                    c[2] = r.choice(CMP[:6])
                elif y < 0.8:
                    c[1], c[3] = c[3], c[1]
                else:
                    c[3] = self.leaf(c[4], env)
            elif c[0] == "sel":
                c[2], c[3] = self.part(c[1].w)
            else:
                c[1] = r.choice(RED)
        else:
            y = r.random()
            wide = [q for q in env if not q.dim and q.w > 1]
            if y < 0.35:
                k = r.choice([1, 2, 3, 4])
                c = ["cmp", self.leaf(k, env), r.choice(CMP[:6]), self.leaf(k, env), k]
            elif y < 0.5 and wide:
                q = r.choice(wide)
                c = ["sel", q] + list(self.part(q.w))
            elif y < 0.6 and wide:
                c = ["red", r.choice(RED), r.choice(wide).name]
            else:
                return self.E(r.choice([1, 1, 1, 3]), env, r.choice([0, 1, 2]))
        self.pool.append(tuple(c))
        if c[0] == "cmp":
            return "%s %s %s" % tuple(c[1:4])
        if c[0] == "sel":
            return c[1].at(c[2], c[3])
        return "%s%s" % (c[1], c[2])

    def part(self, w):
        p = self.r.randrange(w)
        return p, self.r.randrange(1, w - p + 1)

    def wrap(self, s):
        return s if s.startswith("begin") else "begin %s end" % s

    def caselab(self, w, v):
        return "%d'd%d" % (w, v) if self.r.random() < 0.8 else str(v)

    def windex(self, t, env):
        """the address of a memory write.  The order of writes to one memory through different
        address expressions is not part of the graph (known finding C10), so that a block uses
        either constants or one expression"""
        if t.name not in self.addr:
            self.addr[t.name] = None if self.r.random() < 0.3 else self.index(t, env)
        a = self.addr[t.name]
        return str(t.d0 + self.r.randrange(t.dim)) if a is None else a

    def loop(self, targets, env, op, fields):
        r = self.r
        c = [t for t in targets if not t.dim and t.name not in fields and t.lo == 0 and t.hi >= t.lo]
        if not c or not self.loopvar:
            t = r.choice(targets)
            if t.dim:
                return "%s[%s] %s %s;" % (t.name, self.windex(t, env), op, self.E(t.w, env))
            l, w = self.lhs(t, fields)
            return "%s %s %s;" % (l, op, self.E(w, env))
        t = r.choice(c)
        n = r.choice([1, 2, 3])
        i = self.loopvar
        return "for (%s = 0; %s < %d; %s = %s + 1) begin\n%s %s %s;\nend" % (
            i, i, n, i, i, t.name, op, self.E(t.w, env, 1))

    def comb(self, items, env):
        """an always @* block that assigns each of its targets on every path"""
        self.cb = self.budget
        self.pool = []
        r = self.r
        ts = [self.newsig("c") for _ in range(r.choice([1, 1, 2, 3]))]
        fields = {}
        for t in ts:
            items.append(("d", "reg %s%s;" % (t.rng(), t.name)))
            if "fields" in self.f and t.w > 1 and r.random() < 0.25:
                fields[t.name] = self.splitw(t)
        local = list(env)
        body = []
        mode = r.random()
        if mode < 0.3 and not fields:
            # fully specified tree, one assignment of one target
            t = ts[0]
            for u in ts[1:]:
                body.append("%s = %s;" % (u.name, self.rhs(u.w, local)))
                local.append(u)
            body.append(self.full(t, local, r.choice([1, 2])))
            local.append(t)
        else:
            for t in ts:
                if t.name in fields:
                    for p, k in fields[t.name]:
                        body.append("%s = %s;" % (t.at(p, k) if k < t.w else t.name, self.rhs(k, local)))
                    if len(fields[t.name]) == 1:
                        del fields[t.name]
                else:
                    body.append("%s = %s;" % (t.name, self.rhs(t.w, local)))
                local.append(t)
            rd = local if "readback" in self.f else env
            body += self.stmts(ts, rd, 2, "=", r.choice([0, 1, 2, 3]), fields)
        sens = r.choice(["@*", "@(*)"])
        items.append(("i", "always %s begin\n%s\nend" % (sens, "\n".join(body))))
        env.extend(ts)

    def full(self, t, env, d):
        r = self.r
        if d <= 0 or r.random() < 0.3:
            return "%s = %s;" % (t.name, self.rhs(t.w, env))
        if r.random() < 0.6:
            return "if (%s) %s\nelse %s" % (self.E(1, env, 1), self.wrap(self.full(t, env, d - 1)), self.full(t, env, d - 1))
        w = r.choice([1, 2])
        its = []
        for v in r.sample(range(1 << w), r.randrange(1, (1 << w) + 1)):
            its.append("%d'd%d: %s" % (w, v, self.full(t, env, d - 1)))
        its.append("default: %s" % self.full(t, env, d - 1))
        return "case (%s)\n%s\nendcase" % (self.E(w, env, 0), "\n".join(its))

    def clocked(self, items, env, regs):
        """an edge triggered block that owns the registers regs"""
        self.addr = {}
        self.cb = self.budget
        self.pool = []
        r = self.r
        fields = {}
        for t in regs:
            if "fields" in self.f and t.w > 1 and not t.dim and r.random() < 0.2:
                fields[t.name] = self.splitw(t)
                if len(fields[t.name]) == 1:
                    del fields[t.name]
        plain = [t for t in regs if not t.dim]
        body = self.stmts(regs, env, r.choice([1, 2, 2, 3]), "<=", r.choice([1, 2, 3, 4]), fields)
        kind = r.random()
        clk = r.choice(self.clocks)
        edge = r.choice(["posedge", "posedge", "negedge"])
        if kind < 0.45 and plain and self.resets:
            rst = r.choice(self.resets)
            redge = r.choice(["posedge", "negedge"])
            cond = rst if redge == "posedge" else r.choice(["!%s", "~%s"]) % rst
            init = "\n".join("%s <= %s;" % (self.allof(t, fields), self.const(t.w)) for t in plain if t.name not in fields)
            for t in plain:
                for p, k in fields.get(t.name, []):
                    init += "\n%s <= %s;" % (t.at(p, k), self.const(k))
            body = ["if (%s) begin\n%s\nend\nelse begin\n%s\nend" % (cond, init, "\n".join(body))]
            sens = "%s %s or %s %s" % (edge, clk, redge, rst)
            if r.random() < 0.3:
                sens = "%s %s or %s %s" % (redge, rst, edge, clk)
        else:
            sens = "%s %s" % (edge, clk)
        items.append(("i", "always @(%s) begin\n%s\nend" % (sens, "\n".join(body))))

    def allof(self, t, fields):
        return t.name

    def function(self, items, env):
        self.cb = 3
        self.pool = []
        r = self.r
        w = r.choice([1, 2, 4, 8])
        args = [Sig(self.fresh("x"), r.choice([1, 2, 4, 4])) for _ in range(r.choice([1, 2, 3]))]
        name = self.fresh("f")
        f = Sig(name, w)
        save, self.funcs = self.funcs, (self.funcs if "nested" in self.f else [])
        x = r.random()
        if x < 0.4:
            body = "%s = %s;" % (name, self.rhs(w, args))
        elif x < 0.7:
            body = self.full(f, args, r.choice([1, 2]))
        else:
            ss = ["%s = %s;" % (name, self.rhs(w, args))]
            ss += self.stmts([f], args + ([f] if "readback" in self.f else []), 2, "=", r.choice([1, 2]), {})
            body = "begin\n%s\nend" % "\n".join(ss)
        self.funcs = save
        if not body.startswith("begin") and r.random() < 0.5:
            body = "begin\n%s\nend" % body
        items.append(("f", "function %s%s;\n%s\n%s\nendfunction" % (
            f.rng(), name, "\n".join("input %s%s;" % (a.rng(), a.name) for a in args), body)))
        self.funcs.append((name, w, [a.w for a in args]))

    # ------------------------------------------------------------ generate
    def gen_for(self, items, env):
        r = self.r
        n = r.choice([1, 2, 3, 4])
        k = r.choice([1, 1, 2])
        o = Sig(self.fresh("go"), n * k)
        lab = self.fresh("gl")
        gv = self.fresh("gv")
        items.append(("d", "wire %s%s;" % (o.rng(), o.name)))
        items.append(("d", "genvar %s;" % gv))
        src = [s for s in env if not s.dim and s.w >= n * k and s.lo == 0 and s.hi >= s.lo]
        body = []
        loc = Sig(self.fresh("t"), k)
        idx = lambda s: "%s[%s]" % (s.name, gv) if k == 1 else r.choice(
            ["%s[%d*%s+%d:%d*%s]" % (s.name, k, gv, k - 1, k, gv), "%s[%d*%s +: %d]" % (s.name, k, gv, k)])
        benv = [s for s in env]
        opts = [Sig(idx(r.choice(src)), k)] if src else []
        rhs = lambda e: self.E(k, e, 1)
        if r.random() < 0.7:
            body.append("wire %s%s;" % (loc.rng(), loc.name))
            a = opts[0].name if opts else self.const(k)
            body.append("assign %s = %s %s %s;" % (loc.name, a, r.choice(["^", "&", "+", "|"]), rhs(benv)))
            val = loc.name
        else:
            val = opts[0].name if opts else rhs(benv)
        if r.random() < 0.4:
            body.append("if (%s == %d) begin\nassign %s = %s;\nend\nelse begin\nassign %s = %s;\nend" % (
                gv, r.randrange(n), idx(o), val, idx(o), "(~%s)" % val))
        else:
            body.append("assign %s = %s;" % (idx(o), val))
        if r.random() < 0.3 and loc.name == val and "reg" in self.f:
            pass
        items.append(("i", "generate for (%s = 0; %s < %d; %s = %s + 1) begin : %s\n%s\nend endgenerate" % (
            gv, gv, n, gv, gv, lab, "\n".join(body))))
        env.append(o)

    def gen_if(self, items, env, params, kinds):
        r = self.r
        o = self.newsig("gi")
        items.append(("d", "wire %s%s;" % (o.rng(), o.name)))
        p = r.choice(params)[0] if params and r.random() < 0.7 else str(r.randrange(3))
        c = r.choice(["%s == %d" % (p, r.randrange(4)), "%s > %d" % (p, r.randrange(4)), p, "!%s" % p, "%s < %d" % (p, r.randrange(5))])
        def br():
            lab = self.fresh("gb")
            x = r.random()
            if x < 0.15:
                return "assign %s = %s;" % (o.name, self.E(o.w, env, 1))
            ps = [q for q in kinds if q[0] == "p"]
            if x < 0.35 and ps and o.w > 1:
                q = r.choice(ps)
                ins = "%s #(.%s(%d)) %s (.i(%s), .s(%s), .o(%s));" % (
                    q[1], q[2], o.w, self.fresh("u"), self.E(o.w, env, 1), self.E(1, env, 1), o.name)
                return ins if r.random() < 0.6 else "begin : %s\n%s\nend" % (lab, ins)
            if r.random() < 0.5:
                t = self.newsig("t")
                return "begin : %s\nwire %s%s;\nassign %s = %s;\nassign %s = %s;\nend" % (
                    lab, t.rng(), t.name, t.name, self.E(t.w, env, 1), o.name, self.E(o.w, env + [t], 1))
            return "begin : %s\nassign %s = %s;\nend" % (lab, o.name, self.E(o.w, env, 1))
        t = "if (%s) %s" % (c, br())
        if r.random() < 0.3:
            t += "\nelse if (%s) %s" % ("%s == %d" % (p, r.randrange(4)), br())
        t += "\nelse %s" % br()
        items.append(("i", "generate %s endgenerate" % t))
        env.append(o)

    # ------------------------------------------------------------ hierarchy
    def pmodule(self):
        """a module whose port widths depend on a parameter"""
        r = self.r
        name = self.fresh("pm")
        w = r.choice([2, 3, 4])
        W = r.choice(["W", "WIDTH"])
        style = r.random()
        head = "module %s #(parameter %s = %d, parameter K = %d) (input [%s-1:0] i, input s, output [%s-1:0] o, output p);" % (
            name, W, w, r.randrange(1, 6), W, W)
        old = "module %s (i, s, o, p);\nparameter %s = %d;\nparameter K = %d;\ninput [%s-1:0] i;\ninput s;\noutput [%s-1:0] o;\noutput p;" % (
            name, W, w, r.randrange(1, 6), W, W)
        body = ["wire [%s-1:0] t;" % W]
        body.append("localparam L = %s %s %d;" % (r.choice([W, "K"]), r.choice(["+", "*2-1+", "*"]), r.randrange(1, 3)))
        body.append("assign t = %s;" % r.choice(["i ^ {%s{s}}" % W, "i + K", "i & L", "~i", "i - L", "(s ? i : ~i)", "{i[%s-2:0], s}" % W]))
        x = r.random()
        if x < 0.4:
            body.append("genvar g;\ngenerate for (g = 0; g < %s; g = g + 1) begin : lp\nwire q;\nassign q = t[%s-1-g];\nassign o[g] = q ^ s;\nend endgenerate" % (W, W))
        elif x < 0.7:
            body.append("assign o = %s;" % r.choice(["t", "t + L", "t << 1", "t ^ K"]))
        else:
            body.append("generate if (K > 2) begin : ga\nassign o = t + 1;\nend else begin : gc\nassign o = ~t;\nend endgenerate")
        body.append("assign p = %s;" % r.choice(["^t", "t[0]", "t[%s-1]" % W, "&i", "t > i", "(L > 3)", "t == K"]))
        self.modules.append((old if style < 0.5 else head) + "\n" + "\n".join(body) + "\nendmodule\n")
        return ("p", name, W, w)

    def inst(self, items, env, kinds):
        r = self.r
        m = r.choice(kinds)
        u = self.fresh("u")
        if m[0] == "p":
            over, w = "", m[3]
            x = r.random()
            if x < 0.6:
                w = r.choice([1, 2, 3, 5]) if not "min2" in self.f else r.choice([2, 3, 5])
                kk = r.randrange(1, 7)
                over = r.choice([" #(.%s(%d))" % (m[2], w), " #(%d)" % w, " #(.K(%d), .%s(%d))" % (kk, m[2], w), " #(%d, %d)" % (w, kk)])
            o, p = Sig(self.fresh("o"), w), Sig(self.fresh("p"), 1)
            items.append(("d", "wire %s%s;" % (o.rng(), o.name)))
            items.append(("d", "wire %s;" % p.name))
            i, s = self.E(w, env, 1), self.E(1, env, 1)
            conn = [(".i(%s)" % i), (".s(%s)" % s), ".o(%s)" % o.name, ".p(%s)" % p.name]
            pos = [i, s, o.name, p.name]
        else:
            conn, pos = [], []
            new = []
            for d, q in m[2]:
                if d == "input":
                    e = self.E(q.w, env, 1)
                    if q.name in self.clocks:
                        e = q.name
                    if q.name in self.resets:
                        e = q.name
                else:
                    s = Sig(self.fresh("o"), q.w)
                    items.append(("d", "wire %s%s;" % (s.rng(), s.name)))
                    new.append(s)
                    e = s.name
                conn.append(".%s(%s)" % (q.name, e))
                pos.append(e)
            over = ""
        if r.random() < 0.3:
            ports = ", ".join(pos)
        else:
            r.shuffle(conn)
            ports = ", ".join(conn)
        items.append(("i", "%s%s %s (%s);" % (m[1], over, u, ports)))
        env.extend([o, p] if m[0] == "p" else new)

    # ------------------------------------------------------------ a whole module
    def module(self, name, kinds, top):
        r = self.r
        self.funcs, self.loopvar = [], None
        self.clocks, self.resets = ["CLK"], ["RST"]
        if r.random() < 0.3:
            self.clocks, self.resets = ["clk", "clock_b"], ["rst_n", "reset"]
        elif r.random() < 0.2:
            self.clocks, self.resets = ["SysClk"], ["hard_Reset", "nrst"]
        elif r.random() < 0.2 and top:
            self.clocks, self.resets = [self.r.choice(["clks[1]", "clks[1'b1]", "clks[3-2]"]), "clks[0]", "cpu_clk"], ["rsts[0]", self.r.choice(["rsts[1]", "rsts[2'd1]"])]
        seq = "clk" in self.f
        ins = [Sig(self.fresh("i"), w) for w in r.choice([[4, 4, 1], [8, 3, 2, 1], [4, 1, 1, 2], [5, 4, 3, 1, 1]])]
        if "range" in self.f and r.random() < 0.3:
            ins.append(self.newsig("i", w=4))
        ctl = []
        for c in self.clocks + self.resets if seq else []:
            if c.endswith("]"):
                if c.split("[")[0] not in [x.name for x in ctl]:
                    ctl.append(Sig(c.split("[")[0], 2))
            else:
                ctl.append(Sig(c, 1))
        env = list(ins)
        items, params, ranged = [], [], []
        for _ in range(r.choice([0, 1, 2, 3]) if "param" in self.f else 0):
            q = self.fresh("P")
            v = r.randrange(0, 6)
            if r.random() < 0.3:
                rng = r.choice(["[3:0]", "[4:1]", "[0:3]", "[7:0]", "[2:5]"] + (["[%s+3:0]" % r.choice(params)[0]] if params else []))
                if rng in ("[4:1]", "[0:3]", "[7:0]", "[2:5]"):
                    ranged.append(q)
                items.append(("p", "%s %s %s = %d;" % (r.choice(["parameter", "localparam"]), rng, q, v)))
            else:
                items.append(("p", "%s %s = %s;" % (r.choice(["parameter", "localparam"]), q,
                              str(v) if not params or r.random() < 0.6 else "%s + %d" % (r.choice(params)[0], v))))
            params.append((q, v))
        regs, mems = [], []
        if seq:
            for _ in range(r.choice([1, 2, 3, 4])):
                s = self.newsig("q")
                regs.append(s)
                items.append(("d", "reg %s%s;" % (s.rng(), s.name)))
            if "mem" in self.f and r.random() < 0.5:
                s = Sig(self.fresh("m"), r.choice([1, 4]), dim=r.choice([2, 4, 8]))
                mems.append(s)
                items.append(("d", "reg %s%s%s;" % (s.rng(), s.name, self.dimtext(s))))
            env.extend(regs + mems)
        if "loop" in self.f:
            self.loopvar = self.fresh("k")
            items.append(("d", "integer %s;" % self.loopvar))
        if "func" in self.f:
            for _ in range(r.choice([1, 2])):
                self.function(items, env)
        for _ in range(self.size):
            c = ["a"]
            if "comb" in self.f:
                c += ["c", "c"]
            if kinds:
                c += ["h"]
            if "gen" in self.f:
                c += ["gf", "gi"]
            k = r.choice(c)
            if params and r.random() < 0.3:
                q = r.choice(params)[0]
                s = self.newsig()
                items.append(("d", "wire %s%s;" % (s.rng(), s.name)))
                items.append(("i", "assign %s = %s;" % (s.name, r.choice([q, "%s + %s" % (self.leaf(s.w, env), q), "{%d'd0, %s} == %s" % (28, self.leaf(4, env), q)]
                                                        + ["{%s[3], %s}" % (x, q) for x in ranged] + ["%s[%s] ? %s : %s" % (
                                                            x, r.choice(["2", "3"]), q, self.leaf(s.w, env)) for x in ranged if x == q]))))
                env.append(s)
            if k == "a":
                self.assigns(items, env, r.choice([1, 2]))
            elif k == "c":
                self.comb(items, env)
            elif k == "h":
                self.inst(items, env, kinds)
            elif k == "gf":
                self.gen_for(items, env)
            else:
                self.gen_if(items, env, params, kinds)
        if seq:
            own = regs + mems
            r.shuffle(own)
            while own:
                k = r.randrange(1, len(own) + 1)
                self.clocked(items, env, own[:k])
                own = own[k:]
        outs = []
        for _ in range(r.choice([1, 2])):
            s = self.newsig("y")
            outs.append(s)
            items.append(("i", "assign %s = %s;" % (s.name, self.rhs(s.w, env))))
        ports = [("input", s) for s in ctl + ins] + [("output", s) for s in outs]
        if r.random() < 0.5:
            head = "module %s (%s);" % (name, ", ".join("%s %s%s" % (d, s.rng(), s.name) for d, s in ports))
            decl = []
        else:
            head = "module %s (%s);" % (name, ", ".join(s.name for d, s in ports))
            decl = ["%s %s%s;" % (d, s.rng(), s.name) for d, s in ports]
        body = [t for k, t in items if k == "p"] + decl + [t for k, t in items if k == "d"]
        rest = [t for k, t in items if k in ("i", "f")]
        if r.random() < 0.4:
            r.shuffle(rest)
        self.modules.append(head + "\n" + "\n".join(body + rest) + "\nendmodule\n")
        return ("m", name, ports)

    def design(self):
        kinds = []
        r = self.r
        if "hier" in self.f:
            for _ in range(r.choice([1, 2])):
                kinds.append(self.pmodule())
            if r.random() < 0.5:
                save = self.size
                self.size = 2
                cl = self.clocks_seed = None
                k = self.module(self.fresh("sub"), list(kinds) if r.random() < 0.5 else [], False)
                self.size = save
                kinds.append(k)
        self.module("TOP", [k for k in kinds if k[0] == "p" or not self.seqnames(k)], True)
        if r.random() < 0.5:
            self.modules.reverse()
        return "\n".join(self.modules)

    def seqnames(self, k):
        return "clk" in self.f
