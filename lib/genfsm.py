"""Random state machines, and state machines for enumerated conditions.  Nothing here is
trusted: the specification decides what the next state is."""
import gendf

CMP = ["==", "!=", "<", "<=", ">", ">=", "===", "!=="]


class F(object):
    def __init__(self, rng):
        self.r = rng

    def const(self, w, over=False):
        v = self.r.randrange((1 << w) + (2 if over and self.r.random() < 0.1 else 0))
        if self.names and v in self.names and self.r.random() < 0.6:
            return self.names[v]
        return self.r.choice(["%d", "%d", "%d", "4'd%d", "5'h%x"]) % v

    def leaf(self):
        r = self.r
        x = r.random()
        s, w = self.s, self.w
        if x < 0.4:
            a = [s, self.const(w, True)]
            if r.random() < 0.3:
                a.reverse()
            return "(%s %s %s)" % (a[0], r.choice(CMP), a[1])
        if x < 0.46:
            return s
        if x < 0.5 and w > 1:
            return "%s[%d]" % (s, r.randrange(w))
        if x < 0.54:
            return "(%s %s %s)" % (s, r.choice(CMP), r.choice(["d", "r"]))
        if x < 0.58:
            return r.choice(["idle", "(!idle)", "w1"])
        if x < 0.8:
            return r.choice(["a", "b", "a", "b", "q"])
        if x < 0.86:
            return "(%s %s %d)" % (r.choice(["d", "r"]), r.choice(CMP), r.randrange(4))
        if x < 0.9:
            return "(%s%s)" % (r.choice(["&", "|", "^", "~&", "~|", "~^"]), r.choice(["d", "r", s]))
        if x < 0.94:
            return r.choice(["d", "r[0]", "d[1]", "(a == b)", "(a ^ b)", "(d + 1)", "(d - r)"])
        return r.choice(["1", "0", "1'b1"]) if r.random() < 0.3 else "(d == %s)" % r.choice(["r", "2"])

    def cond(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.3:
            return self.leaf()
        x = r.random()
        if x < 0.35:
            return "(%s && %s)" % (self.cond(d - 1), self.cond(d - 1))
        if x < 0.65:
            return "(%s || %s)" % (self.cond(d - 1), self.cond(d - 1))
        if x < 0.9:
            return "(!%s)" % self.cond(d - 1)
        one = ["a", "b", "(%s == %s)" % (self.s, self.const(self.w)), "q", "(d == 1)"]
        if x < 0.97:
            return "(%s %s %s)" % (r.choice(one), r.choice(["&", "|"]), r.choice(one))
        return "(~%s)" % r.choice(one)

    def put(self):
        self.dst = min(self.dst, 1 << self.w)
        v = self.r.choice(self.dsts)
        x = self.r.random()
        if x < 0.1:
            return "%s %s %s;" % (self.t, self.op, self.s)
        v = self.names[v] if v in self.names and self.r.random() < 0.7 else self.r.choice(["%d", "4'd%d"]) % v
        return "%s %s %s;" % (self.t, self.op, v)

    def body(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.2:
            ss = [self.put()]
            if r.random() < 0.3:
                ss.insert(0, "y %s 1;" % self.op if self.two else "o <= %d;" % r.randrange(4))
            return "begin %s end" % " ".join(ss)
        x = r.random()
        if x < 0.5:
            t = "if (%s) %s" % (self.cond(r.choice([0, 1, 1, 2])), self.body(d - 1))
            if r.random() < 0.6:
                t += " else %s" % self.body(d - 1)
            return "begin %s end" % t
        if x < 0.9:
            sel, n = (self.s, self.w) if r.random() < 0.8 else ("d", 2)
            vs = r.sample(range(1 << n), r.randrange(1, (1 << n) + 1))
            its = []
            while vs:
                k = 1 if r.random() < 0.8 else min(len(vs), 2)
                labs = [self.names.get(v, str(v)) if sel == self.s else str(v) for v in vs[:k]]
                vs = vs[k:]
                its.append("%s: %s" % (", ".join(labs), self.body(d - 1)))
            if r.random() < 0.5:
                its.append("default: %s" % self.body(d - 1))
            return "begin case (%s) %s endcase end" % (sel, " ".join(its))
        return "begin if (%s) %s if (%s) %s end" % (self.cond(1), self.body(d - 1), self.cond(1), self.body(d - 1))

    def design(self):
        r = self.r
        self.w = r.choice([1, 2, 2, 2, 3, 3])
        self.dst = 8
        n = 1 << self.w
        self.dsts = r.sample(range(n), min(n, r.choice([2, 3, 4, 4])))
        sub = r.random() < 0.3
        self.s = self.t = r.choice(["state", "fsm_state", "mode"])
        self.two = r.random() < 0.3
        self.op = "<="
        self.names = {}
        decl = ["input CLK, RST, a, b;", "input [1:0] d;", "output o2;"]
        if r.random() < 0.5:
            for v in range(n):
                self.names[v] = "S%d" % v
            if r.random() < 0.5:
                decl.append("localparam " + ", ".join("S%d = %d" % (v, v) for v in range(n)) + ";")
            else:
                decl += ["parameter S%d = %d;" % (v, v) for v in range(n)]
        rng = "[%d:0] " % (self.w - 1) if self.w > 1 or r.random() < 0.2 else ""
        decl += ["reg %s%s;" % (rng, self.s), "reg [1:0] r, o;", "reg q, y;", "wire idle = (%s == %s);" % (self.s, self.const(self.w)),
                 "wire w1;", "assign w1 = !(!%s);" % self.cond(1).replace("w1", "a").replace("idle", "b"), "assign o2 = ^o ^ y ^ q;"]
        if self.two:
            self.t, self.op = "nxt", "="
            decl += ["reg %snxt;" % rng, "always @(*) begin nxt = %s; y = 0; %s end" % (self.s, self.body(r.choice([1, 2, 2])))]
            step = "%s <= nxt;" % self.s
        else:
            decl.append("always @(posedge CLK) y <= a;")
            step = self.body(r.choice([1, 2, 2, 3]))
        self.t, self.op = self.s, "<="
        hi = r.random() < 0.6
        x = r.random()
        init = r.choice(self.dsts)
        init = self.names.get(init, str(init))
        if x < 0.2:
            decl.append("always @(posedge CLK) %s" % step)
        else:
            c = "RST" if hi else r.choice(["!RST", "~RST"])
            if r.random() < 0.15:
                c = "RST == %d" % hi
            sens = "posedge CLK" if x < 0.5 else "posedge CLK or %s RST" % ("posedge" if hi else "negedge")
            if r.random() < 0.85:
                decl.append("always @(%s) if (%s) begin %s <= %s; %s end else %s" % (sens, c, self.s, init, "o <= 0;" if not self.two else "", step))
            else:
                decl.append("always @(posedge CLK) begin %s if (%s) %s <= %s; end" % (step, c, self.s, init))
        decl.append("always @(posedge CLK) begin r <= d; q <= a ^ b; end")
        name = "SUB" if sub else "TOP"
        src = "module %s (CLK, RST, a, b, d, o2);\n%s\nendmodule\n" % (name, "\n".join(decl))
        pre = "TOP."
        if sub:
            src += ("module TOP (CLK, RST, a, b, e, f);\ninput CLK, RST, a, b; input [1:0] e; output f;\n"
                    "wire [1:0] d = e %s;\nSUB u (.CLK(CLK), .RST(RST), .a(%s), .b(b), .d(d), .o2(f));\nendmodule\n") % (
                        r.choice(["", "& {b, b}", "^ {a, b}"]), r.choice(["a", "!a", "(a | b)"]))
            pre = "TOP.u."
        rst = [{"n": "TOP.RST", "v": 0 if hi else 1}]
        return {"src": src, "rst": rst, "fsm": pre + self.s, "watch": [pre + "o", pre + "y"]}


def ring(rng):
    """a machine of many states in a cycle, with a few shortcuts"""
    w = rng.choice([3, 4, 4, 5])
    n = rng.randrange(5, (1 << w) + 1)
    order = rng.sample(range(1 << w), n)
    items = []
    for i, s in enumerate(order):
        t = "state <= %d;" % order[(i + 1) % n]
        x = rng.random()
        if x < 0.2:
            t = "if (%s) %s" % (rng.choice(["a", "!a", "a || b", "d == 2", "a && !b"]), t)
        if 0.1 < x < 0.25 or (x > 0.9 and n < 10):
            t = "if (%s) state <= %d; else begin %s end" % (rng.choice(["b", "d > 1", "a == b"]), rng.choice(order), t)
        if x > 0.95 and i:
            t = "begin end"
        items.append("%d: begin %s end" % (s, t))
    rng.shuffle(items)
    if rng.random() < 0.3:
        items.append("default: state <= %d;" % order[0])
    src = ("module TOP (CLK, RST, a, b, d);\ninput CLK, RST, a, b; input [1:0] d;\nreg [%d:0] state;\nalways @(posedge CLK) "
           "if (RST) state <= %d; else case (state) %s endcase\nendmodule\n") % (w - 1, order[0], " ".join(items))
    return {"src": src, "rst": [{"n": "TOP.RST", "v": 0}], "watch": []}


SHAPES = ["if (%s) S <= 1; else if (%s) S <= 2;", "if (%s) begin if (%s) S <= 3; else S <= 0; end", "if ((%s) && (%s)) S <= 2;",
          "if ((%s) || (%s)) S <= 1; else S <= 3;", "if (!((%s) && (%s))) S <= 0;", "if (!((%s) || !(%s))) S <= 1;",
          "begin if (%s) S <= 1; if (%s) S <= 0; end"]


def guards(chk):
    lines, _ = chk.tlc("FsmGen", cfg="SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n")
    return sorted(set(lines))


def pack(gs, per=12):
    """designs with one state register for each enumerated guard"""
    import re
    out = {}
    for k in range(0, len(gs), per):
        decl, body = [], []
        for i, g in enumerate(gs[k:k + per]):
            x, y, p = g.split("@")
            n = "state%d" % i
            t = re.sub(r"\bs\b", n, SHAPES[int(p)] % (x, y)).replace("S <=", n + " <=")
            decl.append("reg [1:0] %s;" % n)
            body.append("always @(posedge CLK%s) if (RST) %s <= 0; else %s" % (" or posedge RST" if i % 3 == 0 else "", n, t))
        out["g%d" % (k // per)] = {"src": "module TOP (CLK, RST, a, b, d);\ninput CLK, RST, a, b; input [1:0] d;\n%s\n%s\nendmodule\n" % (
            "\n".join(decl), "\n".join(body)), "rst": [{"n": "TOP.RST", "v": 0}], "watch": []}
    return out
