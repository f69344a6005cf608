"""Random source texts over the grammar of spec/VGrammar.tla, as token sequences.
Nothing here is trusted: the specification decides what a token sequence means and
whether it is in the language at all."""

BIN = {"POWER": "**", "TIMES": "*", "DIVIDE": "/", "MOD": "%", "PLUS": "+", "MINUS": "-",
       "LSHIFT": "<<", "RSHIFT": ">>", "LSHIFTA": "<<<", "RSHIFTA": ">>>", "LT": "<", "GT": ">",
       "LE": "<=", "GE": ">=", "EQ": "==", "NE": "!=", "EQL": "===", "NEL": "!==", "AND": "&",
       "XOR": "^", "XNOR": "~^", "OR": "|", "LAND": "&&", "LOR": "||"}
UN = {"MINUS": "-", "LNOT": "!", "NOT": "~", "AND": "&", "NAND": "~&", "OR": "|", "NOR": "~|",
      "XOR": "^", "XNOR": "~^", "PLUS": "+"}
PUNCT = {"LPAREN": "(", "RPAREN": ")", "LBRACKET": "[", "RBRACKET": "]", "LBRACE": "{", "RBRACE": "}",
         "COMMA": ",", "SEMICOLON": ";", "COLON": ":", "DOT": ".", "AT": "@", "DELAY": "#", "DOLLER": "$",
         "COND": "?", "EQUALS": "=", "PLUSCOLON": "+:", "MINUSCOLON": "-:", "TIMES": "*", "LE": "<="}
for _d in (BIN, UN):
    for _k, _v in _d.items():
        PUNCT.setdefault(_k, _v)


def P(t):
    return (t, PUNCT[t])


def K(w):
    return ("SENS_OR" if w == "or" else w.upper(), w)


def ID(n):
    return ("ID", n)


NUMS = [("INTNUMBER_DEC", ["0", "1", "2", "7", "12", "1_000", "'d5", "4'd9", "8'd2_5", "3'dx"]),
        ("SIGNED_INTNUMBER_DEC", ["'sd3", "4'sd7"]),
        ("INTNUMBER_HEX", ["8'hff", "'hA", "16'hdead", "4'hx", "12'hb_d"]),
        ("SIGNED_INTNUMBER_HEX", ["8'sh7f", "'shd"]),
        ("INTNUMBER_OCT", ["6'o17", "'o7"]),
        ("SIGNED_INTNUMBER_OCT", ["6'so17"]),
        ("INTNUMBER_BIN", ["1'b0", "1'b1", "4'b10x?", "'b101", "4'B1_0"]),
        ("SIGNED_INTNUMBER_BIN", ["4'sb1010"]),
        ("FLOATNUMBER", ["1.5", "2e3", "0.25e-2", "3."]),
        ("STRING_LITERAL", ['"abc"', '"a b;c"', '""', '"x\\n"'])]


class G(object):
    def __init__(self, rng, size=3):
        self.r = rng
        self.size = size
        self.uplus = True
        self.names = ["a", "b", "c", "clk", "d_1", "n$x", "Zq", "_u", "data"]
        self.nid = 0

    def name(self):
        if self.r.random() < 0.04:
            return ID("\\" + self.r.choice(["esc", "a+b", "q[3]", "x.y"]))
        return ID(self.r.choice(self.names))

    def fresh(self, p="m"):
        self.nid += 1
        return ID("%s%d" % (p, self.nid))

    def number(self, isint=False):
        t, vs = self.r.choice(NUMS[:8] if isint else NUMS)
        return (t, self.r.choice(vs))

    def simpleint(self):
        return ("INTNUMBER_DEC", str(self.r.randrange(0, 16)))

    # -- expressions
    def ident(self, d, scoped=0.1):
        out = []
        if self.r.random() < scoped:
            for _ in range(self.r.randint(1, 2)):
                out.append(self.name())
                if self.r.random() < 0.4:
                    out += [P("LBRACKET")] + self.expr(min(d, 1)) + [P("RBRACKET")]
                out.append(P("DOT"))
        return out + [self.name()]

    def select(self, d, part=True):
        out = self.ident(d)
        for _ in range(self.r.choice([0, 1, 1, 1, 2])):
            out += [P("LBRACKET")] + self.expr(d - 1) + [P("RBRACKET")]
        if part and self.r.random() < 0.5:
            out += [P("LBRACKET")] + self.expr(d - 1)
            out += [P(self.r.choice(["COLON", "COLON", "PLUSCOLON", "MINUSCOLON"]))]
            out += self.expr(d - 1) + [P("RBRACKET")]
        return out

    def commas(self, parts):
        out = []
        for i, p in enumerate(parts):
            if i:
                out.append(P("COMMA"))
            out += p
        return out

    def expr(self, d=None):
        r = self.r
        d = self.size if d is None else d
        if d <= 0:
            return [self.name()] if r.random() < 0.6 else [self.number()]
        x = r.random()
        if x < 0.10:
            return [self.name()]
        if x < 0.17:
            return [self.number()]
        if x < 0.50:
            return self.expr(d - 1) + [P(r.choice(sorted(BIN)))] + self.expr(d - 1)
        if x < 0.60:
            return [P(r.choice(sorted(u for u in UN if self.uplus or u != "PLUS")))] + self.expr(d - 1)
        if x < 0.68:
            return self.expr(d - 1) + [P("COND")] + self.expr(d - 1) + [P("COLON")] + self.expr(d - 1)
        if x < 0.78:
            return [P("LPAREN")] + self.expr(d - 1) + [P("RPAREN")]
        if x < 0.83:
            return [P("LBRACE")] + self.commas([self.expr(d - 1) for _ in range(r.randint(1, 3))]) + [P("RBRACE")]
        if x < 0.87:
            return [P("LBRACE")] + self.expr(d - 2) + [P("LBRACE")] + \
                self.commas([self.expr(d - 1) for _ in range(r.randint(1, 2))]) + [P("RBRACE"), P("RBRACE")]
        if x < 0.93:
            return self.select(d - 1)
        if x < 0.97:
            return self.ident(d) + [P("LPAREN")] + \
                self.commas([self.expr(d - 2) for _ in range(r.randint(0, 3))]) + [P("RPAREN")]
        return [P("DOLLER"), r.choice([ID("time"), ID("signed_"), ("SIGNED", "signed"), ID("clog2")]), P("LPAREN")] + \
            self.commas([self.expr(d - 2) for _ in range(r.randint(1, 2))]) + [P("RPAREN")] \
            if r.random() < 0.7 else [P("DOLLER"), ID("random")]

    def lvalue(self, d=1):
        r = self.r
        x = r.random()
        if x < 0.5:
            return self.ident(d, 0.05)
        if x < 0.85:
            return self.select(d)
        return [P("LBRACE")] + self.commas([self.lvalue(d - 1) if d > 0 else [self.name()]
                                            for _ in range(r.randint(1, 3))]) + [P("RBRACE")]

    def delay(self, p=0.1):
        r = self.r
        if r.random() >= p:
            return []
        x = r.random()
        if x < 0.4:
            return [P("DELAY"), self.simpleint()]
        if x < 0.6:
            return [P("DELAY"), ("FLOATNUMBER", "1.5")]
        if x < 0.8:
            return [P("DELAY"), ID("tpd")]
        return [P("DELAY"), P("LPAREN")] + self.expr(1) + [P("RPAREN")]

    # -- statements
    def assign_stmt(self, op=None, d=2, dl=0.06):
        op = op or self.r.choice(["EQUALS", "LE"])
        return self.delay(dl) + self.lvalue() + [P(op)] + self.delay(dl) + self.expr(d) + [P("SEMICOLON")]

    def sens(self, opt=True):
        r = self.r
        x = r.random()
        sep = lambda: r.choice([K("or"), P("COMMA")])

        def seq(items):
            out = []
            for i, it in enumerate(items):
                if i:
                    out.append(sep())
                out += it
            return out
        if x < 0.1:
            return [P("AT"), P("TIMES")]
        if x < 0.25:
            return [P("AT"), P("LPAREN"), P("TIMES"), P("RPAREN")]
        if x < 0.3:
            return [P("AT"), self.name()]
        if x < 0.33 and opt:
            return []
        if x < 0.65:
            return [P("AT"), P("LPAREN")] + seq([[K(r.choice(["posedge", "negedge"]))] +
                                                 (self.ident(1, 0.05) if r.random() < 0.8 else self.select(1, False))
                                                 for _ in range(r.randint(1, 3))]) + [P("RPAREN")]
        return [P("AT"), P("LPAREN")] + seq([self.ident(1, 0.05) if r.random() < 0.7 else self.select(1)
                                             for _ in range(r.randint(1, 3))]) + [P("RPAREN")]

    def forhead(self):
        r = self.r
        v = self.name()
        pre = [v, P("EQUALS")] + self.expr(1) + [P("SEMICOLON")] if r.random() < 0.9 else [P("SEMICOLON")]
        cond = (self.expr(2) if r.random() < 0.9 else []) + [P("SEMICOLON")]
        post = [v, P("EQUALS")] + self.expr(1) if r.random() < 0.9 else []
        return [K("for"), P("LPAREN")] + pre + cond + post + [P("RPAREN")]

    def block(self, d):
        r = self.r
        n = r.randint(0, 3)
        if r.random() < 0.3:
            out = [K("begin"), P("COLON"), self.fresh("blk")]
            for _ in range(r.choice([0, 0, 1, 2])):
                out += self.blockdecl()
            for _ in range(n):
                out += self.stmt(d - 1)
            return out + [K("end")]
        out = [K("begin")]
        for _ in range(n):
            out += self.stmt(d - 1)
        return out + [K("end")]

    def blockdecl(self):
        r = self.r
        x = r.random()
        if x < 0.4:
            return [K(r.choice(["reg", "wire"]))] + ([K("signed")] if r.random() < 0.2 else []) + self.width(0.5) + \
                self.declnames() + [P("SEMICOLON")]
        if x < 0.7:
            return self.integerdecl()
        if x < 0.8:
            return [K("real"), self.name(), P("SEMICOLON")]
        return self.paramdecl(r.choice(["parameter", "localparam"])) + [P("SEMICOLON")]

    def stmt(self, d=2):
        r = self.r
        x = r.random()
        if d <= 0 or x < 0.30:
            return self.assign_stmt()
        if x < 0.46:
            out = [K("if"), P("LPAREN")] + self.expr(2) + [P("RPAREN")] + self.stmt(d - 1)
            if r.random() < 0.5:
                out += [K("else")] + self.stmt(d - 1)
            return out
        if x < 0.58:
            kw = r.choice([[K("case")], [K("casex")], [K("casez")], [K("unique"), K("case")]])
            out = kw + [P("LPAREN")] + self.expr(1) + [P("RPAREN")]
            for _ in range(r.randint(1, 3)):
                out += self.commas([self.expr(1) for _ in range(r.randint(1, 2))]) + [P("COLON")] + self.stmt(d - 1)
            if r.random() < 0.6:
                out += [K("default"), P("COLON")] + self.stmt(d - 1)
            return out + [K("endcase")]
        if x < 0.66:
            return self.forhead() + self.stmt(d - 1)
        if x < 0.70:
            return [K("while"), P("LPAREN")] + self.expr(1) + [P("RPAREN")] + self.stmt(d - 1)
        if x < 0.83:
            return self.block(d)
        if x < 0.85:
            return [K("fork")] + self.stmt(d - 1) + self.stmt(0) + [K("join")]
        if x < 0.87:
            return self.sens(False) + [P("SEMICOLON")]
        if x < 0.90:
            return [K("wait"), P("LPAREN")] + self.expr(1) + [P("RPAREN")] + \
                ([P("SEMICOLON")] if r.random() < 0.5 else self.stmt(d - 1))
        if x < 0.92:
            return [K("forever")] + self.stmt(d - 1)
        if x < 0.94:
            return [P("DELAY")] + ([self.simpleint()] if r.random() < 0.5 else
                                   [P("LPAREN")] + self.expr(1) + [P("RPAREN")]) + [P("SEMICOLON")]
        if x < 0.97:
            return [P("DOLLER"), ID(r.choice(["display", "finish", "write"]))] + \
                ([P("LPAREN")] + self.commas([self.expr(1) for _ in range(r.randint(0, 3))]) + [P("RPAREN")]
                 if r.random() < 0.8 else []) + [P("SEMICOLON")]
        if x < 0.985:
            return [K("disable"), self.name(), P("SEMICOLON")]
        return [P("SEMICOLON")]

    # -- declarations
    def width(self, p=0.6):
        if self.r.random() >= p:
            return []
        if self.r.random() < 0.6:
            return [P("LBRACKET"), self.simpleint(), P("COLON"), self.simpleint(), P("RBRACKET")]
        return [P("LBRACKET")] + self.expr(1) + [P("COLON")] + self.expr(1) + [P("RBRACKET")]

    def declnames(self, dims=0.15):
        r = self.r
        out = []
        for i in range(r.choice([1, 1, 2, 3])):
            if i:
                out.append(P("COMMA"))
            out.append(self.name())
            while r.random() < dims:
                out += self.width(1.0)
        return out

    def integerdecl(self):
        r = self.r
        out = [K("integer")] + ([K("signed")] if r.random() < 0.2 else [])
        for i in range(r.choice([1, 1, 2])):
            if i:
                out.append(P("COMMA"))
            out.append(self.name())
            if r.random() < 0.3:
                out += [P("EQUALS")] + self.expr(1)
        return out + [P("SEMICOLON")]

    def paramdecl(self, kw):
        r = self.r
        out = [K(kw)]
        x = r.random()
        if x < 0.1:
            out += [K("integer")]
        else:
            if x < 0.25:
                out += [K("signed")]
            out += self.width(0.35)
        for i in range(r.choice([1, 1, 2, 3])):
            if i:
                out.append(P("COMMA"))
            out += [self.name(), P("EQUALS")] + self.expr(1)
        return out

    SIG = [["input"], ["output"], ["inout"], ["wire"], ["reg"], ["tri"], ["output", "reg"], ["output", "wire"],
           ["input", "wire"], ["inout", "tri"], ["inout", "wire"], ["wire", "output"], ["reg", "output"],
           ["signed", "input"], ["reg", "signed"], ["wire", "signed"], ["output", "reg", "signed"],
           ["input", "signed"], ["output", "signed"], ["inout", "signed"], ["supply0"], ["supply1"]]

    def decl(self):
        r = self.r
        s = r.choice(self.SIG)
        out = [K(w) for w in s] + self.width()
        if s[-1] in ("wire", "reg", "signed") and ("wire" in s or "reg" in s) and r.random() < 0.4 and \
                not ("inout" in s and "tri" in s):
            d1 = self.delay(0.25)
            out += d1 + [self.name(), P("EQUALS")] + (self.delay(0.4) if d1 else []) + self.expr(2)
            return out + [P("SEMICOLON")]
        return out + self.declnames(0.0 if "supply" in s[0] else 0.15) + [P("SEMICOLON")]

    def conns(self, named, blank, d=1):
        r = self.r
        n = r.randint(0, 3)
        if n == 0:
            return []
        if named:
            return self.commas([[P("DOT"), self.name(), P("LPAREN")] +
                                ([] if blank and r.random() < 0.15 else self.expr(d)) + [P("RPAREN")]
                                for _ in range(n)])
        out = self.commas([self.expr(d) for _ in range(n)])
        return [P("COMMA")] + out if blank and r.random() < 0.05 else out

    def instance(self):
        r = self.r
        m = K("or") if r.random() < 0.05 else ID(r.choice(["sub", "and", "FIFO", "xor"]))
        out = [m]
        if r.random() < 0.15:
            return out + self.commas([[P("LPAREN")] + self.conns(r.random() < 0.5, True) + [P("RPAREN")]
                                      for _ in range(r.choice([1, 1, 2]))]) + [P("SEMICOLON")]
        if r.random() < 0.4:
            out += [P("DELAY"), P("LPAREN")] + self.conns(r.random() < 0.5, False) + [P("RPAREN")]
        bodies = []
        for _ in range(r.choice([1, 1, 2])):
            bodies.append([self.fresh("u")] + self.width(0.15) + [P("LPAREN")] +
                          self.conns(r.random() < 0.5, True) + [P("RPAREN")])
        return out + self.commas(bodies) + [P("SEMICOLON")]

    def subdecls(self, n):
        r = self.r
        out = []
        for _ in range(n):
            if r.random() < 0.7:
                out += [K(r.choice(["input", "reg"]))] + self.width(0.5) + self.declnames(0) + [P("SEMICOLON")]
            else:
                out += self.integerdecl()
        return out

    def substmt(self):
        r = self.r
        while True:
            s = r.choice([self.assign_stmt("EQUALS"), self.stmt(2), self.block(2)])
            if s[0][0] in ("IF", "FOR", "WHILE", "CASE", "CASEX", "CASEZ", "BEGIN"):
                return s
            if s[0][0] == "ID" and s[-1][0] == "SEMICOLON":
                return self.assign_stmt("EQUALS", dl=0)

    def function(self):
        r = self.r
        w = r.random()
        out = [K("function")] + (self.width(1.0) if w < 0.5 else [K("integer")] if w < 0.65 else [])
        return out + [self.name(), P("SEMICOLON")] + self.subdecls(r.randint(1, 3)) + self.substmt() + [K("endfunction")]

    def task(self):
        return [K("task"), self.name(), P("SEMICOLON")] + self.subdecls(self.r.randint(0, 2)) + self.substmt() + \
            [K("endtask")]

    def pragma(self):
        return [P("LPAREN"), P("TIMES"), self.name()] + \
            ([P("EQUALS")] + (self.expr(0) if self.r.random() < 0.5 else
                              [P("LPAREN")] + self.expr(1) + [P("RPAREN")]) if self.r.random() < 0.6 else []) + [P("TIMES"), P("RPAREN")]

    def item(self, d=2):
        r = self.r
        x = r.random()
        if x < 0.22:
            return self.decl()
        if x < 0.27:
            return self.integerdecl()
        if x < 0.29:
            return [K(r.choice(["real", "genvar"]))] + self.commas([[self.name()] for _ in range(r.randint(1, 2))]) + \
                [P("SEMICOLON")]
        if x < 0.37:
            return self.paramdecl(r.choice(["parameter", "localparam"])) + [P("SEMICOLON")]
        if x < 0.50:
            dl = self.delay(0.1)
            return [K("assign")] + dl + self.lvalue() + [P("EQUALS")] + (self.delay(0.5) if dl else []) + self.expr() + [P("SEMICOLON")]
        if x < 0.70:
            return [K(r.choice(["always"] * 6 + ["always_ff", "always_comb", "always_latch"]))] + self.sens() + \
                self.stmt(3)
        if x < 0.74:
            return [K("initial")] + self.stmt(2)
        if x < 0.84:
            return self.instance()
        if x < 0.89:
            return self.function()
        if x < 0.92:
            return self.task()
        if x < 0.94:
            return self.pragma()
        return [K("generate")] + sum([self.genitem(2) for _ in range(r.randint(0, 3))], []) + [K("endgenerate")]

    def genbody(self, d):
        r = self.r
        if r.random() < 0.2:
            return self.genitem(d - 1)
        out = [K("begin")] + ([P("COLON"), self.fresh("g")] if r.random() < 0.7 else [])
        return out + sum([self.genitem(d - 1) for _ in range(r.randint(0, 2))], []) + [K("end")]

    def genitem(self, d):
        r = self.r
        x = r.random()
        if d > 0 and x < 0.3:
            out = [K("if"), P("LPAREN")] + self.expr(1) + [P("RPAREN")] + self.genbody(d)
            if r.random() < 0.5:
                out += [K("else")] + self.genbody(d)
            return out
        if d > 0 and x < 0.6:
            return self.forhead() + self.genbody(d)
        while True:
            it = self.item(1)
            if it[0][0] != "GENERATE":
                return it

    def ports(self):
        r = self.r
        x = r.random()
        if x < 0.08:
            return [P("SEMICOLON")]
        if x < 0.14:
            return [P("LPAREN"), P("RPAREN"), P("SEMICOLON")]
        if x < 0.45:
            return [P("LPAREN")] + self.commas([[self.name()] for _ in range(r.randint(1, 4))]) + \
                [P("RPAREN"), P("SEMICOLON")]
        ps = []
        for i in range(r.randint(1, 5)):
            if i and r.random() < 0.35:
                ps.append([self.name()])
                continue
            s = r.choice([x for x in self.SIG if ("input" in x or "output" in x or "inout" in x)])
            w = self.width(0.5)
            ps.append([K(q) for q in s] + w + [self.name()] +
                      (self.width(1.0) if w and r.random() < 0.1 else []))
        return [P("LPAREN")] + self.commas(ps) + [P("RPAREN"), P("SEMICOLON")]

    def module(self, items=None):
        r = self.r
        out = [K("module"), self.fresh("mod")]
        if r.random() < 0.3:
            out += [P("DELAY"), P("LPAREN")] + \
                self.commas([self.paramdecl("parameter") for _ in range(r.randint(1, 3))]) + [P("RPAREN")]
        out += self.ports()
        for _ in range(r.randint(0, 4) if items is None else items):
            out += self.item()
        return out + [K("endmodule")]

    def source(self):
        out = []
        for _ in range(self.r.choice([1, 1, 1, 2])):
            if self.r.random() < 0.05:
                out += self.pragma()
            out += self.module()
        return out


def mutate(toks, rng):
    """One small edit of a token sequence (it may or may not stay in the language)."""
    t = list(toks)
    x = rng.random()
    i = rng.randrange(len(t))
    if x < 0.35:
        del t[i]
    elif x < 0.55:
        t.insert(i, t[rng.randrange(len(t))])
    elif x < 0.75:
        j = rng.randrange(len(t))
        t[i], t[j] = t[j], t[i]
    elif x < 0.9 and len(t) > 1:
        i = rng.randrange(len(t) - 1)
        t[i], t[i + 1] = t[i + 1], t[i]
    else:
        t[i] = rng.choice([P(k) for k in sorted(PUNCT)] + [K("begin"), K("end"), K("else"), K("module"), ID("zz")])
    return t


TIGHT = set("()[]{};,")


COMMENTS = [" /* c; end */ ", " // module x\n", "/* two\nlines ** */", " /**/ ", "//\n"]
# line counting: other line-breaking characters inside comments
ODD = ["/* f\fg */", "/* v\v\v */", "/* a\r\nb */", "/*\x1c\x1d\x1e*/", "/*\x85 \u2028*/", "/*\n*/", "/*\n\n\n\n*/",
       "// \v \f\n", "/* // */", "/* \" */", "// /* x\n", "/* `line */", "// `timescale\n"]


def layout(toks, rng, comments=0.03, newline=0.12, tight=0.4, odd=0.0):
    """Token list -> (text, tokens with lines).  Whitespace and comments are random."""
    text = []
    line = 1
    out = []
    prev = ""
    for n, (t, v) in enumerate(toks):
        sep = " "
        x = rng.random()
        if x < newline:
            sep = rng.choice(["\n", "\n\n", " \n\t", "\n  "])
        elif x < newline + comments:
            sep = rng.choice(ODD if rng.random() < odd else COMMENTS)
            if prev[:1] == "\\" or prev == "/" or prev == "(" and sep[0] != " " or True:
                sep = " " + sep + " "
        elif x < newline + comments + tight and prev and prev[0] != "\\" and \
                (prev in TIGHT or v in TIGHT) and not (prev == "(" and v == "*") and not (prev == "*" and v == ")"):
            sep = ""
        if n == 0 and sep != "" and rng.random() < 0.5:
            sep = ""
        text.append(sep)
        line += sep.count("\n")
        text.append(v)
        out.append({"t": t, "v": v, "l": line})
        prev = v
    text.append("\n")
    return "".join(text)
