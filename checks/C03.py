"""C03: lexical structure (spec/VLex.tla) against the real tokenizer."""
import itertools

import vt

FULL = [chr(c) for c in range(32, 127)] + ["\n", "\t"]
CORE = list("ax1_9'bsd.e+-<=>&~^|*/\"\\? \n$")[:30]
FRAG = ["module", "endmodule", "or", "posedge", "4'b", "8'sh", "'d", "12", "1_0", "1.5", "2e", "e-3", ".", "3.",
        "a", "_b", "$", "\\x+y ", "\\", "\"s\"", "\"", "\\n", "//", "/*", "*/", "\n", " ", "\t", "`define A\n",
        "`timescale 1ns/1ps\n", "`", "<<<", ">>", ">>>", "===", "!==", "!=", "**", "+:", "-:", "~^", "~&", "~|",
        "&&", "||", "(*", "*)", "@", "#", "x", "z", "?", "F", "G", "'", "signed", "supply0", "supply1", "0", "B1",
        "always_ff", "always", "if", "ifx", "else", "case", "casez", "xX", "Zz", "S", "H", "O7", "o8", "D9", "\r"]

WORDS = """module endmodule begin end generate endgenerate function endfunction task endtask input inout output tri reg
logic wire integer real genvar signed supply0 supply1 assign always always_ff always_comb always_latch or posedge negedge
initial if else for while case casex casez unique endcase default wait forever disable fork join parameter localparam
repeat event wand nand and unsigned""".split()


def main(prop):
    chk = vt.Check(prop)
    rng = chk.rng
    texts = [""] + FULL + ["".join(p) for p in itertools.product(FULL, repeat=2)]
    texts += ["".join(p) for p in itertools.product(CORE[:26 if chk.thorough else 22], repeat=3)]
    # every shape of based literal: size, sign marker, base letter, digits
    digs = ["", "0", "1", "7", "8", "9", "a", "F", "x", "X", "z", "Z", "?", "_", "1_0", "x1", "_1", "0Z?", "9x", "fF_", "g",
            " 1", "1.5", "1e3", "'b1"]
    texts += [n + "'" + sg + b + d for n in ("", "4", "1_2", " ") for sg in ("", "s", "S", "ss") for b in "bBoOdDhHeu" for d in digs]
    # every reserved word: alone, capitalised, as a prefix and as a suffix of an identifier
    texts += [f(w) for w in WORDS for f in (str, str.upper, str.capitalize, lambda w: w + "x", lambda w: "x" + w,
                                            lambda w: w + "1", lambda w: w + "_", lambda w: "_" + w, lambda w: w + "$",
                                            lambda w: "\\" + w, lambda w: w + ".a", lambda w: "1" + w)]
    exhaustive = len(texts)
    for _ in range(60000 if chk.thorough else 6000):
        texts.append("".join(rng.choice(FRAG) for _ in range(rng.randint(2, 9))))
    for _ in range(60000 if chk.thorough else 4000):
        texts.append("".join(rng.choice(CORE) for _ in range(rng.randint(4, 8))))
    n = 400
    jobs = [{"id": "t%d" % i, "op": "lex", "texts": texts[i:i + n]} for i in range(0, len(texts), n)]
    res = chk.observe(jobs, chunk=3)
    part = 120
    for p in range(0, len(jobs), part):
        cases, replays = [], {}
        for j in jobs[p:p + part]:
            r = res[j["id"]]
            if r["err"]:
                chk.fail(j["id"], "tokenizer raised %s %s" % (r["err"], r.get("msg")), j)
                continue
            cases.append({"id": j["id"], "texts": r["texts"]})
            replays[j["id"]] = j["texts"]
        chk.judge("CheckLex", cases, replays, tag="_%d" % p)
    chk.samples = [texts[exhaustive + i] for i in range(4)]
    return chk.finish({"traces_validated_against_impl": len(texts), "texts_enumerated_exhaustively": exhaustive,
                       "explanation": "all texts of up to 2 printable characters, all texts of 3 characters over a "
                                      "core alphabet, and random concatenations of lexical fragments"})
