"""C07: results do not depend on what was done before, in the process or on disk."""
import collections

import parsing
import vt

CFG = "SPECIFICATION Spec\nINVARIANT Inv\nCONSTANT N = %d\nCHECK_DEADLOCK FALSE\n"
SRC = {"flow": "s:ref;--- %s"}


def histories(chk, n, args=(), tag=""):
    lines, _ = chk.tlc("SessionGen", cfg=CFG % n, args=args, tag="_%d%s" % (n, tag))
    texts, hist = {}, []
    for l in lines:
        l = l.replace('\\"', '"').replace("\\\\", "\\")
        if l.startswith("="):
            name, t = l[1:].split("|", 1)
            texts[name] = t.replace("$", "\n")
        else:
            hist.append(tuple(tuple(s.split("!", 1)) for s in l.split("|")[:-1]))
    return texts, sorted(set(hist))


def key(op, text):
    """the step that does the same in a new process, and the text it works on"""
    w = op.split(" ")
    if w[0] == "flow":
        return ("flow %s" % w[2], text)
    if w[0] == "ask":
        top, t = text.split("$", 1)
        return ("ask %s %s" % (w[1], top), t)
    return (w[0], text)


def alone(k):
    op, text = k
    w = op.split(" ")
    text = text.replace("$", "\n")
    if w[0] == "flow":
        steps = ["flow s:ref;--- " + w[1]]
    elif w[0] == "ask":
        steps = ["flow s:ref;--- " + w[2], "ask " + w[1]]
    elif w[0] == "gen":
        steps = ["newg", "gen ref"]
    else:
        steps = [w[0] + " ref"]
    return {"op": "session", "steps": steps, "texts": {"ref": text}}


def main(prop):
    chk = vt.Check(prop)
    texts, two = histories(chk, 2)
    _, long = histories(chk, 5, ("-simulate", "num=%d" % (1500 if chk.thorough else 150), "-depth", "7", "-seed", str(chk.seed)), "s")
    long = chk.rng.sample(long, min(len(long), 12000 if chk.thorough else 800))
    three = histories(chk, 3)[1] if chk.thorough else []
    three = chk.rng.sample(three, min(len(three), 12000))
    hist = two + three + long
    for h in hist:
        chk.count("histories_of_%d" % len(h))
    keys = sorted(set(key(op, t) for h in hist for op, t in h if op.split(" ")[0] in ("flow", "ask", "gen", "lex") and t != "!"))
    # references: each in a new process, under several hash seeds
    refs = collections.defaultdict(list)
    for s in ("0", "1", "2", "77"):
        chk.hashseed = s
        res = chk.observe([dict(alone(k), id=i) for i, k in enumerate(keys)], chunk=max(1, len(keys) // 16))
        for i, k in enumerate(keys):
            r = res[i]
            refs[k].append({"err": r["err"], "dig": ""} if r["err"] else {"err": r["steps"][-1]["err"], "dig": r["steps"][-1].get("dig", "")})
    chk.hashseed = "5"
    res = chk.observe([{"id": i, "op": "session", "texts": texts, "steps": [op for op, _ in h]} for i, h in enumerate(hist)])
    # the parses: each text is a model of its own
    ptexts, at = [], {}
    cases, replays = [], {}
    for i, h in enumerate(hist):
        r, steps = res[i], []
        for n, (op, text) in enumerate(h):
            w = op.split(" ")[0]
            o = {"err": r["err"], "stray": []} if r["err"] else r["steps"][n]
            x = {"op": op, "err": o["err"], "stray": o["stray"], "k": "make"}
            if w in ("parse", "usep", "usek"):
                x["k"] = "lost" if text == "!" else "parse"
                if text != "!":
                    if text not in at:
                        s = text.replace("$", "\n")
                        ptexts.append({"s": s, "c": [ord(c) for c in s]})
                        at[text] = len(ptexts)
                    x.update(m=at[text], ast=o.get("ast") or parsing.NONE, dirs=o.get("dirs") or [], at=parsing.error_line(o.get("msg")))
            elif w in ("flow", "ask", "gen", "lex"):
                x["k"] = "lost" if text == "!" else "same"
                if text != "!":
                    x.update(dig=o.get("dig", ""), ref=refs[key(op, text)][0])
            steps.append(x)
        cases.append({"id": "h%d" % i, "steps": steps, "kept": r.get("kept") or []})
        replays["h%d" % i] = [op for op, _ in h]
    for i, k in enumerate(keys):
        cases.append({"id": "k%d" % i, "kept": [], "steps": [dict(op=k[0], k="same", stray=[], ref=refs[k][0], **r) for r in refs[k][1:]]})
        replays["k%d" % i] = ["hash seeds", k[0], k[1].replace("$", "\n")]
    # small digests: equality is all that matters
    small = {}
    for c in cases:
        for x in c["steps"]:
            for y in (x, x.get("ref", {})):
                if "dig" in y:
                    y["dig"] = small.setdefault(y["dig"], len(small)) if not isinstance(y["dig"], int) else y["dig"]
    for p in range(0, len(cases), 1500):
        chk.judge("CheckSession", cases[p:p + 1500], replays, extra={"texts": ptexts}, tag="_%d" % p)
    chk.count("traces_validated_against_impl", len(cases))
    chk.samples = [replays["h%d" % i] for i in range(0, len(hist), max(1, len(hist) // 4))]
    return chk.finish({"references": len(keys), "explanation":
                       "every history of two operations of SessionGen and random ones of five, each in a process and directory "
                       "of its own; parses against the grammar specification, everything else against a new process given only "
                       "the preprocessed text, under several hash seeds; files left behind; results returned before"})
