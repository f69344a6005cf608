"""Shared by the checks about the parser: run texts through the public parse() and let
TLC compare the outcome with spec/VLex + spec/VGrammar."""
import re

import vt

NONE = {"k": "None", "s": "", "c": [], "l": 0}


def error_line(msg):
    """line named by a ParseError; 0: at end of input; -1: none named"""
    m = re.search(r"line:(\d+)", msg or "")
    if m:
        return int(m.group(1))
    return 0 if "end of input" in (msg or "") else -1


def case(cid, text, r, mode="tree", want="any"):
    return {"id": cid, "s": text, "c": [ord(x) for x in text], "err": r["err"], "at": error_line(r.get("msg")),
            "ast": r.get("ast") or NONE, "dirs": r.get("dirs") or [], "mode": mode, "want": want}


def check(chk, texts, mode="tree", want="any", part=1500):
    """texts: {case id: text}"""
    ids = sorted(texts)
    for p in range(0, len(ids), part):
        sel = ids[p:p + part]
        res = chk.observe([{"id": i, "op": "parse", "src": texts[i]} for i in sel])
        cases = [case(i, texts[i], res[i], mode, want) for i in sel]
        tag = "_%s%d" % (re.sub(r"\W", "", sel[0]), p)
        v = chk.judge("CheckParse", cases, {i: texts[i] for i in sel}, tag=tag)
        for i in sel:
            chk.count("accepted" if not res[i]["err"] else "rejected")
            chk.count("traces_validated_against_impl")
            if v[i].startswith("MACHINERY"):
                raise vt.MachineryError(i + " " + v[i] + "\n" + texts[i])
