"""Runs jobs against the real Pyverilog (imported from the repository under test).

usage: worker.py JOBS.json OUT.json     (cwd = a scratch directory)

Each job is a dict with an "op"; the result dict is the recorded observation.
An exception of the implementation is an observation too: {"err": "<type>", "msg": ..}.
"""
import contextlib
import importlib.util
import io
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def load_tables(path):
    """Hand PLY the LALR tables generated earlier in this very run (PLY re-checks
    the grammar signature, so stale tables are never used)."""
    if not os.path.exists(path):
        return
    spec = importlib.util.spec_from_file_location("pyverilog.vparser.parsetab", path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    import pyverilog.vparser
    sys.modules["pyverilog.vparser.parsetab"] = mod
    pyverilog.vparser.parsetab = mod


def main():
    jobs = json.load(open(sys.argv[1]))
    load_tables(os.environ.get("VT_PARSETAB", ""))
    import ops
    out = []
    for job in jobs:
        res = {}
        sink = io.StringIO()
        try:
            with contextlib.redirect_stdout(sink):
                res = getattr(ops, "op_" + job["op"])(job)
            res.setdefault("err", "")
        except SystemExit as e:
            res = {"err": "SystemExit", "msg": str(e)}
        except RecursionError as e:
            res = {"err": "RecursionError", "msg": ""}
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = ["%s:%s" % (os.path.basename(f.filename), f.name) for f in tb[-3:]]
            res = {"err": type(e).__name__, "msg": str(e)[:300], "where": where}
        res["id"] = job["id"]
        out.append(res)
    with open(sys.argv[2], "w") as f:
        json.dump(out, f)


if __name__ == "__main__":
    main()
