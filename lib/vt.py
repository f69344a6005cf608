"""Common machinery of the checks: scratch directories, running the code under test,
running TLC on the recorded observations, verdicts, evidence."""
import atexit
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 4)


class MachineryError(Exception):
    pass


class Check(object):
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        if "--quick" in sys.argv:
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.deadline = self.t0 + (780 if not self.thorough else 3 * 3600)
        self._runs = 0
        self.scratch = tempfile.mkdtemp(prefix="vt_%s_" % prop)
        atexit.register(shutil.rmtree, self.scratch, True)
        self.cov = {}
        self.states = 0
        self.transitions = 0
        self.bad = []          # (case id, message, replay dict)
        self.known = json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"] \
            if os.path.exists(os.path.join(VERIF, "known_findings.json")) else []
        self.known = {k["case"]: k for k in self.known if k["property"] == prop}
        self.samples = []
        self.assumptions = []
        self.counts = {}
        self._tab = None
        self.hashseed = "0"

    # ------------------------------------------------------------------ code under test
    def _env(self):
        env = dict(os.environ)
        env["PYTHONPATH"] = REPO
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env["PYTHONHASHSEED"] = self.hashseed
        if self._tab:
            env["VT_PARSETAB"] = self._tab
        return env

    def _worker(self, jobs, idx, timeout):
        d = os.path.join(self.scratch, "w%s" % idx)
        os.makedirs(d, exist_ok=True)
        jf, of = os.path.join(d, "jobs.json"), os.path.join(d, "out.json")
        json.dump(jobs, open(jf, "w"))
        if os.path.exists(of):
            os.remove(of)
        try:
            p = subprocess.run([PY, os.path.join(VERIF, "lib", "worker.py"), jf, of], cwd=d,
                               env=self._env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            p = None
        if p is not None and os.path.exists(of):
            return json.load(open(of))
        if len(jobs) == 1:
            # the implementation hung or killed its process: an observation
            return [{"id": jobs[0]["id"], "err": "Hang" if p is None else "Crash",
                     "msg": "" if p is None else p.stderr.decode(errors="replace")[-300:]}]
        out = []
        h = max(1, len(jobs) // 4)
        for i in range(0, len(jobs), h):
            out += self._worker(jobs[i:i + h], "%s_%d" % (idx, i), max(30, timeout / 2))
        return out

    def warm(self):
        """Generate the LALR tables from the current grammar once, for all workers."""
        if self._tab is None:
            self._worker([{"id": 0, "op": "warm"}], "warm", 120)
            t = os.path.join(self.scratch, "wwarm", "parsetab.py")
            if os.path.exists(t):
                self._tab = t

    def observe(self, jobs, timeout=300, chunk=None):
        """Run the jobs on the code under test, in parallel; results by id."""
        self.warm()
        n = chunk or max(1, min(60, (len(jobs) + NPROC * 3 - 1) // (NPROC * 3)))
        chunks = [jobs[i:i + n] for i in range(0, len(jobs), n)]
        with ThreadPoolExecutor(NPROC) as ex:
            res = list(ex.map(lambda a: self._worker(a[1], a[0], timeout), enumerate(chunks)))
        out = {}
        for r in res:
            for x in r:
                out[x["id"]] = x
        if len(out) != len(jobs):
            raise MachineryError("lost results: %d of %d" % (len(out), len(jobs)))
        return out

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, data=None, cfg=None, workers=NPROC, args=(), timeout=800, xss="64m", heap="6g", tag="", tolerant=False):
        """Run TLC on spec/<module>.tla in a scratch copy of spec/ with data.json.
        Returns (verdict lines, full output)."""
        d = os.path.join(self.scratch, "tlc_" + module + tag)
        if not os.path.exists(d):
            shutil.copytree(os.path.join(VERIF, "spec"), d)
        if data is not None:
            json.dump(data, open(os.path.join(d, "data.json"), "w"))
        if cfg is not None:
            open(os.path.join(d, module + ".cfg"), "w").write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-Xss" + xss, "-Xmx" + heap, "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               "-config", module + ".cfg"] + list(args) + [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            raw, late = p.stdout, False
        except subprocess.TimeoutExpired as e:
            if not tolerant:
                raise MachineryError("TLC timed out on " + module)
            raw, late = e.stdout or b"", True
        out = raw.decode(errors="replace")
        m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out)
        if m:
            self.transitions += int(m[-1][0])
            self.states += int(m[-1][1])
        self.last_states = int(m[-1][1]) if m else 0
        self.tlc_status = "late" if late else "ok"
        if "Model checking completed. No error has been found." not in out and "-simulate" not in args and not late:
            self.tlc_status = "failed"
        if self.tlc_status == "failed" and not tolerant:
            open(os.path.join(d, "tlc.out"), "w").write(out)
            raise MachineryError("TLC failed on %s:\n%s" % (module, "\n".join(
                l for l in out.splitlines() if not l.startswith(("Parsing", "Semantic", "Linting")))[-3000:]))
        lines = []
        for l in out.splitlines():
            if l.startswith('"@') and l.endswith('"'):
                lines.append(l[2:-1])
        return lines, out

    def judge(self, module, cases, replays=None, extra=None, **kw):
        """Check every case record with a case-checking specification.  Its verdicts are
        lines '@<case id>|<verdict>'; 'ok' unless the specification is contradicted."""
        verdict = {}
        self._judge(module, cases, verdict, extra, kw)
        ids = [str(c["id"]) for c in cases]
        for i in ids:
            if verdict[i] == "skipped":
                self.count("cases_skipped_for_time")
            elif verdict[i] != "ok":
                self.fail(i, verdict[i], (replays or {}).get(i))
        return verdict

    def _judge(self, module, cases, verdict, extra, kw, again=False):
        left = self.deadline - time.time()
        if left < 20:
            for c in cases:
                verdict[str(c["id"])] = "skipped"
            return
        one = len(cases) == 1
        kw = dict(kw, tag="%s_%d" % (kw.get("tag", ""), self._runs))
        self._runs += 1
        lines, out = self.tlc(module, dict({"cases": cases}, **(extra or {})), tolerant=True,
                              timeout=min(left, 60 if one and again else 240 if again else 600), **kw)
        shutil.rmtree(os.path.join(self.scratch, "tlc_" + module + kw["tag"]), ignore_errors=True)
        status = self.tlc_status
        if status == "failed" and ("analysis failed" in out or "*** Errors" in out or "Could not find" in out):
            raise MachineryError("%s does not parse:\n%s" % (module, out[-1500:]))
        for l in lines:
            i, v = l.split("|", 1)
            verdict.setdefault(i, v)
        missing = [c for c in cases if str(c["id"]) not in verdict]
        if not missing:
            return
        if status == "ok":
            raise MachineryError("%s: no verdict for %d cases, e.g. %s" % (module, len(missing), missing[0]["id"]))
        if one:
            if status == "late":
                verdict[str(cases[0]["id"])] = "skipped"
            else:
                why = [l for l in out.splitlines() if not l.startswith(("Parsing", "Semantic", "Linting", "@", "TLC", "Starting"))]
                verdict[str(cases[0]["id"])] = "the observation has no meaning in the specification: " + " ".join(why)[-400:]
            return
        # one case stops TLC: isolate it
        h = 1 if len(missing) <= 10 else (len(missing) + 3) // 4
        for i in range(0, len(missing), h):
            self._judge(module, missing[i:i + h], verdict, extra, kw, True)

    # ------------------------------------------------------------------ results
    def fail(self, case, msg, replay=None):
        self.bad.append((str(case), msg, replay))

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def finish(self, coverage):
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        new = []
        seen_known = set()
        for case, msg, rep in self.bad:
            if case in self.known:
                if case not in seen_known:
                    seen_known.add(case)
                    print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, case, self.known[case]["what"]))
                continue
            new.append((case, msg, rep))
        for k in self.known:
            if k not in seen_known:
                print("note: known finding %s of %s does not fail on this tree" % (k, self.prop))
        for n, (case, msg, rep) in enumerate(new[:10]):
            path = os.path.join(rdir, "%s_%d.json" % (self.prop, n))
            json.dump({"property": self.prop, "case": case, "verdict": msg, "replay": rep,
                       "seed": self.seed, "tier": self.tier}, open(path, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  case %s: %s" % (case, msg[:600]))
        if len(new) > 10:
            print("  ... %d violations in total" % len(new))
        cov = {"states": self.states, "transitions": self.transitions}
        cov.update(self.counts)
        cov.update(coverage)
        if self.samples:
            cov["samples"] = self.samples[:5]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)
        print("%s %s: %d violations, %d known; %s" % (self.prop, self.tier, len(new), len(seen_known),
              json.dumps({k: v for k, v in cov.items() if isinstance(v, int)})))
        return 1 if new else 0


def run(main):
    chk = None
    try:
        rc = main()
    except MachineryError as e:
        print("ERROR: " + str(e))
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
