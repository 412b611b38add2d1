"""Runs TLC: exhaustive model checking, random simulation, and validation of recorded traces."""
import json
import os
import re
import shutil
import subprocess
import tempfile

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


class TlcError(Exception):
    """The machinery failed (a specification that does not parse, an evaluation error, ...)."""


class Run:
    def __init__(self, out, rc):
        self.out = out
        self.rc = rc
        m = re.findall(r"(\d+) states generated(?: \(\d+ s/min\))?,? ?(?:(\d+) distinct)?", out.replace(",", ""))
        self.generated = 0
        self.distinct = 0
        m = re.findall(r"(\d+) states generated (\d+) distinct states found", out.replace(",", ""))
        if m:
            self.generated, self.distinct = int(m[-1][0]), int(m[-1][1])
        else:
            m = re.findall(r"The number of states generated: (\d+)", out.replace(",", ""))
            if m:
                self.generated = self.distinct = int(m[-1])

    def lines(self, tag):
        """The strings printed with PrintT(tag \\o ...), unquoted."""
        pre = '"' + tag + " "
        res = []
        for ln in self.out.splitlines():
            if ln.startswith(pre) and ln.endswith('"'):
                s = ln[1:-1].replace('\\"', '"').replace("\\\\", "\\")
                res.append(s[len(tag) + 1:])
        return res


def run(module, cfg=None, env=None, workers=4, simulate=None, depth=None, seed=None, timeout=800,
        heap="4g", expect_ok=True, spec_dir=SPEC, extra=()):
    meta = tempfile.mkdtemp(prefix="tlc-")
    try:
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss400m", "-cp", JAR, "tlc2.TLC",
               "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers),
               "-config", os.path.join(spec_dir, (cfg or module) + ".cfg")]
        if simulate:
            cmd += ["-simulate", f"num={simulate}", "-depth", str(depth)]
        if seed is not None:
            cmd += ["-seed", str(seed)]
        cmd += list(extra)
        cmd += [os.path.join(spec_dir, module + ".tla")]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update({k: str(v) for k, v in (env or {}).items()})
        e.setdefault("GEN", "0")
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=meta)
        except subprocess.TimeoutExpired:
            raise TlcError(f"TLC timed out on {module} after {timeout}s")
        r = Run(p.stdout, p.returncode)
        if expect_ok and p.returncode != 0:
            body = "\n".join(ln for ln in p.stdout.splitlines()
                             if not ln.startswith(('"TEST', '"ACCEPT', '"MISMATCH')))
            x = TlcError(f"TLC rc={p.returncode} on {module}:\n{body[-4000:]}\n{p.stderr[-1000:]}")
            # the recorded trace TLC was looking at when it could not evaluate an expression
            at = re.findall(r"^/\\ tid = (\d+)$", p.stdout, re.M) if p.returncode in (75, 76) else []
            step = re.findall(r"^/\\ l = (\d+)$", p.stdout, re.M)
            x.at = (int(at[-1]), int(step[-1])) if at and step else None
            raise x
        return r
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def model_check(module, cfg=None, env=None, **kw):
    """Exhaustive exploration.  A violated invariant of a specification is an error of the
    machinery, not of the code.  Returns the run (with the generated tests, if asked for)."""
    return run(module, cfg, env, **kw)


def tests_of(r, maximal=True):
    """The histories printed by a run; with `maximal`, those that are a proper prefix of another
    are dropped (replaying the longer one checks every step of the shorter)."""
    seen = {}
    for s in r.lines("TEST"):
        if s not in seen:
            seen[s] = json.loads(s)
    hs = list(seen.values())
    if not maximal:
        return hs
    pref = set()
    keys = []
    for h in hs:
        k = tuple(json.dumps(e, sort_keys=True) for e in h)
        keys.append(k)
        for i in range(len(k)):
            pref.add(k[:i])
    return [h for h, k in zip(hs, keys) if k not in pref]


def validate(module, traces, cfg=None, env=None, workers=4, timeout=800, chunk=4000, heap="6g", collect=None):
    """Checks recorded traces (dicts with "ev") against a trace specification.  Returns
    (failures, stats) where a failure is (index, step, [expected observations]).  A trace is
    accepted iff TLC reaches its end.  What the trace specification prints as "<tag> <trace>
    <event> <json>" for the tags in `collect` is stored in collect[tag][trace index, event]."""
    fails = []
    st = {"states": 0, "transitions": 0}
    todo = [(list(range(b, min(b + chunk, len(traces)))), 5) for b in range(0, len(traces), chunk)]
    while todo:
        idx, patience = todo.pop(0)
        part = [traces[i] for i in idx]
        if not part:
            continue
        fd, path = tempfile.mkstemp(suffix=".ndjson")
        with os.fdopen(fd, "w") as f:
            for t in part:
                f.write(json.dumps(t) + "\n")
        try:
            e = dict(env or {})
            e["TRACE_FILE"] = path
            r = run(module, cfg, e, workers=workers, timeout=timeout, heap=heap)
        except TlcError as x:
            # an observation that cannot even be compared with the expected one (a string for a number,
            # say) is not the expected one: that trace is rejected, the others are looked at without it
            if getattr(x, "at", None) is None:
                raise
            bad, step = x.at
            fails.append((idx[bad - 1], step, []))
            if patience:
                todo.insert(0, (idx[:bad - 1] + idx[bad:], patience - 1))
            continue
        finally:
            os.remove(path)
        st["states"] += r.distinct
        st["transitions"] += r.generated
        acc = {int(s) for s in r.lines("ACCEPT")}
        for tag in collect or ():
            for s in r.lines(tag):
                tid, l, js = s.split(" ", 2)
                collect[tag][idx[int(tid) - 1], int(l)] = json.loads(js)
        mism = {}
        for s in r.lines("MISMATCH"):
            tid, l, js = s.split(" ", 2)
            mism.setdefault(int(tid), []).append((int(l), js))
        for i in range(1, len(part) + 1):
            if i not in acc:
                ms = mism.get(i, [])
                step = max([l for l, _ in ms], default=None)
                exp = [json.loads(j) for l, j in ms if l == step]
                fails.append((idx[i - 1], step, exp))
    return fails, st
