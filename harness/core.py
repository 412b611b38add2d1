"""What all checks share: running histories on the real code, validating the recorded traces with
TLC, reporting."""
import contextlib
import copy
import json
import os
import random
import signal
import sys
import threading
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# ------------------------------------------------------------------------------------- reporting
def write_replay(pid, data):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}.json")
    with open(path, "w") as f:
        json.dump(data, f, indent=1, default=str)
    return path


def write_evidence(pid, tier, seed, coverage, wall, level="model_checking"):
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{pid}.json"), "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
                   "wall_s": round(wall, 2)}, f, indent=1, default=str)


def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


class Hang(BaseException):
    pass


@contextlib.contextmanager
def limit(seconds):
    """Interrupts code under test that does not return (a lost wake-up, an endless loop)."""
    def handler(*_):
        raise Hang()
    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Lender:
    """Hands out sequences that belong to the caller, who changes them once the call is over: what was
    made from them keeps what it was given.  At times the list is one of an earlier call, filled anew."""

    def __init__(self, rng):
        self.rng = rng
        self.lent = []
        self.earlier = []

    def __call__(self, xs, kinds=(list, tuple)):
        x = self.rng.choice(kinds)(xs)
        if type(x) is list and self.earlier and self.rng.random() < .5:
            y = self.rng.choice(self.earlier)
            if not any(y is z for z in self.lent):
                y[:] = x
                x = y
        if not isinstance(x, tuple):
            self.lent.append(x)
        return x

    def over(self):
        for x in self.lent:
            if type(x) is not list:
                call(x.add, type(x[0])("later") if len(x) else [])
            elif self.rng.random() < .5:
                x.reverse()
            else:
                x.clear()
        self.earlier = (self.earlier + [x for x in self.lent if type(x) is list])[-4:]
        self.lent = []


def elsewhere(rng, f, *a, chance=.06, **k):
    """call(), some of the time inside the context of a circuit that has nothing to do with it."""
    if rng.random() >= chance:
        return somewhere(rng, call, f, *a, **k)
    from dwave.gate.circuit import Circuit, CircuitContext
    other = Circuit(rng.randint(0, 3), 1)
    if CircuitContext.active_context is not None:
        return call(f, *a, **k)
    with other.context:
        r = call(f, *a, **k)
    return r if not other.circuit else ("err", RuntimeError("operations were added to the active circuit"))


class Check:
    """One run of the check of one property."""

    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.thorough = self.tier == "thorough"
        self.rng = random.Random(f"{pid}/{self.seed}")
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.samples = []
        self.extra = {}
        self.violations = []   # (key, dict)
        self.troubles = []     # the harness could not go on with a history

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def count_mc(self, r):
        self.states += r.distinct
        self.transitions += r.generated

    def note(self, name, value):
        self.extra[name] = value

    def time(self, name, t0):
        self.extra.setdefault("seconds", {})[name] = round(time.time() - t0, 1)

    def sample(self, s, limit=3):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violate(self, key, **data):
        self.violations.append((key, data))

    # ------------------------------------------------------------------ trace validation
    def conform(self, module, histories, driver, label="", cfg=None, env=None, corrupt=6, head=None,
                seconds=20, **kw):
        """Runs every history on the real code with `driver(history, rng) -> trace` (a dict with
        "ev", each event with its observation), then has TLC decide which traces are behaviours
        of the specification.  Some accepted traces are then corrupted in one recorded leaf, to
        demonstrate that the comparison is live."""
        import tlc
        traces, hangs = [], 0
        t0 = time.time()
        for i, h in enumerate(histories):
            rng = random.Random(f"{self.pid}/{self.seed}/{label}/{i}")
            try:
                with limit(seconds):
                    t = driver(h, rng)
            except Hang:
                self.violate(f"{label}:hang", what="the code under test did not return", history=h)
                hangs += 1
                if hangs == 3:
                    break  # (enough to know; the histories driven so far are judged)
                continue
            except Exception as e:  # noqa: BLE001
                if isinstance(e, (OSError, MemoryError)):
                    raise
                if not in_code_under_test(e):
                    # the history has left the specification, or a result cannot be understood (on the
                    # unchanged tree every history is driven to its end): judge what was recorded
                    self.troubles.append((label, traceback.format_exc()[-3000:], h))
                    t = getattr(driver, "partial", None)
                    if t and t["ev"]:
                        traces.append(json.loads(json.dumps(t)))
                    continue
                self.violate(f"{label}:exception", what="observing the code under test raised",
                             exception=repr(e), where=traceback.format_exc()[-1500:], history=h)
                continue
            traces.append(t)
        self.note(f"histories_{label or module}", len(traces))
        self.time(f"{label}:run", t0)
        if not traces:
            return []
        t0 = time.time()
        fails, st = tlc.validate(module, traces, cfg=cfg, env=env, **kw)
        self.time(f"{label}:validate", t0)
        self.transitions += st["transitions"]
        self.states += st["states"]
        self.validated += len(traces) - len(fails)
        self.sample({"module": module, "trace": _short(traces[len(traces) // 2])})
        bad = {i for i, _, _ in fails}
        for i, step, exp in fails[:20]:
            t = traces[i]
            ev = t["ev"][step - 1] if step else None
            got = ev.get("obs") if ev else None
            self.violate(f"{label}", module=module, step=step,
                         diff=[diff(x, got) for x in exp][:3] if ev else
                         "no action of the specification allows the recorded event (or it cannot be compared)",
                         history=[{k: v for k, v in e.items() if k != "obs"} for e in t["ev"][:(step or len(t["ev"]))]],
                         trace=t, expected=exp)
        good = [t for i, t in enumerate(traces) if i not in bad]
        if corrupt and good and not fails:
            muts = []
            for k in range(corrupt):
                t = copy.deepcopy(good[self.rng.randrange(len(good))])
                evs = [e for e in t["ev"] if "obs" in e]
                if not evs or not _mutate(evs[self.rng.randrange(len(evs))]["obs"], self.rng):
                    continue
                muts.append(t)
            if muts:
                f2, _ = tlc.validate(module, muts, cfg=cfg, env=env, **{k: v for k, v in kw.items() if k != "collect"})
                self.extra["corrupted_traces"] = self.extra.get("corrupted_traces", 0) + len(muts)
                self.extra["corrupted_rejected"] = self.extra.get("corrupted_rejected", 0) + len(f2)
                if not f2:
                    raise RuntimeError(f"{module}: no corrupted trace was rejected")
        return traces

    # --------------------------------------------------------------------------- the end
    def finish(self):
        if not self.violations:
            for label, where, h in self.troubles[:5]:
                self.violate(f"{label}:unusable", what="a result of the code under test cannot be used", where=where, history=h)
        known = [f for f in known_findings() if f["property"] == self.pid]
        new = []
        hit = set()
        for key, data in self.violations:
            for f in known:
                if f["key"] == key:
                    hit.add(f["key"])
                    break
            else:
                new.append((key, data))
        for f in known:
            if f["key"] in hit:
                print(f"KNOWN-FINDING: property={self.pid} {f['what']}")
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.validated, "samples": self.samples or ["none"],
               "violations": len(new), "known_findings_seen": len(hit)}
        cov.update(self.extra)
        write_evidence(self.pid, self.tier, self.seed, cov, time.time() - self.t0)
        if new:
            for key, data in new[:3]:
                print(f"# {key}: " + json.dumps({k: v for k, v in data.items() if k not in ("trace", "expected")},
                                                default=str)[:1500])
            path = write_replay(self.pid, {"property": self.pid, "seed": self.seed, "tier": self.tier,
                                           "violations": [dict(d, key=k) for k, d in new[:10]]})
            print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        print(f"OK property={self.pid} states={self.states} transitions={self.transitions} "
              f"traces={self.validated} wall={time.time() - self.t0:.1f}s")
        return 0


def _short(t):
    s = json.dumps(t, default=str)
    return t if len(s) < 3000 else s[:3000] + "..."


def _mutate(o, rng):
    """Changes one leaf of a recorded observation."""
    leaves = []

    def walk(x, put):
        if isinstance(x, dict):
            for k in x:
                walk(x[k], lambda v, x=x, k=k: x.__setitem__(k, v))
        elif isinstance(x, list):
            if x:
                for k in range(len(x)):
                    walk(x[k], lambda v, x=x, k=k: x.__setitem__(k, v))
        else:
            leaves.append((x, put))
    walk(o, None)
    if not leaves:
        return False
    x, put = leaves[rng.randrange(len(leaves))]
    if isinstance(x, bool):
        put(not x)
    elif isinstance(x, int):
        put(x + 1)
    else:
        put(str(x) + "?")
    return True


def diff(exp, got, path=""):
    """Where two observations differ: {path: [expected, got]}."""
    out = {}
    if isinstance(exp, dict) and isinstance(got, dict):
        for k in sorted(set(exp) | set(got)):
            out.update(diff(exp.get(k, "<absent>"), got.get(k, "<absent>"), f"{path}.{k}"))
    elif isinstance(exp, list) and isinstance(got, list) and len(exp) == len(got):
        for i, (a, b) in enumerate(zip(exp, got)):
            out.update(diff(a, b, f"{path}[{i}]"))
    elif json.dumps(exp, sort_keys=True) != json.dumps(got, sort_keys=True):
        out[path] = [exp, got]
    return out


def in_code_under_test(e):
    """Whether an exception passed through the code under test (else the harness is at fault)."""
    tree = os.path.abspath(os.environ["PYTHONPATH"].split(":")[0])
    return any(os.path.abspath(f.filename).startswith(tree) for f in traceback.extract_tb(e.__traceback__))


def call(f, *a, **k):
    """Runs one call of the code under test: ("ok", value) or ("err", exception type)."""
    try:
        return "ok", f(*a, **k)
    except Hang:
        raise
    except RecursionError as e:
        return "err", e
    except Exception as e:  # noqa: BLE001  every exception of the code under test is an observation
        return "err", e


def somewhere(rng, f, *a, **k):
    """Runs f, sometimes in another thread (one after another)."""
    if rng.random() > .1:
        return f(*a, **k)
    out = []

    def go():
        try:
            out.append((True, f(*a, **k)))
        except BaseException as ex:     # noqa: B902
            out.append((False, ex))
    t = threading.Thread(target=go, daemon=True)
    t.start()
    t.join()
    if not out[0][0]:
        raise out[0][1]
    return out[0][1]


def threaded(rng):
    """`call`, with some of the calls made from other threads."""
    return lambda f, *a, **k: somewhere(rng, call, f, *a, **k)
