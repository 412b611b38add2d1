"""C09: build_unitary gives the matrix of the circuit as it currently is."""
import json
import random
import time

import numpy as np
import sims
import tlc
from core import Hang, call, elsewhere, in_code_under_test, limit
from sims import SimDriver, angle, close, ring

import dwave.gate.operations as ops
from dwave.gate.circuit import Circuit, ParametricCircuit
from dwave.gate.simulator.simulator import simulate
from dwave.gate.tools.unitary import build_controlled_unitary, build_unitary


class Driver(SimDriver):
    def create(self, o):
        """Appends one operation, in the circuit's context or directly."""
        self.c.unlock()
        if self.rng.random() < .5:
            with self.c.context:
                self.ops(o)
            self.c.unlock()
        else:
            for op in self.ops(o):
                self.c.append(op)

    def go(self, h):
        self.log = []
        self.turns = not any(e["op"] in ("remove", "reparam") for e in h["ev"])
        self.make(dict(h, ops=[]))
        got = {}
        ev = []
        for e in h["ev"]:
            l = len(ev) + 1
            op = e["op"]
            if op == "append":
                self.create(e["o"])
            elif op == "remove":
                x = self.c.circuit[e["i"] - 1]
                if any(x == y for y in self.c.circuit[:e["i"] - 1]):
                    break
                self.c.remove(x)
            elif op == "reset":
                self.c.reset()
            elif op == "reparam":
                x = self.c.circuit[e["i"] - 1]
                for j, a in enumerate(e["p"]):
                    x.parameters[j] = angle(a, self.rng)
            else:
                s, u = elsewhere(self.rng, build_unitary, self.c)
                if s == "err":
                    got[l] = (repr(u), None, None)
                else:
                    j = self.rng.randrange(1 << self.n)
                    got[l] = (np.array(u), j, self.column(j))
                    if isinstance(u, np.ndarray) and self.rng.random() < .5:
                        call(u.fill, 5)     # the caller's own matrix
            ev.append(e)
        return {"n": h["n"], "bits": h["bits"], "ops": [], "ev": ev}, got

    def column(self, j):
        """The simulated action on the basis state j."""
        c = Circuit(self.n)
        q = list(c.qubits)
        mine = list(self.c.qubits)
        with c.context:
            for k in range(self.n):
                if j >> (self.n - 1 - k) & 1:
                    ops.X(q[k])
            self.c.unlock()
            if self.n:
                self.c(*([[]] if isinstance(self.c, ParametricCircuit) else []), q)
        simulate(c)
        assert mine == list(self.c.qubits)
        return np.array(c.state)


def expected(cols, n):
    if sims.sparse(cols[0]["v"]):
        m = np.zeros((1 << n, 1 << n), dtype=complex)
        for j, c in enumerate(cols):
            for i, x in c["v"]:
                m[i, j] = ring(x) / (2 ** (c["k"] / 2) * c["d"])
        return m
    return np.array([[ring(x) / (2 ** (c["k"] / 2) * c["d"]) for x in c["v"]] for c in cols], dtype=complex).T


def unitaries(c, hs, label, module="SimTrace"):
    import os
    import tempfile
    traces, gots = [], []
    t0 = time.time()
    for i, h in enumerate(hs):
        rng = random.Random(f"{c.pid}/{c.seed}/{label}/{i}")
        try:
            with limit(30):
                t, g = Driver(rng).go(h)
        except Hang:
            c.violate(f"{label}:hang", what="the code under test did not return", history=h)
            continue
        except Exception as e:  # noqa: BLE001
            if not in_code_under_test(e):
                raise
            c.violate(f"{label}:exception", what="the code under test raised", exception=repr(e), history=h)
            continue
        traces.append(t)
        gots.append(g)
    c.time(f"{label}:run", t0)
    t0 = time.time()
    compared = noticed = 0
    for base in range(0, len(traces), 1000):
        fd, path = tempfile.mkstemp(suffix=".ndjson")
        with os.fdopen(fd, "w") as f:
            for t in traces[base:base + 1000]:
                f.write(json.dumps(t) + "\n")
        try:
            r = tlc.run(module, module, env={"TRACE_FILE": path}, workers=6, heap="8g")
        finally:
            os.remove(path)
        c.count_mc(r)
        acc = {base + int(s) - 1 for s in r.lines("ACCEPT")}
        want = {}
        for s in r.lines("UNITARY"):
            tid, l, js = s.split(" ", 2)
            want[base + int(tid) - 1, int(l)] = expected(json.loads(js), traces[base + int(tid) - 1]["n"])
        for i in range(base, min(base + 1000, len(traces))):
            bad = [] if i in acc else ["the history is none of the specification"]
            for l, (u, j, col) in gots[i].items():
                w = want.get((i, l))
                compared += 1
                if w is None:
                    bad.append(f"event {l} was not reached")
                elif isinstance(u, str):
                    bad.append(f"building raised {u}")
                elif not close(u, w):
                    bad.append(f"unitary at event {l}: {sims.show(u)} expected {sims.show(w)}")
                elif not close(col, w[:, j]):
                    bad.append(f"column {j} at event {l} differs from the simulated action on that basis state")
                elif compared % 50 == 0:
                    v = u.copy()
                    v[-1, j] += 1e-6
                    noticed += not close(v, w)
            if bad:
                c.violate(label, what=bad[:3], history={k: traces[i][k] for k in ("n", "ev")})
            else:
                c.validated += 1
    c.time(f"{label}:validate", t0)
    c.note(f"unitaries_compared_{label}", compared)
    c.note(f"disturbed_unitaries_noticed_{label}", noticed)
    if compared > 100 and not noticed and not c.violations:
        raise RuntimeError("disturbed unitaries were not noticed")
    if traces:
        c.sample({"history": traces[len(traces) // 2]})


def controlled(c):
    r = tlc.run("CUnitary", c.pick("CUnitary", "CUnitaryDeep"), workers=1)
    c.count_mc(r)
    rng = random.Random(f"{c.pid}/{c.seed}/cu")
    cases = [json.loads(s) for s in r.lines("CASE")]
    g = np.random.default_rng(c.seed)
    rejected = 0
    for k in cases:
        u = g.normal(size=(2, 2)) + 1j * g.normal(size=(2, 2))
        if rng.random() < .3:
            u = np.real(u)
        ctl = k["ctl"]
        a = ctl[0] if len(ctl) == 1 and rng.random() < .5 else rng.choice([list, tuple])(ctl)
        t = rng.choice([k["t"], [k["t"]]]) if not k["more"] else [k["t"]] + k["more"]
        if k["more"] and rng.random() < .7:
            u = g.normal(size=(4, 4)) + 0j
        args = {} if k["n"] == 0 else {"num_qubits": k["n"]}
        keep = u.copy()
        s, m = call(build_controlled_unitary, a, t, u, **args)
        what = None
        if not k["ok"]:
            rejected += 1
            if s == "ok":
                what = "unusable indices were accepted"
        elif s == "err":
            what = f"raised {m!r}"
        else:
            look = {0: 0, 1: 1, 10: u[0, 0], 11: u[0, 1], 12: u[1, 0], 13: u[1, 1]}
            w = np.array([[look[x] for x in row] for row in k["m"]], dtype=complex)
            if np.shape(m) != w.shape or not np.allclose(m, w, rtol=0, atol=1e-9):
                what = "another matrix"
            elif not np.array_equal(keep, u):
                what = "the given matrix was changed"
        if what:
            c.violate("controlled", what=what, n=k["n"], control=a, target=t)
        else:
            c.validated += 1
    c.note("controlled_cases", len(cases))
    c.note("controlled_cases_rejected", rejected)


def run(c):
    controlled(c)
    r = tlc.model_check("UnitaryMC", "UnitaryMC", env={"GEN": "1"})
    c.count_mc(r)
    hs = [h[0] for h in tlc.tests_of(r, maximal=False) if any(e["op"] == "unitary" for e in h[0]["ev"])]
    c.note("tests_generated", len(hs))
    unitaries(c, c.rng.sample(hs, min(len(hs), c.pick(1200, 12000))), "transitions")
    r = tlc.run("UnitaryMC", "UnitarySim", env={"GEN": "2"}, simulate=c.pick(300, 4000), depth=16, seed=c.seed, workers=1)
    c.count_mc(r)
    unitaries(c, [h[0] for h in tlc.tests_of(r, maximal=False)], "random")
    r = tlc.run("WideUnitaryMC", "WideUnitarySim", env={"GEN": "2"}, simulate=c.pick(60, 800), depth=16, seed=c.seed, workers=1)
    c.count_mc(r)
    unitaries(c, [h[0] for h in tlc.tests_of(r, maximal=False)], "wide", "WideTrace")
