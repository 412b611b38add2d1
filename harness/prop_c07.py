"""C07: a circuit only ever holds a valid state, replaced only on request."""
import functools
import warnings

import numpy as np
import tlc
from core import call

import dwave.gate.operations as ops
from dwave.gate.circuit import Circuit, ParametricCircuit
from dwave.gate.operations.base import Operation
from dwave.gate.primitives import Variable
from dwave.gate.simulator.simulator import simulate

class Odd(Operation):
    """An operation without a matrix."""
    _num_qubits = 1


FACTOR = {1: 1, 2: 2, 3: .5, 4: -1, 5: 1j, 6: 1 + 1e-12, 7: 1.001, 8: 0, 9: float("nan")}


def base_array(kind, n, b):
    """Vectors of norm 1 and matrices of trace 1; base 0 is the all-zero state."""
    size = 1 << n
    g = np.random.default_rng([n, b, kind == "mat"])
    if kind == "vec":
        v = np.zeros(size, complex)
        if b == 0:
            v[0] = 1
        elif b == 1:
            v[:] = g.normal(size=size) + 1j * g.normal(size=size)
        elif b == 2:
            v[size - 1] = -1j
        elif b == 3:
            v[:] = g.normal(size=size)
        else:
            v[g.integers(size)] = 3
            v[g.integers(size)] += 4j
        return v / np.linalg.norm(v)
    if b == 0:
        m = np.zeros((size, size), complex)
        m[0, 0] = 1
    elif b == 2:
        m = np.eye(size, dtype=complex)
    else:
        a = g.normal(size=(size, size)) + 1j * g.normal(size=(size, size)) * (b != 3)
        m = a @ a.conj().T + 0j
    return m / np.trace(m)


cached = functools.lru_cache(None)(base_array)


def make(a, rng):
    if a["kind"] == "other":
        size = 1 << a["n"]
        return [np.ones(size + 1) / np.sqrt(size + 1),
                np.ones((size, size, 1)) / size,
                [1.0] + [0.0] * (size - 1),
                np.ones((size, size + 1)) / size,
                0.5,
                np.eye(2 * size) / (2 * size),
                np.ones((2 * size,)) / np.sqrt(2 * size)][a["base"] - 1]
    v = base_array(a["kind"], a["n"], a["base"]) * FACTOR[a["factor"]]
    if not np.any(np.imag(v)) and rng.random() < .3:
        v = np.real(v)
    return v


def driver(h, rng):
    warnings.simplefilter("ignore")
    circ = rng.choice([Circuit, ParametricCircuit])()
    ev = []
    cands = []      # descriptions of what the circuit may hold
    for e in h:
        op = e["op"]
        given = "unchanged"
        if op == "set":
            v = make(e["a"], rng)
            keep = v.copy() if isinstance(v, np.ndarray) else v
            if isinstance(v, np.ndarray) and rng.random() < .3:
                v.setflags(write=False)
            kw = {k: e[k] for k in ("force", "normalize") if e[k] or rng.random() < .3}
            ok, _ = call(circ.set_state, v, **kw)
            if isinstance(v, np.ndarray) and not np.array_equal(v, keep, equal_nan=True):
                given = "changed"
            elif isinstance(v, np.ndarray) and v.flags.writeable:
                rng.choice([lambda: v.fill(7), lambda: v.sort(axis=0), lambda: None])()
            if e["a"]["kind"] != "other":
                cands += [c for c in (dict(e["a"], factor=f) for f in (1, 2, 3, 4, 5, 7)) if c not in cands]
        elif op == "add":
            for _ in range(e["k"]):
                ok, _ = call(circ.add_qubit)
        elif op == "reject":
            qs = list(circ.qubits)
            kw = {"mixed_state": True} if rng.random() < .3 else {}
            new = [ops.X(rng.choice(qs)), ops.Hadamard(rng.choice(qs))]
            if isinstance(circ, ParametricCircuit) and rng.random() < .5:
                if not circ.parametric:
                    with circ.context as regs:
                        regs.p[0]
                circ.unlock()
                new.append(ops.RX(Variable("x"), rng.choice(qs)))
            else:
                new.append(Odd(qs[0]))
            circ.extend(new)
            ok, _ = call(simulate, circ, **kw)
            for o in new:
                circ.remove(o)
        else:
            ok, _ = call(simulate, circ)
            c = {"kind": "vec", "base": 0, "factor": 1, "n": circ.num_qubits}
            cands += [c] if c not in cands else []
        reads = [lambda: circ.state, lambda: circ.density_matrix]
        order = [0, 1] if rng.random() < .5 else [1, 0]     # reading one must not disturb the other
        got = {k: call(reads[k]) for k in order}
        (s1, st), (s2, dm) = got[0], got[1]
        state = "mixed" if s1 == "err" else "none" if st is None else "it"
        density = "err" if s2 == "err" else "none" if dm is None else "it"
        holds = []
        for c in cands:
            ref = cached(c["kind"], c["n"], c["base"]) * FACTOR[c["factor"]]
            if c["kind"] == "vec" and state == "it" and np.shape(st) == ref.shape \
                    and np.allclose(st, ref, atol=1e-9, rtol=0):
                if np.shape(dm) != (len(ref),) * 2 or not np.allclose(dm, np.outer(st, np.conj(st)), atol=1e-9, rtol=0):
                    density = "not of the state"
                holds.append(c)
            elif c["kind"] == "mat" and state == "mixed" and np.shape(dm) == ref.shape \
                    and np.allclose(dm, ref, atol=1e-9, rtol=0):
                holds.append(c)
        ev.append(dict(e, holds=holds, obs={"res": ok, "n": circ.num_qubits, "state": state,
                                            "density": density, "given": given}))
    return {"ev": ev}


def run(c):
    r = tlc.model_check("StateSlotMC", "StateSlotMC", env={"GEN": "1"})
    c.count_mc(r)
    tests = tlc.tests_of(r)
    c.note("tests_generated", len(tests))
    tests = c.rng.sample(tests, min(len(tests), c.pick(5000, 40000)))
    c.conform("StateSlotTrace", tests, driver, label="transitions")
    r = tlc.run("StateSlotMC", "StateSlotSim", env={"GEN": "2"}, simulate=c.pick(600, 6000), depth=18, seed=c.seed, workers=1)
    c.count_mc(r)
    c.conform("StateSlotTrace", tlc.tests_of(r), driver, label="random")
