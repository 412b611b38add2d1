"""C08: gate matrices are the documented unitaries, for every parameter value."""
import itertools
import json
import math
import warnings

import numpy as np
import tlc
from core import Lender, call
from sims import CUSTOM, ring

import dwave.gate.operations as ops
from dwave.gate.circuit import Circuit
from dwave.gate.operations.base import ControlledOperation, ParametricControlledOperation
from dwave.gate.primitives import Qubit, Variable

warnings.simplefilter("ignore")


class CCCY(ControlledOperation):
    _num_control, _num_target, _target_operation = 3, 1, ops.Y


class CCRotation(ParametricControlledOperation):
    _num_control, _num_target, _num_params, _target_operation = 2, 1, 3, ops.Rotation


MORE = dict(CUSTOM, CCCY=CCCY, CCRotation=CCRotation)
SPECIAL = [0, 0.0, -0.0, math.pi, -math.pi, math.pi / 2, 2 * math.pi, -2 * math.pi, 4 * math.pi, 3 * math.pi, 6 * math.pi,
           1, -1, -1.0, -2, -2.0, 7, 1e-7, -1e-7, 1e3, -12345.678, 1e6, math.pi / 3, np.float64(.3), np.int64(3), np.float64(-math.pi / 4)]


def cls_of(g):
    return MORE.get(g) or getattr(ops, g)


class Matrices:
    """The polynomial matrices that TLC derived."""

    def __init__(self, run):
        self.of = {}
        for s in run.lines("MATRIX"):
            d = json.loads(s)
            self.of[d["g"]] = d

    def at(self, g, theta):
        d = self.of[g]
        th = [float(t) for t in theta] + [0.0] * 3
        n = len(d["m"])
        a = np.zeros((n, n), complex)
        for i, j in itertools.product(range(n), range(n)):
            for x, c in d["m"][i][j]:
                a[i, j] += ring(c) * np.exp(0.5j * sum(e * t for e, t in zip(x, th)))
        return a / math.sqrt(2) ** d["k"]


def driver_of(mats):
    gates = sorted(mats.of)

    def driver(h, rng):
        values = {}

        def theta(g, p):
            # the parameters of a slot: special values, and others
            if p not in values:
                kind = rng.randrange(3)
                values[p] = [rng.choice(SPECIAL) if kind == 0 or (kind == 1 and rng.random() < .5) else
                             rng.uniform(-20, 20) for _ in range(3)]
            return values[p][:mats.of[g]["params"]]

        objs = []   # [op, g, slot or None]
        ev = []

        lend = Lender(rng)

        def build(g, ps):
            cls = cls_of(g)
            n = mats.of[g]["qubits"]
            qs = [Qubit(str(i)) for i in range(n)] if rng.random() < .5 else None
            a = [ps[0] if len(ps) == 1 and rng.random() < .5 else lend(ps)] if ps else []
            try:
                return made(cls, a, qs, n)
            finally:
                lend.over()

        def made(cls, a, qs, n):
            if qs and issubclass(cls, ControlledOperation):
                return cls(*a, qs[:-1], qs[-1]) if rng.random() < .5 else cls(*a, qubits=qs)
            if qs:
                return cls(*a, qs[0] if n == 1 and rng.random() < .5 else qs)
            return cls(*a)

        def matrix(x):
            if isinstance(x, type) or not x.qubits or rng.random() < .85:
                return call(lambda: x.matrix)
            # inside the context of a circuit, whose qubits (in this order) are the operation's
            c = Circuit()
            for q in x.qubits:
                c.add_qubit(q)
            with c.context:
                return call(lambda: x.matrix)

        def is_(s, m, g, th):
            return s == "ok" and isinstance(m, np.ndarray) and m.shape == mats.at(g, th).shape and \
                bool(np.allclose(m, mats.at(g, th), rtol=0, atol=1e-8))

        for e in h:
            op = e["op"]
            if e.get("o", 0) > len(objs):
                break
            if op == "create":
                ok, v = call(build, e["g"], theta(e["g"], e["p"]))
                if ok == "ok":
                    objs.append([v, e["g"], e["p"] if mats.of[e["g"]]["params"] else 0])
            elif op == "create_var":
                ok, v = call(build, e["g"], [Variable(str(i)) for i in range(mats.of[e["g"]]["params"])])
                if ok == "ok":
                    objs.append([v, e["g"], 0])
            elif op == "eval":
                o = objs[e["o"] - 1]
                ok, v = call(o[0].eval, theta(o[1], e["p"]), inplace=e["inplace"])
                slot = o[2] or e["p"]
                if ok == "ok" and e["inplace"]:
                    o[2] = slot
                elif ok == "ok":
                    objs.append([v, o[1], slot])
            elif op == "again":
                o = objs[e["o"] - 1]
                n = mats.of[o[1]]["qubits"]
                qs = [Qubit(str(i)) for i in range(n)]
                if isinstance(o[0], ControlledOperation):
                    ok, v = call(o[0], qs[:-1], qs[-1:]) if rng.random() < .5 else call(o[0])
                else:
                    ok, v = call(o[0], qs) if rng.random() < .5 else call(o[0])
                if ok == "ok":
                    objs.append([v, o[1], o[2]])
            elif op == "setparam":
                o = objs[e["o"] - 1]
                for i, v in enumerate(theta(o[1], e["p"])):
                    o[0].parameters[i] = v
                o[2], ok = e["p"], "ok"
            elif op == "decompose":
                cls = cls_of(e["g"])
                # (of gates on one qubit; gates need not have one)
                x = cls if rng.random() < .5 else build(e["g"], theta(e["g"], 1))
                ok, v = call(lambda: x.decomposition)
                e = dict(e, ds=[getattr(ops, d).__name__ if isinstance(d, str) and isinstance(getattr(ops, d, None), type) else str(d)
                                for d in v] if ok == "ok" else [])
                if ok == "ok" and isinstance(v, list):
                    rng.choice([v.clear, v.reverse, lambda: v.append("X")])()
                ok = "ok"
            elif op == "assign":
                o = objs[e["o"] - 1][0]
                x = type(o) if e["cls"] else o
                ok, v = call(setattr, x, "matrix", np.eye(2 ** mats.of[objs[e["o"] - 1][1]]["qubits"]) * 1j)
            elif op == "scribble":
                o = objs[e["o"] - 1]
                s, m = matrix(type(o[0]) if e["cls"] else o[0])
                ok = "ok"
                if isinstance(m, np.ndarray):
                    call(rng.choice([lambda: m.fill(7), lambda: m.__setitem__((0, 0), 3j), lambda: m.__imul__(2)]))
            obs = {"res": ok, "objs": []}
            for x, g, slot in objs:
                params = mats.of[g]["params"]
                # what the operation reports: the matrix of g at which slot?
                s, m = matrix(x)
                at, right = 0, False
                if s == "ok" and m is not None:
                    right = is_(s, m, g, theta(g, slot) if params else [])
                    at = slot if right else -1
                s2, m2 = matrix(type(x))
                has_cls = s2 == "ok" and m2 is not None
                if has_cls and not is_(s2, m2, g, []):
                    right = False
                obs["objs"].append({"g": g, "has": s == "ok" and m is not None, "at": at, "right": right, "cls": has_cls})
            ev.append(dict(e, obs=obs))
        return {"ev": ev}
    return driver, gates


def run(c):
    r = tlc.model_check("GatesMC", "GatesMC", env={"GEN": "0"})
    c.count_mc(r)
    r = tlc.model_check("GatesMC", "GatesMC", env={"GEN": "1"})
    c.count_mc(r)
    mats = Matrices(r)
    c.note("gates", sorted(mats.of))
    driver, gates = driver_of(mats)
    # every gate: created with and without qubits, read, written to, read again
    each = []
    for g in gates:
        for k in range(c.pick(12, 150)):
            h = [{"op": "create", "g": g, "p": 1 + k % 3}]
            if mats.of[g]["params"]:
                h += [{"op": "create_var", "g": g}, {"op": "eval", "o": 2, "p": 2, "inplace": k % 2 == 0},
                      {"op": "setparam", "o": 1 + k % 2, "p": 4}]
            h += [{"op": "assign", "o": 1, "cls": k % 2 == 1}, {"op": "scribble", "o": 1, "cls": k % 2 == 0}, {"op": "create", "g": g, "p": 3}]
            if mats.of[g]["qubits"] == 1:
                h += [{"op": "decompose", "g": g}, {"op": "decompose", "g": g}]
            each.append(h)
    c.conform("GatesTrace", each, driver, label="gates")
    tests = tlc.tests_of(r)
    c.conform("GatesTrace", c.rng.sample(tests, min(len(tests), c.pick(1500, 20000))), driver, label="transitions")
    r = tlc.run("GatesMC", "GatesSim", env={"GEN": "2"}, simulate=c.pick(400, 6000), depth=16, seed=c.seed, workers=1)
    c.count_mc(r)
    c.conform("GatesTrace", tlc.tests_of(r), driver, label="random")
