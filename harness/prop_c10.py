"""C10: an operation made from a circuit has the circuit's unitary, at its own parameters."""
import cmath
import math
import warnings

import numpy as np
import tlc
from core import Lender, call, elsewhere
from sims import angle, close, cls_of, half_angle, ring

import dwave.gate.operations as ops
from dwave.gate.circuit import Circuit, ParametricCircuit
from dwave.gate.operations.base import ControlledOperation, create_operation
from dwave.gate.primitives import Qubit, Variable
from dwave.gate.simulator.simulator import simulate

warnings.simplefilter("ignore")
FREE = 200


def angle_of(v):
    """The angle of Ring.tla that a value is, or -1."""
    if isinstance(v, (int, float, np.number)):
        for a in range(12):
            if abs(cmath.exp(.5j * float(v)) - cmath.exp(1j * half_angle(a))) < 1e-9:
                return a
    return -1


class Driver:
    def __init__(self):
        self.numbers = []    # (trace, event) -> what was observed

    def __call__(self, h, rng):
        circs, classes, insts = [], [], []
        got = {}
        ev = []
        lend = Lender(rng)

        def make(o, q, p=()):
            """Creates the operation o with the values p of its variables."""
            qs = [q[i] for i in o["q"]]
            ps = [p[a - 100] if a >= 100 else angle(a, rng) for a in o["p"]]
            cls = classes[o["k"] - 1][0] if o["k"] else cls_of(o["g"])
            pos = [ps[0] if len(ps) == 1 and rng.random() < .5 else ps] if ps else []
            if issubclass(cls, ControlledOperation):
                return cls(*pos, qs[:-1], qs[-1]) if rng.random() < .5 else cls(*pos, qubits=qs)
            return cls(*pos, qs[0] if len(qs) == 1 and rng.random() < .5 else qs)

        def circuit(c):
            if c["np"] or rng.random() < .3:
                x = ParametricCircuit(c["n"])
                with x.context as (p, q, _):
                    # the variables exist once they are used for the first time
                    if c["np"]:
                        p[c["np"] - 1]
                    var = [p[i] for i in range(c["np"])]
                    for o in c["ops"]:
                        make(o, q, var)
                return x, var
            x = Circuit(c["n"])
            with x.context as (q, _):
                for o in c["ops"]:
                    make(o, q)
            return x, []

        def par(v, var=()):
            for i, w in enumerate(var):
                if v is w:
                    return 100 + i
            return FREE if isinstance(v, Variable) else angle_of(v)

        def see(x, var, c):
            """A circuit as it is now."""
            out = []
            q = list(x.qubits)
            for o in x.circuit:
                k = next((i + 1 for i, k in enumerate(classes) if type(o) is k[0]), 0)
                g = "custom" if k else next((g for g in {y["g"] for y in c["ops"]} if g != "custom" and type(o) is cls_of(g)), "?")
                out.append({"g": g, "k": k, "q": [q.index(y) for y in o.qubits],
                            "p": [par(v, var) for v in getattr(o, "parameters", [])]})
            np_ = x.num_parameters
            if any(v.value is not None for v in var):
                np_ = "variables have values"
            return {"n": x.num_qubits, "np": np_, "ops": out}

        for e in h:
            op = e["op"]
            ok, v = "ok", None
            if e.get("i", 0) > len(insts) or (op == "set" and not hasattr(insts[e["i"] - 1][0], "parameters")):
                break
            if op == "circuit":
                circs.append((*circuit(e["c"]), e["c"]))
            elif op == "class":
                a = rng.choice([(), ("Mine",), (None,), ("X",)])
                ok, v = call(create_operation, circs[e["c"] - 1][0], *a)
                if ok == "ok":
                    classes.append((v, e["c"]))
            elif op == "new":
                k, c = classes[e["k"] - 1]
                ps = [Variable(f"v{i}") if a == FREE else angle(a, rng) for i, a in enumerate(e["p"])]
                a = [ps[0] if len(ps) == 1 and rng.random() < .5 else lend(ps)] \
                    if ps or (circs[c - 1][2]["np"] and rng.random() < .5) else []
                kw = {}
                if ps and not circs[c - 1][2]["np"]:
                    a, kw = [], {"parameters": ps}
                if e["nq"] >= 0:
                    qs = [Qubit(str(i)) for i in range(e["nq"])]
                    qs = qs[0] if len(qs) == 1 and rng.random() < .5 else lend(qs)
                    if kw or rng.random() < .5 or len(a) < bool(circs[c - 1][2]["np"]):
                        kw["qubits"] = qs
                    else:
                        a.append(qs)
                ok, v = call(k, *a, **kw)
                lend.over()
                if ok == "ok":
                    insts.append((v, e["k"]))
            elif op == "set":
                insts[e["i"] - 1][0].parameters[e["j"] - 1] = angle(e["a"], rng)
            elif op == "eval":
                x, k = insts[e["i"] - 1]
                ok, v = call(x.eval, [angle(a, rng) for a in e["p"]], inplace=e["inplace"])
                if ok == "ok" and not e["inplace"]:
                    insts.append((v, k))
            elif op == "again":
                x, k = insts[e["i"] - 1]
                n = circs[classes[k - 1][1] - 1][2]["n"]
                ok, v = call(x, [Qubit("a") for _ in range(n)]) if rng.random() < .5 else call(x)
                if ok == "ok":
                    insts.append((v, k))
            elif op in ("read", "read_class"):
                x = insts[e["i"] - 1][0] if op == "read" else classes[e["k"] - 1][0]
                ok, v = elsewhere(rng, lambda: x.matrix)
                if v is None:     # documented: not there without an instance
                    ok = "err"
                if ok == "ok":
                    got[len(ev) + 1] = np.array(v)
                    if isinstance(v, np.ndarray) and rng.random() < .5:
                        call(v.fill, 7)
            elif op == "simulate":
                x = Circuit(e["n"])
                with x.context as (q, _):
                    for o in e["ops"]:
                        make(o, q)
                ok, v = call(simulate, x)
                if ok == "ok":
                    got[len(ev) + 1] = np.array([x.state]).T
            ev.append(dict(e, obs={
                "res": ok, "circs": [see(*c) for c in circs],
                "classes": [{"n": k.num_qubits, "np": getattr(k, "num_parameters", 0)} for k, _ in classes],
                "insts": [{"k": k if type(x) is classes[k - 1][0] else -1,
                           "p": [par(y) for y in getattr(x, "parameters", [])]} for x, k in insts]}))
        self.numbers.append(got)
        return {"ev": ev}


def matrix(cols):
    return np.array([[ring(x) / (2 ** (c["k"] / 2) * c["d"]) for x in c["v"]] for c in cols], dtype=complex).T


def compare(c, label, histories):
    d = Driver()
    want = {"NUMBERS": {}}
    before = len(c.violations)
    traces = c.conform("CustomTrace", histories, d, label=label, collect=want)
    if len(c.violations) > before:
        return
    n = noticed = 0
    for i, got in enumerate(d.numbers):
        for l, m in got.items():
            w = want["NUMBERS"].get((i, l))
            n += 1
            if w is None:
                c.violate(label, what="a matrix without parameters", history=traces[i]["ev"][:l])
            elif not close(m, matrix(w)):
                c.violate(label, what="another matrix", got=np.round(m, 3).tolist(), expected=np.round(matrix(w), 3).tolist(),
                          history=[{k: v for k, v in e.items() if k != "obs"} for e in traces[i]["ev"][:l]])
            elif n % 40 == 0:
                m = m.copy()
                m[-1, 0] += 1e-6
                noticed += not close(m, matrix(w))
        if len(c.violations) > before + 5:
            break
    c.note(f"matrices_compared_{label}", n)
    c.note(f"disturbed_matrices_noticed_{label}", noticed)
    if n > 100 and not noticed and len(c.violations) == before:
        raise RuntimeError("disturbed matrices were not noticed")


def run(c):
    r = tlc.model_check("CustomMC", "CustomMC", env={"GEN": "1"})
    c.count_mc(r)
    tests = tlc.tests_of(r)
    compare(c, "transitions", c.rng.sample(tests, min(len(tests), c.pick(2600, 20000))))
    r = tlc.run("CustomMC", "CustomSim", env={"GEN": "2"}, simulate=c.pick(600, 8000), depth=24, seed=c.seed, workers=1)
    c.count_mc(r)
    compare(c, "random", tlc.tests_of(r))
