"""C20: operations stay consistent: qubits, control, target, conditions, equality."""
import warnings

import numpy as np
import tlc
from core import Lender, call, somewhere

import dwave.gate.operations as ops
from dwave.gate.circuit import ParametricCircuit
from dwave.gate.operations.base import (Barrier, ControlledOperation, Measurement, Operation,
                                        ParametricControlledOperation, ParametricOperation)
from dwave.gate.primitives import Bit, Qubit, Variable
from dwave.gate.registers import ClassicalRegister, QuantumRegister

warnings.simplefilter("ignore")
LIB = ["Identity", "X", "Y", "Z", "Hadamard", "S", "T", "RX", "RY", "RZ", "Rotation", "SWAP", "CSWAP", "CCX",
       "CX", "CY", "CZ", "CHadamard", "CRX", "CRY", "CRZ", "CRotation", "Barrier", "Measurement"]
ALIASES = {"CX": ["CX", "CNOT"], "CCX": ["CCX", "Toffoli", "CCNOT"], "CSWAP": ["CSWAP", "Fredkin"], "S": ["S", "Phase", "P"]}
VALUES = [0, 0.5, -1.25, 3.0, 7, 1e-3]
NONE = [0]


class Driver:
    def __call__(self, h, rng):
        self.rng = rng
        self.q = [Qubit(rng.choice(["q", str(i)])) for i in range(5)]
        self.b = [Bit(str(i)) for i in range(len(h["bits"]))]
        for b, v in zip(self.b, h["bits"]):
            if v < 2:
                b.set(v)
        self.v = [Variable(f"v{i}") for i in range(6)]
        self.kinds = [getattr(ops, rng.choice(ALIASES.get(g, [g]))) for g in LIB]
        self.heap = []
        self.seq = Lender(rng)
        ev = []
        self.partial = {"bits": h["bits"], "ev": ev}
        for e in h["ev"]:
            if e.get("o", 0) > len(self.heap):
                break
            if e["op"] == "setparam" and len(self.heap[e["o"] - 1].parameters) < e["j"]:
                break
            res, val = somewhere(rng, getattr(self, e["op"]), e)
            self.seq.over()
            ev.append(dict(e, obs={"res": res, "val": val, "ops": [self.see(o) for o in self.heap]}))
        return {"bits": h["bits"], "ev": ev}

    # ----------------------------------------------------------------------- helpers
    def qs(self, q):
        xs = [self.q[i - 1] for i in q]
        if len(xs) == 1 and self.rng.random() < .4:
            return xs[0]
        return self.seq(xs, [list, list, tuple, QuantumRegister])

    def many(self, q):
        return self.seq([self.q[i - 1] for i in q], [list, list, tuple, QuantumRegister])

    def par(self, x):
        return self.v[x - 100] if x >= 100 else self.rng.choice([lambda y: y, float, np.float64])(VALUES[x])

    def params(self, p):
        ps = [self.par(x) for x in p]
        return ps[0] if len(ps) == 1 and self.rng.random() < .5 else self.seq(ps)

    def go(self, f, ctx):
        """Makes an operation, within a context or not."""
        if not ctx:
            s, x = call(f)
        else:
            c = ParametricCircuit()
            for q in self.q:
                c.add_qubit(q)

            def run():
                with c.context:
                    return f()
            s, x = call(run)
            if s == "ok" and not (len(c.circuit) == 1 and c.circuit[0] is x):
                return "not appended", []
        if s == "ok":
            self.heap.append(x)
        return s, []

    # ------------------------------------------------------------------------- calls
    def make(self, e):
        rng = self.rng
        cls = self.kinds[e["g"] - 1]
        a, kw = [], {}
        named = rng.random() < .4
        if issubclass(cls, ParametricOperation):
            if named:
                kw["parameters"] = self.params(e["p"])
            else:
                a.append(self.params(e["p"]))
        if issubclass(cls, ControlledOperation):
            given = {k: self.qs(e[k]) for k in ("ctl", "tgt") if e[k] != NONE}
            if e["q"] != NONE:
                kw["qubits"] = self.many(e["q"])
                if rng.random() < .1:   # (they take precedence)
                    given = {"ctl": self.q[0], "tgt": self.q[1]}
            if len(given) == 2 and not named and rng.random() < .5:
                a += [given["ctl"], given["tgt"]]
            else:
                kw.update({{"ctl": "control", "tgt": "target"}[k]: v for k, v in given.items()})
                if rng.random() < .1:
                    for k in ("control", "target"):
                        kw.setdefault(k, None)
        elif e["q"] != NONE:
            if named or rng.random() < .4:
                kw["qubits"] = self.qs(e["q"])
            else:
                a.append(self.qs(e["q"]))
        elif rng.random() < .2:
            kw["qubits"] = None
        return self.go(lambda: cls(*a, **kw), e["ctx"])

    def again(self, e):
        o = self.heap[e["o"] - 1]
        a, kw = [], {}
        if isinstance(o, ControlledOperation):
            given = {k: self.qs(e[k]) for k in ("ctl", "tgt") if e[k] != NONE}
            if len(given) == 2 and self.rng.random() < .5:
                a = [given["ctl"], given["tgt"]]
            else:
                kw = {{"ctl": "control", "tgt": "target"}[k]: v for k, v in given.items()}
        elif e["q"] != NONE:
            a = [self.qs(e["q"])]
            if self.rng.random() < .3:
                a, kw = [], {"qubits": a[0]}
        return self.go(lambda: o(*a, **kw), e["ctx"])

    def setq(self, e):
        o = self.heap[e["o"] - 1]
        qs = self.qs(e["q"])
        s, _ = call(lambda: setattr(o, "qubits", qs))
        if isinstance(qs, list):
            qs.clear()      # the caller's list is the caller's
        return s, []

    def setparam(self, e):
        self.heap[e["o"] - 1].parameters[e["j"] - 1] = self.par(e["v"])
        return "ok", []

    def bs(self, bs):
        xs = [self.b[i - 1] for i in bs]
        kinds = [list, tuple, ClassicalRegister] if len({id(x) for x in xs}) == len(xs) else [list, tuple]
        return xs[0] if len(xs) == 1 and self.rng.random() < .5 else self.seq(xs, kinds)

    def cond(self, e):
        o = self.heap[e["o"] - 1]
        s, x = call(o.conditional, self.bs(e["bs"]))
        return ("ok" if x is o else "another") if s == "ok" else s, []

    def into(self, e):
        o = self.heap[e["o"] - 1]
        bs = self.bs(e["bs"])
        if not isinstance(bs, Bit) and len(set(e["bs"])) == len(e["bs"]) and self.rng.random() < .3:
            bs = ClassicalRegister(bs)
        s, x = call(lambda: o | bs)
        return ("ok" if x is o else "another") if s == "ok" else s, []

    def setbit(self, e):
        b = self.b[e["i"] - 1]
        s, _ = call(b.reset) if e["v"] == 2 else call(b.set, e["v"], force=True)
        return s, []

    def define(self, e):
        name = f"U{len(self.kinds)}"
        d = {}
        if e["nc"] == 0:
            bases = (ParametricOperation if e["np"] else Operation,)
            d["_num_qubits"] = e["n"]
        else:
            d["_target_operation"] = ops.RX if e["np"] == 1 else ops.Rotation if e["np"] else ops.Z
            if e["base"]:
                base = self.kinds[e["base"] - 1]
                bases = (base,)
                if self.rng.random() < .5:
                    del d["_target_operation"]
            else:
                bases = (ParametricControlledOperation if e["np"] else ControlledOperation,)
                base = None
            for k, v in (("_num_control", e["nc"]), ("_num_target", e["n"] - e["nc"])):
                if base is None or getattr(base, k) != v or self.rng.random() < .3:
                    d[k] = v
        if e["np"]:
            d["_num_params"] = e["np"]
        self.kinds.append(type(bases[0])(name, bases, d))
        return "ok", []

    def ask(self, e):
        cls = self.kinds[e["g"] - 1]
        s, n = call(lambda: cls.num_qubits)
        return "ok", [self.int(n) if s == "ok" else -1,
                      self.int(cls.num_control) if issubclass(cls, ControlledOperation) else 0,
                      self.int(cls.num_parameters) if issubclass(cls, ParametricOperation) else 0]

    # ------------------------------------------------------------------- observation
    def int(self, n):
        return n if type(n) is int else -7

    def pos(self, pool, xs):
        if xs is None:
            return NONE
        return [next((i + 1 for i, y in enumerate(pool) if x is y), -1) for x in xs]

    def see_par(self, x):
        if isinstance(x, Variable):
            return next((100 + i for i, y in enumerate(self.v) if x is y), -1)
        return next((i for i, y in enumerate(VALUES) if isinstance(x, (int, float)) and x == y), -2)

    def see(self, o):
        c = isinstance(o, ControlledOperation)
        eq = []
        for x in self.heap:
            a, b, d = call(lambda: o == x), call(lambda: o != x), call(lambda: x == o)
            eq.append(a[1] if a[0] == "ok" and type(a[1]) is bool and b == ("ok", not a[1]) and d == a else "?")
        for other in (None, 3, "X", self.q[0], ()):
            if call(lambda: o == other) != ("ok", False):
                eq = ["equal to something else"]
        n = o.num_qubits
        # (the conditions are seen through what they block)
        return {"g": self.kinds.index(type(o)) + 1, "q": self.pos(self.q, o.qubits),
                "ctl": self.pos(self.q, o.control) if c else NONE, "tgt": self.pos(self.q, o.target) if c else NONE,
                "p": [self.see_par(x) for x in getattr(o, "parameters", ())],
                "b": self.pos(self.b, o.bits) if isinstance(o, Measurement) else NONE,
                "n": 0 if n is None else self.int(n), "blocked": o.is_blocked if type(o.is_blocked) is bool else "?", "eq": eq}


assert Barrier


def run(c):
    r = tlc.model_check("OpsMC", "OpsMC", env={"GEN": "1"})
    c.count_mc(r)
    hs = [t[0] for t in tlc.tests_of(r, maximal=False)]
    c.note("tests_generated", len(hs))
    c.conform("OpsTrace", c.rng.sample(hs, min(len(hs), c.pick(8000, 80000))), Driver(), label="transitions")
    r = tlc.run("OpsMC", "OpsSim", env={"GEN": "2"}, simulate=c.pick(800, 8000), depth=33, seed=c.seed, workers=1)
    c.count_mc(r)
    c.conform("OpsTrace", [t[0] for t in tlc.tests_of(r, maximal=False)], Driver(), label="random")
