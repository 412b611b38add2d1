"""C21: OpenQASM output is a faithful program for the circuit."""
import re

import tlc
from core import call
from qirs import VALUES, Driver as Base
from sims import CCZ

import dwave.gate.operations as ops
from dwave.gate.circuit import Circuit, ParametricCircuit
from dwave.gate.operations import create_operation
from dwave.gate.operations.base import Barrier, Measurement
from dwave.gate.primitives import Bit, Qubit

# (labels of one circuit differ as text, also the quantum ones from the classical ones)
LABELS = [0, "", "q", "r", 1, "qreg1", "creg0", "q7", 2.5, -1, "x y", "c"]
STMT = re.compile(r"^(\w+)(?:\(([^()]*)\))?(?: (.*))?$")
SPECIAL = {"Barrier": Barrier, "Measurement": Measurement, "CCZ": CCZ}


def customs():
    c, d, p = Circuit(1), Circuit(2), ParametricCircuit(2)
    with c.context as (q, _):
        ops.Hadamard(q[0])
    with d.context as (q, _):
        ops.CX(q[1], q[0])
    with p.context as (v, q, _):
        ops.RX(v[0], q[0])
        ops.CRY(v[1], q[0], q[1])
    return {"Mine": create_operation(c, "Mine"), "AbC": create_operation(d, "AbC"), "Two": create_operation(p, "Two"),
            "Anon": create_operation(c)}


class NotQasm(Exception):
    pass


def number(x):
    try:
        return next((i for i, v in enumerate(VALUES) if v == float(x)), -1)
    except ValueError:
        raise NotQasm(f"parameter {x}") from None


def statement(s, params=number):
    """name(parameters) qubits; qubits as text."""
    m = STMT.match(s)
    if not m:
        raise NotQasm(s)
    return m[1], [params(x.strip()) for x in m[2].split(",")] if m[2] else [], m[3].split(", ") if m[3] else []


def qubit(x):
    m = re.match(r"^(.*)\[(\d+)\]$", x)
    if not m:
        raise NotQasm(f"qubit {x}")
    return {"r": m[1], "i": int(m[2])}


def gate(s):
    m = re.match(r"^gate (\w+)(?:\(([^()]*)\))?([^{}()]*)\{([^{}]*)\}$", s)
    if not m:
        raise NotQasm(s)
    ps = [x.strip() for x in m[2].split(",")] if m[2] else []
    qs = [x.strip() for x in m[3].split(",") if x.strip()] or ["q[0]"]
    body = []
    for x in m[4].split(";"):
        if x.strip():
            try:
                g, p, q = statement(re.sub(r"\s*,\s*", ", ", x.strip()), lambda y: ps.index(y) + 1)
                body.append({"g": g, "p": p, "q": [qs.index(y) + 1 for y in q]})
            except ValueError:
                raise NotQasm(f"{x} in {s}") from None
    return {"name": m[1], "params": list(range(1, len(ps) + 1)), "body": body}


def parse(text):
    lines = [re.sub(r"^\s*//.*$", "", x).strip() for x in text.split("\n")]
    lines = [x for x in lines if x]
    if lines[:2] != ["OPENQASM 2.0;", 'include "qelib1.inc";']:
        raise NotQasm("header")
    t = {"qregs": [], "cregs": [], "defs": [], "stmts": []}
    for x in lines[2:]:
        m = re.match(r"^([qc])reg (.*)\[(\d+)\];$", x)
        if (m or x.startswith("gate ")) and t["stmts"]:
            raise NotQasm("a declaration after a statement")
        if m:
            t[m[1] + "regs"].append({"r": m[2], "n": int(m[3])})
        elif x.startswith("gate "):
            t["defs"].append(gate(x))
        else:
            if not x.endswith(";"):
                raise NotQasm(x)
            g, p, q = statement(x[:-1])
            t["stmts"].append({"g": g, "p": p, "q": [qubit(y) for y in q]})
    return t


class Driver(Base):
    def __call__(self, h, rng):
        self.rng = rng
        self.custom = customs()
        self.names = {v: k for k, v in list(self.custom.items()) + list(SPECIAL.items())}
        self.c = []
        ev = []
        self.partial = {"ev": ev}
        for e in h:
            if e.get("c", 0) > len(self.c) or e["op"] == "append" and not self.fits(e):
                break
            if "k" in e and e["k"] > len(self.c[e["c"] - 1].circuit):
                break
            e = dict(e)
            res, val = getattr(self, e["op"])(e)
            ev.append(dict(e, obs={"res": res, "val": val, "circs": [self.see(c) for c in self.c]}))
        return {"ev": ev}

    def free(self, c):
        used = {str(x) for x in [*c.qregisters, *c.cregisters]} | {f"{k}{i}" for k in ("qreg", "creg") for i in range(9) if self.rng.random() < .5}
        return [x for x in LABELS if str(x) not in used]

    def regs(self, c):
        return [[{"l": str(x), "n": len(r)} for x, r in regs.items()] for regs in (c.qregisters, c.cregisters)]

    def build(self, c, e, nq, nb):
        """New registers of the given sizes."""
        rng = self.rng
        todo = [("q", r["n"]) for r in nq] + [("c", r["n"]) for r in nb]
        if rng.random() < .3:
            rng.shuffle(todo)
        for kind, n in todo:
            reg, one, cls = (c.add_qregister, c.add_qubit, Qubit) if kind == "q" else (c.add_cregister, c.add_bit, Bit)
            free = self.free(c)
            m = rng.random()
            if m < .4 or not free:
                reg(n)
            elif m < .7 or not n:
                reg(n, rng.choice(free))
            else:
                lab = rng.choice(free)
                for _ in range(n):
                    one(cls(rng.choice(["a", "0", "q[1]"])) if rng.random() < .5 else None, lab)

    def new(self, e):
        par = e["par"]
        c = (ParametricCircuit if par else Circuit)()
        self.build(c, e, e["qregs"], e["cregs"])
        e["qregs"], e["cregs"] = self.regs(c)
        if e["qregs"] and self.rng.random() < .3:     # (the views have been read)
            c.qubits, c.bits
        self.c.append(c)
        return "ok", []

    def extend(self, e):
        c = self.c[e["c"] - 1]
        c.unlock()
        k = len(c.qregisters), len(c.cregisters)
        self.build(c, e, e["qregs"][k[0]:], e["cregs"][k[1]:])
        e["qregs"], e["cregs"] = self.regs(c)
        return "ok", []

    def append(self, e):
        return super().append(e), []

    def many(self, e):
        return super().many(e), []

    def clear(self, e):
        return super().clear(e), []

    def drop(self, e):
        c = self.c[e["c"] - 1]
        c.unlock()
        x = c.circuit[e["k"] - 1]
        if any(x is not y and x == y for y in c.circuit[:e["k"] - 1]):
            # (removing removes the first equal one)
            ys = list(c.circuit)
            c.reset()
            for i, y in enumerate(ys):
                if i != e["k"] - 1:
                    c.append(y)
        else:
            c.remove(x)
        return "ok", []

    def write(self, e):
        c, rng = self.c[e["c"] - 1], self.rng
        kw = {}
        for k, n in (("reg_labels", "labels"), ("gate_definitions", "defs")):
            if e[n] or rng.random() < .3:
                kw[k] = e[n]
        if e["version"] != "2.0" or rng.random() < .2:
            kw["version"] = e["version"]
        s, t = call(c.to_qasm, **kw)
        return self.said(s, t, parse)

    def said(self, s, t, f):
        if s != "ok":
            return s, []
        if type(t) is not str:
            return "no text", []
        try:
            return s, [f(t)]
        except NotQasm as ex:
            return f"not OpenQASM: {ex}", []

    def alone(self, t):
        g, p, q = statement(t)
        return {"g": g, "p": p, "q": [qubit(y) for y in q]}

    def single(self, e):
        o = self.c[e["c"] - 1].circuit[e["k"] - 1]
        return self.said(*call(o.to_qasm, *self.rng.choice([[], [None]])), self.alone)

    def bare(self, e):
        o = e["o"]
        cls = self.cls_of(o["g"])

        def make():
            return (cls([self.num(i) for i in o["p"]]) if o["p"] else cls()).to_qasm()
        return self.said(*call(make), self.alone)


def run(c):
    r = tlc.model_check("QasmMC", "QasmMC", env={"GEN": "1"})
    c.count_mc(r)
    hs = [t[0] for t in tlc.tests_of(r, maximal=False)]
    c.note("tests_generated", len(hs))
    c.conform("QasmTrace", c.rng.sample(hs, min(len(hs), c.pick(4000, 40000))), Driver(), label="transitions")
    r = tlc.run("QasmMC", "QasmSim", env={"GEN": "2"}, simulate=c.pick(600, 8000), depth=38, seed=c.seed, workers=1)
    c.count_mc(r)
    c.conform("QasmTrace", [t[0] for t in tlc.tests_of(r, maximal=False)], Driver(), label="random")
