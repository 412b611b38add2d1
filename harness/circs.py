"""Drives real circuits through histories of spec/Circ.tla."""
import contextlib
import warnings

import numpy as np
from core import Lender, call, somewhere
from sims import CUSTOM, CCZ, CCRX

import dwave.gate.operations as ops
from dwave.gate.circuit import Circuit, CircuitContext, ParametricCircuit
from dwave.gate.operations.base import (Barrier, ControlledOperation, Measurement,
                                        ParametricOperation, create_operation)
from dwave.gate.primitives import Bit, Qubit, Variable
from dwave.gate.registers import ClassicalRegister, QuantumRegister

warnings.simplefilter("ignore")
VALUES = [0, 0.5, -1.25, 3.0, 7, -2, 1e-3, 0.1, 12.5, -0.75]


class Boom(Exception):
    pass


class Mishap(UserWarning):
    pass


class Wrong(ValueError):
    pass


class Stop(KeyboardInterrupt):
    pass


class Out(SystemExit):
    pass


EXCEPTIONS = [Boom, Mishap, Wrong, Stop, Out]


def make_custom():
    c = Circuit(1)
    with c.context as (q, _):
        ops.Hadamard(q[0])
        ops.T(q[0])
    p = ParametricCircuit(2)
    with p.context as (v, q, _):
        ops.RX(v[1], q[0])
        ops.CRY(v[0], q[0], q[1])
    return {"Mine": create_operation(c, "Mine"), "MineP": create_operation(p, "MineP")}


SPECIAL = {"Barrier": Barrier, "Measurement": Measurement, "CCZ": CCZ, "CCRX": CCRX}
ALIASES = {"CX": ["CX", "CNOT"], "CCX": ["CCX", "Toffoli"], "CSWAP": ["CSWAP", "Fredkin"]}


class Driver:
    def clean(self):
        """A broken tree may leave a context behind: it must not disturb the next history."""
        if CircuitContext.active_context is not None:
            CircuitContext._active_context = None
        if CircuitContext.on_exit_functions:
            CircuitContext.on_exit_functions.clear()

    def cls(self, g):
        if g in self.custom:
            return self.custom[g]
        if g in SPECIAL:
            return SPECIAL[g]
        return getattr(ops, self.rng.choice(ALIASES.get(g, [g])))

    def __call__(self, h, rng):
        self.clean()
        self.rng = rng
        self.custom = make_custom()
        self.names = {v: k for k, v in list(self.custom.items()) + list(SPECIAL.items())}
        s = h["setup"]
        nq = max([10] + [x for c in s["circs"] for x in c["q"]])
        nb = len(s["bits"])
        lab = rng.choice([lambda i: str(i), lambda i: "q", lambda i: i])
        self.q = [Qubit(lab(i)) for i in range(nq)]
        self.b = [Bit(lab(i)) for i in range(nb)]
        for b, v in zip(self.b, s["bits"]):
            if v < 2:
                b.set(v)
        self.c = []
        self.vars = []       # of every circuit
        for x in s["circs"]:
            c = (ParametricCircuit if x["par"] else Circuit)()
            self.add(c, x["q"], x["b"])
            self.c.append(c)
            self.vars.append([])
            if x["par"] and x["np"]:
                with c.context as (p, _, _):
                    for i in range(x["np"]):
                        self.vars[-1].append(p[i])
                c.unlock()
        self.heap = []
        self.seq = Lender(rng)
        self.blocks = []     # open blocks, innermost last: exit stacks
        self.regs = None
        self.managers = []
        ev = []
        self.partial = {"setup": s, "ev": ev}
        try:
            for e in h["ev"]:
                # (the history may have been made for another outcome of an earlier call)
                if max(e.get("c", 0) if isinstance(e.get("c"), int) else 0, *[x // 100 for x in e.get("p", [0])], 0) > len(self.c):
                    break
                sizes = [len(c.circuit) for c in self.c]
                res = somewhere(rng, getattr(self, e["op"]), e)
                self.seq.over()
                if res is None:
                    break
                if rng.random() < .2:
                    self.managers = [rng.choice([CircuitContext, *[c.context for c in self.c]]).freeze]
                ev.append(dict(e, obs=self.observe(res)))
                if e["op"] == "extend" and res == "err" and sizes != [len(c.circuit) for c in self.c]:
                    # (what comes next was made for circuits that have not been extended halfway)
                    break
        finally:
            while self.blocks:
                call(self.blocks.pop().close)
            self.clean()
        return {"setup": s, "ev": ev}

    # ------------------------------------------------------------------------- helpers
    def add(self, c, qs, bs):
        rng = self.rng
        for add, pool, xs in ((c.add_qubit, self.q, qs), (c.add_bit, self.b, bs)):
            # registers are concatenated in order of creation, so they are filled one after the other
            labels = rng.sample("abcd", 3) if rng.random() < .4 else [None]
            for i in xs:
                if rng.random() < .3 and len(labels) > 1:
                    del labels[0]
                add(pool[i - 1], *([] if labels[0] is None else [labels[0]]))

    def par(self, x):
        if x >= 100:
            vs = self.vars[x // 100 - 1]
            c = self.c[x // 100 - 1]
            while len(vs) <= x % 100:
                if CircuitContext.active_context is None or CircuitContext.active_context.circuit is not c or not hasattr(self.regs, "p"):
                    return 0
                vs.append(self.regs.p[len(vs)])
            return vs[x % 100]
        v = VALUES[x]
        return self.rng.choice([v, float(v), np.float64(v)])

    def params(self, p):
        ps = [self.par(x) for x in p]
        return ps[0] if len(ps) == 1 and self.rng.random() < .5 else self.seq(ps)

    def some(self, xs):
        if len(xs) == 1 and self.rng.random() < .5:
            return xs[0]
        if xs and len({id(x) for x in xs}) == len(xs) and self.rng.random() < .15:
            return self.seq(xs, [QuantumRegister if isinstance(xs[0], Qubit) else ClassicalRegister])
        return self.seq(xs)

    def qs(self, q):
        return [self.q[i - 1] for i in q]

    # --------------------------------------------------------------------------- calls
    def create(self, e):
        rng = self.rng
        cls = self.cls(e["g"])
        pos = [self.params(e["p"])] if issubclass(cls, ParametricOperation) else []
        kw = {}
        if not pos and e["p"]:
            kw["parameters"] = [self.par(x) for x in e["p"]]
        qs = self.qs(e["q"])
        if issubclass(cls, ControlledOperation):
            n = cls.num_control
            if not qs:
                pass
            elif rng.random() < .4 or len(qs) <= n:
                kw["qubits"] = self.seq(qs)
            elif rng.random() < .5:
                pos += [self.some(qs[:n]), self.some(qs[n:])]
            else:
                kw.update(control=self.some(qs[:n]), target=self.some(qs[n:]))
        elif qs:
            if rng.random() < .3 or kw:
                kw["qubits"] = self.some(qs)
            else:
                pos.append(self.some(qs))

        def go():
            o = cls(*pos, **kw)
            if e["b"]:
                o | self.some([self.b[i - 1] for i in e["b"]])
            if e["c"]:
                o.conditional(self.some([self.b[i - 1] for i in e["c"]]))
            return o
        s, o = call(go)
        if s == "ok":
            self.heap.append(o)
        return s

    def again(self, e):
        if e["o"] > len(self.heap):
            return None
        o = self.heap[e["o"] - 1]
        qs = self.qs(e["q"])
        if isinstance(o, ControlledOperation):
            n = type(o).num_control
            s, x = call(o, qs[:n], qs[n:]) if qs else call(o)
        else:
            s, x = call(o, qs) if qs else call(o)
        if s == "ok":
            self.heap.append(x)
        return s

    def extend(self, e):
        if max(e["os"]) > len(self.heap):
            return None
        c = self.c[e["c"] - 1]
        xs = [self.heap[i - 1] for i in e["os"]]
        if len(xs) == 1 and self.rng.random() < .7:
            return call(c.append, xs[0])[0]
        # the operations of a circuit, also of the one that is extended
        same = [d.circuit for d in self.c if len(d.circuit) == len(xs) and all(a is b for a, b in zip(d.circuit, xs))]
        if same and self.rng.random() < .8:
            return call(c.extend, self.rng.choice(same))[0]
        return call(c.extend, self.seq(xs))[0]

    def remove(self, e):
        if e["o"] > len(self.heap):
            return None
        return call(self.c[e["c"] - 1].remove, self.heap[e["o"] - 1])[0]

    def reset(self, e):
        c = self.c[e["c"] - 1]
        return call(c.reset, e["keep"])[0] if self.rng.random() < .5 or not e["keep"] else call(c.reset)[0]

    def refill(self, e):
        self.add(self.c[e["c"] - 1], e["q"], e["b"])
        return "ok"

    def enter(self, e):
        c = self.c[e["c"] - 1]
        es = contextlib.ExitStack()
        s, r = call(lambda: es.enter_context(c.context))
        if s == "ok":
            self.blocks.append(es)
            self.regs = r
        return s

    def freeze(self, e):
        es = contextlib.ExitStack()
        # the manager of any circuit's context, or an enclosing one again
        if self.rng.random() < .3 and any(hasattr(b, "manager") for b in self.blocks):
            m = [b.manager for b in self.blocks if hasattr(b, "manager")][-1]
        elif self.managers and self.rng.random() < .3:      # taken at another time
            m = self.rng.choice(self.managers)
        elif self.rng.random() < .5 and CircuitContext.active_context is not None:
            m = CircuitContext.active_context.circuit.context.freeze
        else:
            m = self.rng.choice([CircuitContext, *[c.context for c in self.c]]).freeze
        s, _ = call(lambda: es.enter_context(m))
        if s == "ok":
            es.manager = m
            self.blocks.append(es)
        return s

    def leave(self, e):
        if not self.blocks:
            return None
        es = self.blocks.pop()
        if not e["exc"]:
            return call(es.close)[0]
        x = self.rng.choice(EXCEPTIONS)
        try:
            with es:
                raise x()
        except tuple(EXCEPTIONS) as y:
            return "ok" if type(y) is x else "err"
        except Exception:  # noqa: BLE001
            return "err"
        return "swallowed"

    def lock(self, e):
        return call(self.c[e["c"] - 1].lock)[0]

    def unlock(self, e):
        return call(self.c[e["c"] - 1].unlock)[0]

    def call(self, e):
        c = self.c[e["c"] - 1]
        act = CircuitContext.active_context
        n = len(act.circuit.circuit) if act else 0
        a = [[self.par(x) for x in e["p"]]] if isinstance(c, ParametricCircuit) else []
        bs = [self.b[i - 1] for i in e["b"]]
        kw = {}
        if bs:
            kw["bits"] = self.some(bs)
        elif self.rng.random() < .3:
            kw["bits"] = self.rng.choice([None, []])
        s, _ = call(c, *a, self.some(self.qs(e["q"])), **kw)
        if act:
            self.heap += act.circuit.circuit[n:]
        return s

    def setvar(self, e):
        if e["i"] >= len(self.vars[e["c"] - 1]):
            return None
        v = self.vars[e["c"] - 1][e["i"]]
        return call(v.reset)[0] if e["v"] < 0 else call(v.set, self.par(e["v"]))[0]

    def evalop(self, e):
        if e["o"] > len(self.heap):
            return None
        o = self.heap[e["o"] - 1]
        if len(getattr(o, "parameters", ())) != len(e["p"] or getattr(o, "parameters", ())) or not isinstance(o, ParametricOperation):
            return None
        a = [[self.par(x) for x in e["p"]]] if e["p"] else [None] if self.rng.random() < .3 else []
        kw = {"inplace": True} if e["inplace"] else {}
        s, x = call(o.eval, *a, **kw)
        if s == "ok" and e["inplace"] and x is not o:
            return "another"
        if s == "ok" and not e["inplace"]:
            if x is o:
                return "same"
            self.heap.append(x)
        return s

    def evalcirc(self, e):
        c = self.c[e["c"] - 1]
        if e["ps"] and len(e["ps"]) != len(c.circuit):
            return None
        a = [[[self.par(x) for x in p] if p else self.rng.choice([None, []]) for p in e["ps"]]] if e["ps"] else []
        s, x = call(c.eval, *a, inplace=True) if e["inplace"] else call(c.eval, *a)
        if s == "ok" and e["inplace"] and x is not c:
            return "another"
        if s == "ok" and not e["inplace"]:
            if x is c:
                return "same"
            self.c.append(x)
            self.vars.append([])
            reg = getattr(x, "_parameter_register", ())
            self.vars[-1] = list(reg)
            self.heap += x.circuit
        return s

    def setparam(self, e):
        if e["o"] > len(self.heap):
            return None
        if len(getattr(self.heap[e["o"] - 1], "parameters", ())) < e["j"]:
            return None
        self.heap[e["o"] - 1].parameters[e["j"] - 1] = self.par(e["v"])
        return "ok"

    def setqubits(self, e):
        if e["o"] > len(self.heap):
            return None
        return call(setattr, self.heap[e["o"] - 1], "qubits", self.some(self.qs(e["q"])))[0]

    def setbit(self, e):
        return call(self.b[e["b"] - 1].set, e["v"], force=True)[0]

    # --------------------------------------------------------------------- observation
    def pos(self, pool, x):
        for i, y in enumerate(pool):
            if x is y or x == y:
                return i + 1
        return -1

    def see_par(self, v):
        if isinstance(v, Variable):
            for c, vs in enumerate(self.vars):
                for i, w in enumerate(vs):
                    if v is w:
                        return 100 * (c + 1) + i
            return -1
        for i, w in enumerate(VALUES):
            if isinstance(v, (int, float, np.number)) and v == w:
                return i
        return -2

    def see_op(self, o):
        g = type(o).__name__
        if type(o) in self.names:
            g = self.names[type(o)]
        elif getattr(ops, g, None) is not type(o):
            g = "?"
        bits = getattr(o, "bits", None) or ()
        return {"g": g, "q": [self.pos(self.q, x) for x in o.qubits or ()],
                "p": [self.see_par(v) for v in getattr(o, "parameters", ())],
                "b": [self.pos(self.b, x) for x in bits],
                "c": [self.pos(self.b, x) for x in (o._cond or ())]}

    def see_bit(self, b):
        return 2 if b.value is None else b.value if type(b.value) is int else -1

    def see_var(self, v):
        x = v.value
        return -1 if x is None else self.see_par(x)

    def observe(self, res):
        act = CircuitContext.active_context
        return {"res": res, "active": next((i + 1 for i, c in enumerate(self.c) if act and act.circuit is c), -1 if act else 0),
                "frozen": bool(act.frozen) if act else False, "bits": [self.see_bit(b) for b in self.b],
                "ops": [self.see_op(o) for o in self.heap],
                "circs": [{"q": [self.pos(self.q, x) for x in c.qubits], "b": [self.pos(self.b, x) for x in c.bits],
                           "locked": c.is_locked(), "np": c.num_parameters,
                           "vars": [self.see_var(v) for v in self.vars[i]] if not act else [],
                           "prog": [self.see_op(o) for o in c.circuit]} for i, c in enumerate(self.c)]}


def run(c, n, tests=(2500, 20000), sims=(400, 6000)):
    import tlc
    r = tlc.model_check("CircMC", f"CircC{n}", env={"GEN": "1"})
    c.count_mc(r)
    hs = tlc.tests_of(r, maximal=False)
    c.note("tests_generated", len(hs))
    hs = [h[0] for h in c.rng.sample(hs, min(len(hs), c.pick(*tests)))]
    c.conform("CircTrace", hs, Driver(), label="transitions")
    r = tlc.run("CircMC", f"CircSim{n}", env={"GEN": "2"}, simulate=c.pick(*sims), depth=40, seed=c.seed, workers=1)
    c.count_mc(r)
    c.conform("CircTrace", [h[0] for h in tlc.tests_of(r, maximal=False)], Driver(), label="random")
