"""C22, C23: circuits compiled to QIR and QIR loaded into circuits, against Qir.tla."""
import struct
import warnings

import numpy as np
import pyqir
import qirtext
import tlc
from core import call
from sims import CCZ

import dwave.gate.operations as ops
from dwave.gate.circuit import Circuit, ParametricCircuit
from dwave.gate.operations import create_operation
from dwave.gate.operations.base import Barrier, Measurement
from dwave.gate.primitives import Bit, Qubit, Variable
from dwave.gate.qir.compiler import qir_module
from dwave.gate.qir.loader import load_qir_bitcode, load_qir_string
from dwave.gate.registers import ClassicalRegister, QuantumRegister

warnings.simplefilter("ignore")
# the last ones differ in the last place, or are large, tiny, or without a short decimal form
VALUES = [0.0, 1.0, -1.25, 0.1, 3.141592653589793, 0.30000000000000004, 1e300, -5e-324, 1.0000000000000002, 7.0]
ALIASES = {"CX": ["CX", "CNOT"], "CCX": ["CCX", "Toffoli", "CCNOT"], "CSWAP": ["CSWAP", "Fredkin"], "S": ["S", "Phase"]}
SPECIAL = {"Barrier": Barrier, "Measurement": Measurement, "CCZ": CCZ}
LABELS = [0, "", "q", "r", 1, (), "creg0", "qreg1", "7"]
NOBITS = [-1]


def custom():
    c = Circuit(1)
    with c.context as (q, _):
        ops.Hadamard(q[0])
        ops.X(q[0])
    return create_operation(c, "Mine")


def vi(x):
    """The value a number is (exactly)."""
    if isinstance(x, Variable):
        x = x.value
    if isinstance(x, bool) or not isinstance(x, (int, float)):
        return -2
    return next((i for i, v in enumerate(VALUES) if v == x), -1)


# -------------------------------------------------------------- QIR that was not made by the compiler
def qptr(kind, i, rng):
    if i == 0 and rng.random() < .7:
        return f"%{kind}* null"
    return f"%{kind}* inttoptr (i64 {i} to %{kind}*)"


def number(x):
    return "0x" + struct.pack(">d", x).hex().upper()


def write(t, rng):
    """The text of a program (all calls in one block)."""
    decl, calls = {}, []
    for c in t["body"] + t["meas"]:
        name = f"__quantum__qis__{c['f']}__body"
        args = [f"double {number(VALUES[i])}" for i in c["p"]] + [qptr("Qubit", i, rng) for i in c["q"]]
        args += [qptr("Result", i, rng) for i in c["r"]]
        decl[name] = ["double"] * len(c["p"]) + ["%Qubit*"] * len(c["q"]) + ["%Result*"] * len(c["r"])
        calls.append(f"  call void @{name}({', '.join(args)})")
        if c["f"] == "mz" and rng.random() < .3:   # (of no interest to the circuit)
            decl["__quantum__rt__result_record_output"] = ["%Result*", "i8*"]
            calls.append(f"  call void @__quantum__rt__result_record_output({qptr('Result', c['r'][0], rng)}, i8* null)")
    if rng.random() < .5:
        decl["__quantum__rt__initialize"] = ["i8*"]
        calls.insert(0, "  call void @__quantum__rt__initialize(i8* null)")
    if rng.random() < .5:    # in several blocks
        k = rng.randrange(len(calls) + 1)
        calls[k:k] = ["  br label %more", "", "more:"]
    ds = [f"declare void @{f}({', '.join(a)})" for f, a in decl.items()]
    head = ["%Qubit = type opaque", "%Result = type opaque", ""]
    main = ["define void @main() #0 {", "entry:"] + calls + ["  ret void", "}", ""]
    first, second = (ds, main) if rng.random() < .5 else (main, ds)
    tail = ['', f'attributes #0 = {{ "entry_point" "num_required_qubits"="{t["nq"]}" "num_required_results"="{t["nb"]}" }}', '']
    return "\n".join(head + first + [""] + second + tail)


class Driver:
    def __call__(self, h, rng):
        self.rng = rng
        self.custom = {"Custom": custom()}
        self.names = {v: k for k, v in self.custom.items()}
        self.c, self.t = [], []      # circuits, programs [text, bitcode, what they say]
        ev = []
        self.partial = {"ev": ev}
        for e in h:
            if e.get("c", 0) > len(self.c) or e["op"] == "load" and e["t"] > len(self.t):
                break
            if e["op"] == "append" and not self.fits(e):
                break
            e = dict(e)
            res = getattr(self, e["op"])(e)
            if e["op"] == "load" and res == "ok":
                k = e["c"] - 1 if e["c"] else -1
                e["nq"], e["nb"] = self.c[k].num_qubits, self.c[k].num_bits
            ev.append(dict(e, obs={"res": res, "circs": [self.see(c) for c in self.c], "texts": [t[2] for t in self.t]}))
        return {"ev": ev}

    def fits(self, e):
        c, o = self.c[e["c"] - 1], e["o"]
        b = [] if o["b"] == NOBITS else o["b"]
        return max(o["q"], default=-1) < c.num_qubits and max(b + o["c"], default=-1) < c.num_bits

    # ------------------------------------------------------------------------- calls
    def grow(self, c, kind, n):
        """n more qubits or bits, in registers of several kinds."""
        rng = self.rng
        cls, one, reg = (Qubit, c.add_qubit, c.add_qregister) if kind == "q" else (Bit, c.add_bit, c.add_cregister)
        while n:
            k = rng.randint(1, n)
            n -= k
            regs = c.qregisters if kind == "q" else c.cregisters
            free = [x for x in LABELS if x not in regs]
            m = rng.random()
            if m < .3 or not free:
                reg(k)
            elif m < .55:
                reg(k, rng.choice(free))
            else:
                # (one by one into the first register would come before the others')
                last = next(reversed(regs), None)
                if last is None or rng.random() < .6:
                    last = rng.choice(free)
                for _ in range(k):
                    one(cls(rng.choice(["a", "0", "1"])) if rng.random() < .5 else None, last)

    def new(self, e):
        rng = self.rng
        cls = rng.choice([Circuit, Circuit, ParametricCircuit])
        if rng.random() < .35:
            c = cls(e["nq"], e["nb"]) if e["nq"] + e["nb"] else cls()
        else:
            c = cls()
            self.grow(c, "q", e["nq"])
            self.grow(c, "b", e["nb"])
        for b in c.bits:
            if rng.random() < .4:
                b.set(rng.choice([0, 1]))
        self.c.append(c)
        return "ok"

    def extend(self, e):
        c = self.c[e["c"] - 1]
        s, _ = call(c.unlock)
        s, _ = call(self.grow, c, "q", e["nq"])
        s2, _ = call(self.grow, c, "b", e["nb"])
        return s if s == s2 else "err"

    def clear(self, e):
        c = self.c[e["c"] - 1]
        s, _ = call(c.reset)
        return s

    def num(self, i):
        x = VALUES[i]
        r = self.rng.random()
        if r < .25 and x == int(x) and abs(x) < 1e9:
            return int(x)
        return np.float64(x) if r < .5 else x

    def cls_of(self, g):
        return self.custom.get(g) or SPECIAL.get(g) or getattr(ops, self.rng.choice(ALIASES.get(g, [g])))

    def append(self, e):
        rng = self.rng
        c, o = self.c[e["c"] - 1], e["o"]
        cls = self.cls_of(o["g"])

        def make():
            qs = [c.qubits[i] for i in o["q"]]
            a = [[self.num(i) for i in o["p"]]] if o["p"] else []
            if a and len(a[0]) == 1 and rng.random() < .5:
                a = a[0]
            x = cls(*a, qubits=qs)
            if o["b"] != NOBITS:
                bs = [c.bits[i] for i in o["b"]]
                if len(bs) == 1 and rng.random() < .5:
                    bs = bs[0]
                x = x | bs
            if o["c"]:
                x = x.conditional([c.bits[i] for i in o["c"]])
            return x
        c.unlock()
        if rng.random() < .4:
            def run():
                with c.context:
                    make()
            s, _ = call(run)
        else:
            s, _ = call(lambda: c.append(make()))
        return s

    def many(self, e):
        return next((s for s in (Driver.append(self, {"c": e["c"], "o": o}) for o in e["os"]) if s != "ok"), "ok")

    def compile(self, e):
        c, ext, rng = self.c[e["c"] - 1], e["ext"], self.rng

        def again(x):
            """The output does not depend on how often the module has been compiled."""
            if rng.random() < .5:
                x.compile()
                if rng.random() < .4:
                    x.compile(force=True)

        def text():
            m = rng.random()
            if m < .5:
                return c.to_qir(add_external=ext) if ext or rng.random() < .5 else c.to_qir()
            x = qir_module(c, add_external=ext)
            again(x)
            return x.qir

        def code():
            if rng.random() < .5:
                return c.to_qir(add_external=ext, bitcode=True)
            x = qir_module(c, ext)
            again(x)
            return x.bitcode
        first = rng.random() < .5
        s1, a = call(text if first else code)
        s2, b = call(code if first else text)
        if s1 != s2:
            return "only one of the forms"
        if s1 == "err":
            return "err"
        if not first:
            a, b = b, a
        if type(a) is not str or type(b) is not bytes:
            return "types"
        pa, pb = self.meaning(qirtext.parse, a), self.meaning(qirtext.of_bitcode, b)
        if pa != pb:
            return "text and bitcode differ"
        self.t.append([a, b, pa])
        return "ok"

    def meaning(self, f, x):
        try:
            p = qirtext.base_profile(f(x))
        except qirtext.NotQir as ex:
            return {"no program": str(ex)}
        if p.pop("ret") != "void":
            return {"no program": "ret"}
        for k in ("body", "meas"):
            p[k] = [{"f": c["f"], "p": [vi(y) for y in c["p"]], "q": c["q"], "r": c["r"]} for c in p[k]]
        return p

    def write(self, e):
        t = write(e["t"], self.rng)
        self.t.append([t, pyqir.Module.from_ir(pyqir.Context(), t).bitcode, e["t"]])
        return "ok"

    def load(self, e):
        rng = self.rng
        text, code, _ = self.t[e["t"] - 1]
        into = self.c[e["c"] - 1] if e["c"] else None
        bit = rng.random() < .5
        x = code if bit else text
        if into is None and rng.random() < .4:
            cls = rng.choice([Circuit, Circuit, ParametricCircuit])
            s, c = call(cls.from_qir, x, bitcode=bit)
            if s == "ok" and type(c) is not cls:
                return "another type"
        else:
            f = load_qir_bitcode if bit else load_qir_string
            kw = {"context": pyqir.Context()} if rng.random() < .3 else {}
            if into is not None and rng.random() < .5:
                into.unlock()
            s, c = call(f, x, into, **kw) if into is not None or rng.random() < .3 else call(f, x, **kw)
            if s == "ok" and into is not None and c is not into:
                return "another"
        if s == "ok" and into is None:
            self.c.append(c)
        return s

    # ------------------------------------------------------------------- observation
    def see(self, c):
        Q, B = list(c.qubits), list(c.bits)

        def pos(pool, xs):
            return [next((i for i, y in enumerate(pool) if x is y), -1) for x in xs or ()]
        prog = []
        for o in c.circuit:
            g = type(o).__name__
            if type(o) in self.names:
                g = self.names[type(o)]
            elif type(o) is not SPECIAL.get(g, getattr(ops, g, None)):
                g = "?"
            b = getattr(o, "bits", None)
            prog.append({"g": g, "q": pos(Q, o.qubits), "p": [vi(x) for x in getattr(o, "parameters", ())],
                         "b": NOBITS if b is None else pos(B, b), "c": pos(B, o._cond)})
        return {"nq": c.num_qubits, "nb": c.num_bits, "prog": prog}


def run(c, mc, cfg, tests, sims):
    r = tlc.model_check("QirMC", mc, env={"GEN": "1"})
    c.count_mc(r)
    hs = [t[0] for t in tlc.tests_of(r, maximal=False)]
    c.note("tests_generated", len(hs))
    last = {"QirSim22": ("compile",), "QirSim23": ("load",)}[cfg]
    hs = [h for h in hs if h[-1]["op"] in last]
    c.conform("QirTrace", c.rng.sample(hs, min(len(hs), c.pick(*tests))), Driver(), label="transitions")
    r = tlc.run("QirMC", cfg, env={"GEN": "2"}, simulate=c.pick(*sims), depth=36, seed=c.seed, workers=1)
    c.count_mc(r)
    c.conform("QirTrace", [t[0] for t in tlc.tests_of(r, maximal=False)], Driver(), label="random")
