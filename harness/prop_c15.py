"""C15: a circuit's qubits and bits mirror its registers."""
import warnings

import tlc
from core import call, somewhere

from dwave.gate.circuit import Circuit, ParametricCircuit
from dwave.gate.primitives import Bit, Qubit, Variable

warnings.simplefilter("ignore")
DFLT = 100
# labels of registers: hashable things of any kind, also falsy ones; no two are equal
RLABELS = [0, "", (), "0", frozenset(), "r", -1, ("a", 1), 2.5, b"", "qreg", None]
# labels of (qu)bits
NAMES = [str(i) for i in range(60)] + ["", "a", "q0"]


class Driver:
    def __call__(self, h, rng):
        self.rng = rng
        rl = RLABELS[:-1]
        rng.shuffle(rl)
        self.rl = {i + 1: x for i, x in enumerate(rl)}
        rename = {i: NAMES[i] if rng.random() < .7 else rng.choice(NAMES) for i in range(11)}
        self.pool = {"q": [], "b": []}
        lab = {"q": [], "b": []}
        for k, cls in (("q", Qubit), ("b", Bit)):
            for i in h["pool"][k]:
                x = cls(rename[i])
                if k == "b" and rng.random() < .6:
                    x.set(rng.choice([0, 1]))
                self.pool[k].append(x)
                lab[k].append(self.name(x.label))
        self.c = []
        ev = []
        self.partial = {"pool": lab, "ev": ev}
        for e in h["ev"]:
            if e.get("c", 0) > len(self.c) or (e["op"] in ("add", "find") and e["x"] > len(self.pool[e["k"]])):
                break
            e = dict(e)
            res, val = somewhere(rng, getattr(self, e["op"]), e)
            e["obs"] = {"res": res, "val": val, "circs": [self.view(c) for c in self.c] if e["look"] else []}
            ev.append(e)
        return {"pool": lab, "ev": ev}

    # labels to numbers and back
    def name(self, x):
        return NAMES.index(x) if type(x) is str and x in NAMES else -1

    def rlabel(self, k, l):
        if l == -2:
            return self.rng.choice([[], {}, set()])
        if l >= DFLT:
            return f"{k}reg{l - DFLT}".replace("breg", "creg")
        return self.rl[l]

    def rnum(self, k, x):
        for i, y in self.rl.items():
            if type(x) is type(y) and x == y:
                return i
        p = {"q": "qreg", "b": "creg"}[k]
        if isinstance(x, str) and x.startswith(p) and x[len(p):].isdigit():
            return DFLT + int(x[len(p):])
        return -9

    def fresh(self, k, regs):
        """Takes note of the items made by a call; their labels."""
        out = []
        for r in regs:
            for x in list(r):
                if not any(x is y for y in self.pool[k]):
                    self.pool[k].append(x)
                    out.append(self.name(getattr(x, "label", None)))
        return out

    def num(self, k, x):
        for i, y in enumerate(self.pool[k]):
            if x is y:
                return i + 1
        return -1

    def regs(self, k, c):
        return c.qregisters if k == "q" else c.cregisters

    # ------------------------------------------------------------------------- calls
    def new(self, e):
        a = [None if x < 0 else x for x in (e["n"], e["m"])]
        cls = self.rng.choice([Circuit, ParametricCircuit])
        if a[1] is None and self.rng.random() < .5:
            a = a[:1] if a[0] is not None or self.rng.random() < .5 else []
        s, c = call(cls, *a) if self.rng.random() < .5 else call(cls, **dict(zip(("num_qubits", "num_bits"), a)))
        if s == "ok":
            self.c.append(c)
            e["qlabs"] = self.fresh("q", c.qregisters.values())
            e["blabs"] = self.fresh("b", c.cregisters.values())
        return s, []

    def addreg(self, e):
        rng = self.rng
        c = self.c[e["c"] - 1]
        f = c.add_qregister if e["k"] == "q" else c.add_cregister
        n = e["n"] if e["n"] >= 0 else rng.choice(["2", 1.5, [1]])
        kw = {} if n == 0 and rng.random() < .5 else {"num_qubits" if e["k"] == "q" else "num_bits": n}
        if e["l"] != -1 or rng.random() < .3:
            kw["label"] = None if e["l"] == -1 else self.rlabel(e["k"], e["l"])
        s, _ = call(f, **kw) if rng.random() < .5 or len(kw) < 2 else call(f, *kw.values())
        e["labs"] = self.fresh(e["k"], self.regs(e["k"], c).values())
        return s, []

    def add(self, e):
        rng = self.rng
        c = self.c[e["c"] - 1]
        k = e["k"]
        f = c.add_qubit if k == "q" else c.add_bit
        wrong = [Bit("0") if k == "q" else Qubit("0"), "0", 0, 3, [], Variable("0"), 1.5]
        x = None if e["x"] == 0 else rng.choice(wrong) if e["x"] < 0 else self.pool[k][e["x"] - 1]
        a = [] if x is None and e["l"] == -1 and rng.random() < .5 else [x]
        if a and (e["l"] != -1 or rng.random() < .3):
            a.append(None if e["l"] == -1 else self.rlabel(k, e["l"]))
        if len(a) == 2 and rng.random() < .5:
            s, _ = call(f, a[0], **{"qreg_label" if k == "q" else "creg_label": a[1]})
        else:
            s, _ = call(f, *a)
        e["labs"] = self.fresh(k, self.regs(k, c).values())
        return s, []

    def reset(self, e):
        c = self.c[e["c"] - 1]
        return call(c.reset, e["keep"])[0] if not e["keep"] or self.rng.random() < .5 else call(c.reset)[0], []

    def context(self, e):
        c = self.c[e["c"] - 1]

        def go():
            with c.context as regs:
                out = [[self.num("q", x) for x in regs.q], [self.num("b", x) for x in regs.c]]
            return out
        s, v = call(go)
        return s, v if s == "ok" else []

    def unlock(self, e):
        return call(self.c[e["c"] - 1].unlock)[0], []

    def get(self, e):
        rng = self.rng
        c = self.c[e["c"] - 1]
        k = e["k"]
        kw = {}
        if e["l"] != -1 or rng.random() < .3:
            kw["qreg_label" if k == "q" else "creg_label"] = None if e["l"] == -1 else self.rlabel(k, e["l"])
        if e["all"] or rng.random() < .3:
            kw["return_all"] = e["all"]
        s, v = call(c.get_qubit if k == "q" else c.get_bit, NAMES[e["name"]], **kw)
        if s == "err":
            return s, []
        if not e["all"]:
            return s, [[self.num(k, v)]]
        return s, [[self.num(k, x) for x in v]] if isinstance(v, list) else [[-9]]

    def find(self, e):
        c = self.c[e["c"] - 1]
        k = e["k"]
        kw = {"qreg_label" if k == "q" else "creg_label": e["label"]} if e["label"] or self.rng.random() < .3 else {}
        s, v = call(c.find_qubit if k == "q" else c.find_bit, self.pool[k][e["x"] - 1], **kw)
        if s == "err":
            return s, []
        ok = isinstance(v, tuple) and len(v) == 2 and type(v[1]) is int
        if not ok or (not e["label"] and type(v[0]) is not int):
            return s, [[-9]]
        return s, [[self.rnum(k, v[0]) if e["label"] else v[0], v[1]]]

    def look(self, e):
        return "ok", []

    def found(self, f, pool):
        out = []
        for x in pool[:8]:
            s, v = call(f, x)
            out.append(list(v) if s == "ok" else [])
        return out

    def view(self, c):
        """What a circuit shows; read in any order."""
        reads = [("q", lambda: [self.num("q", x) for x in c.qubits]),
                 ("b", lambda: [self.num("b", x) for x in c.bits]),
                 ("nq", lambda: c.num_qubits), ("nb", lambda: c.num_bits),
                 ("qregs", lambda: [{"lab": self.rnum("q", l), "items": [self.num("q", x) for x in r]} for l, r in c.qregisters.items()]),
                 ("bregs", lambda: [{"lab": self.rnum("b", l), "items": [self.num("b", x) for x in r]} for l, r in c.cregisters.items()]),
                 ("qfound", lambda: self.found(c.find_qubit, self.pool["q"])), ("bfound", lambda: self.found(c.find_bit, self.pool["b"])),
                 ("locked", lambda: c.is_locked())]
        self.rng.shuffle(reads)
        return {k: f() for k, f in reads}


def run(c):
    r = tlc.model_check("CircRegMC", "CircRegMC", env={"GEN": "1"})
    c.count_mc(r)
    hs = [t[0] for t in tlc.tests_of(r, maximal=False)]
    c.note("tests_generated", len(hs))
    c.conform("CircRegTrace", c.rng.sample(hs, min(len(hs), c.pick(6000, 60000))), Driver(), label="transitions")
    r = tlc.run("CircRegMC", "CircRegSim", env={"GEN": "2"}, simulate=c.pick(1200, 12000), depth=28, seed=c.seed, workers=1)
    c.count_mc(r)
    c.conform("CircRegTrace", [t[0] for t in tlc.tests_of(r, maximal=False)], Driver(), label="random")
