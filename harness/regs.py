"""Drives real registers through histories of spec/Reg.tla and records what is observable."""
from core import call

from dwave.gate.primitives import Bit, Qubit, Variable
from dwave.gate.registers.registers import (ClassicalRegister, QuantumRegister, Register,
                                            SelfIncrementingRegister)

NUM = 1000
NONE = 99999


def pools(rng, valued=True):
    """Items of every kind a user puts into registers; values that compare equal to integers
    (bits, variables) and falsy ones included."""
    objs = [Qubit("q0"), Qubit(f"q{rng.randrange(3)}"), Qubit(""), Qubit("0")]
    for v in ((None, 0, 1) if valued else (None,) * 3):
        b = Bit(rng.choice([None, "b", ""]))
        if v is not None:
            b.set(v)
        objs.append(b)
    for name, v in (("x", 0), ("y", 1), ("z", None), ("0", 2), ("w", "a")):
        p = Variable(name)
        if v is not None and valued:
            p.set(v)
        objs.append(p)
    objs += ["a", "", "0", "1", (), (0, 1), frozenset(), 0.5, -1, -2, b"", ("a",)]
    return objs


KINDS = [Register, Register, QuantumRegister, ClassicalRegister]


class RegDriver:
    def __init__(self, rng, valued=True, cls=None):
        self.rng = rng
        self.cls = cls or rng.choice(KINDS)
        objs = pools(rng, valued)
        rng.shuffle(objs)
        self.objs = {i + 1: o for i, o in enumerate(objs)}
        self.regs = []

    def conc(self, x):
        return x - NUM if x >= NUM else self.objs[x]

    def abst(self, o):
        """The abstract item of a concrete object: identity, not equality, decides."""
        if type(o) is int and 0 <= o < 900:
            return NUM + o
        for i, p in self.objs.items():
            if o is p or (type(o) is type(p) and isinstance(o, (str, float, int, tuple, bytes, frozenset))
                          and o == p):
                return i
        return -1

    def obs_reg(self, r, univ):
        n = len(r)

        def sane(xs):
            return [self.abst(x) for x in xs]

        def idx(x):
            s, v = call(r.index, self.conc(x))
            return v if s == "ok" and type(v) is int else -1

        at = [call(r.__getitem__, i) for i in range(n)]
        neg = [call(r.__getitem__, -1 - i) for i in range(n)]
        return {"items": sane(list(iter(r))), "len": n,
                "at": [self.abst(v) if s == "ok" else -2 for s, v in at],
                "neg": [self.abst(v) if s == "ok" else -2 for s, v in neg],
                "rev": sane(reversed(r)),
                "idx": [idx(x) for x in univ],
                # (what has no hash is in no register)
                "has": [(self.conc(x) in r) if any(self.conc(x) is y for y in iter(r)) or self.rng.random() < .9
                        else (self.conc(x) in r) or self.rng.choice(([], {}, [0], {0})) in r for x in univ],
                "frozen": bool(r.frozen)}

    def obs(self, res, val, univ):
        return {"res": res, "val": val,
                "regs": [self.obs_reg(r, univ) for r in self.regs]}

    def sequence(self, xs, kinds):
        """The items xs in some collection; as a range if they can be."""
        if all(type(x) is int for x in xs) and self.rng.random() < .5:
            step = xs[1] - xs[0] if len(xs) > 1 else self.rng.choice([1, 1, 2, -1])
            a = xs[0] if xs else self.rng.choice([0, 0, 2])
            r = range(a, a + step * len(xs), step) if step and xs else range(a, a - self.rng.randrange(3))
            if list(r) == xs:
                return r
        return self.rng.choice(kinds)(xs)

    def step(self, e):
        """Performs one call; returns (res, val)."""
        op = e["op"]
        rng = self.rng
        regs = self.regs
        val = 0
        if op == "create":
            xs = [self.conc(x) for x in e["xs"]]
            arg = self.sequence(xs, [list, tuple, iter])
            ok, v = call(self.cls, arg) if xs or rng.random() < .5 else call(self.cls)
        elif op == "create_from":
            ok, v = call(self.cls, regs[e["r"] - 1])
        elif op == "copy":
            r = regs[e["r"] - 1]
            if rng.random() < .5:
                ok, v = call(r.copy)
            else:
                import copy
                ok, v = call(copy.copy, r)
        elif op == "add":
            xs = [self.conc(x) for x in e["xs"]]
            if len(xs) == 1 and not isinstance(xs[0], (tuple, bytes)) and rng.random() < .5:
                ok, v = call(regs[e["r"] - 1].add, xs[0])
            else:
                ok, v = call(regs[e["r"] - 1].add, self.sequence(xs, [list, tuple]))
        elif op == "add_reg":
            ok, v = call(regs[e["r"] - 1].add, regs[e["s"] - 1])
        elif op == "plus":
            ok, v = call(lambda: regs[e["r"] - 1] + regs[e["s"] - 1])
        elif op == "slice":
            sl = slice(*[None if e[k] == NONE else e[k] for k in "abc"])
            ok, v = call(lambda: regs[e["r"] - 1][sl])
        elif op == "freeze":
            ok, v = call(regs[e["r"] - 1].freeze)
        elif op in ("at", "param"):
            ok, v = call(lambda: regs[e["r"] - 1][e["i"]])
            val = self.abst(v) if ok == "ok" else 0
        elif op == "pop":
            ok, v = call(regs[e["r"] - 1]._pop)
            val = self.abst(v) if ok == "ok" else 0
        elif op == "remove":
            ok, v = call(regs[e["r"] - 1]._remove, self.conc(e["x"]))
        elif op == "clear":
            ok, v = call(regs[e["r"] - 1]._clear)
        elif op == "append_new":
            ok, v = call(regs[e["r"] - 1]._append)
            val = self.abst(v) if ok == "ok" else 0
        elif op == "relabel":
            ok, v = call(regs[e["r"] - 1]._relabel,
                         {self.conc(a): self.conc(b) for a, b in zip(e["olds"], e["news"])})
        elif op == "relabel_ints":
            ok, v = call(regs[e["r"] - 1]._relabel_as_integers)
        else:
            raise ValueError(op)
        if ok == "ok" and op in ("create", "create_from", "copy", "plus", "slice"):
            regs.append(v)
        return ok, val

    INTERNAL = {"pop": "_pop", "remove": "_remove", "clear": "_clear", "append_new": "_append", "relabel": "_relabel",
                "relabel_ints": "_relabel_as_integers"}

    def run(self, hist, univ):
        ev = []
        for e in hist:
            if max(e.get("r", 0), e.get("s", 0)) > len(self.regs):
                break   # an earlier call deviated: the trace up to there is rejected
            if e["op"] in self.INTERNAL and not hasattr(self.regs[e["r"] - 1], self.INTERNAL[e["op"]]):
                continue   # not part of the public interface: may be gone
            if e["op"] == "relabel" and not all(self.conc(x) in list(self.regs[e["r"] - 1]) for x in e["olds"]):
                continue   # a rejected addition may or may not have left a prefix: nothing to relabel
            res, val = self.step(e)
            ev.append(dict(e, obs=self.obs(res, val, univ)))
        return {"univ": univ, "ev": ev}
