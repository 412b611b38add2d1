"""C24: a QIR module's compiled output follows its instruction list through any history."""
import gc
import json
import warnings

import numpy as np
import pyqir
import qirtext
import tlc
from core import Lender, call
from qirs import VALUES, vi

import dwave.gate.operations as ops
from dwave.gate.circuit import Circuit
from dwave.gate.operations.base import Measurement
from dwave.gate.qir.compiler import BaseModule, qir_module
from dwave.gate.qir.instructions import InstrType, Instruction

warnings.simplefilter("ignore")
DEFAULTS = {"qir_major_version": 1, "qir_minor_version": 0, "dynamic_qubit_management": False, "dynamic_result_management": False}
EMPTY = {"head": {"name": "Circuit", "major": 1, "minor": 0, "dq": False, "dr": False}, "nq": 0, "nb": 0, "body": [], "meas": [], "out": [], "ret": 0}
KIND = {"x": "X", "y": "Y", "z": "Z", "h": "Hadamard", "s": "S", "t": "T", "rx": "RX", "ry": "RY", "rz": "RZ", "cx": "CX", "cz": "CZ",
        "rot": "Rotation", "ccnot": "CCX", "crx": "CRX", "swap": "SWAP"}
BLOCK = {"body": "body", "meas": "measurements", "out": "output", "other": "other"}


class Driver:
    def __init__(self):
        gc.freeze()
        self.known = {}     # what texts and bitcodes mean

    def __call__(self, h, rng):
        self.rng = rng
        self.lend = Lender(rng)
        self.shared = pyqir.Context()
        self.added = {}
        self.m = []         # [module, is it compiled, its output when first read since then]
        ev = []
        self.partial = {"ev": ev}
        for e in h:
            if e.get("m", 0) > len(self.m):
                break
            if e["op"] in ("compile", "read", "reset") and not (self.m[e["m"] - 1][1] and (e["op"] == "read" or e["op"] == "compile" and not e["force"])):
                self.m[e["m"] - 1][2] = None
            s = getattr(self, e["op"])(e)
            ev.append(dict(e, obs={"res": s, "mods": [{"compiled": m[1], "prog": self.see(m) if m[1] else EMPTY} for m in self.m]}))
        if rng.random() < .005:
            gc.collect()
            gc.freeze()
        return {"ev": ev}

    # ------------------------------------------------------------------------- calls
    def new(self, e):
        ctx = [self.shared] if e["shared"] else self.rng.choice([[], [None]])
        h, kw = e["head"], {}
        for k, v in (("qir_major_version", h["major"]), ("qir_minor_version", h["minor"]),
                     ("dynamic_qubit_management", h["dq"]), ("dynamic_result_management", h["dr"])):
            if v != DEFAULTS[k] or self.rng.random() < .2:
                kw[k] = v
        s, m = call(BaseModule, h["name"], e["nq"], e["nb"], *ctx, **kw)
        if s == "ok":
            self.m.append([m, False, None])
        return s

    def of(self, e):
        def make():
            c = Circuit(e["nq"], e["nb"])
            with c.context as (q, b):
                for i in e["body"]:
                    a = [[VALUES[j] for j in i["p"]]] if i["p"] else []
                    getattr(ops, KIND[i["f"]])(*a, qubits=[q[j] for j in i["q"]])
                if self.rng.random() < .5:
                    for i in e["meas"]:
                        Measurement(q[i["q"][0]]) | b[i["r"][0]]
                elif e["meas"]:
                    Measurement([q[i["q"][0]] for i in e["meas"]]) | [b[i["r"][0]] for i in e["meas"]]
            return qir_module(c, add_external=True)
        s, m = call(make)
        if s == "ok":
            self.m.append([m, False, None])
        return s

    def add(self, e):
        m, i, rng = self.m[e["m"] - 1][0], e["i"], self.rng

        def num(x):
            v = VALUES[x]
            # (external functions take numbers of the declared type)
            return np.float64(v) if rng.random() < .3 else v
        args = [num(x) for x in i["p"]] + [m.qubits[x] for x in i["q"]] + [m.results[x] for x in i["r"]]
        lend = self.lend
        args = lend(args, [list, list, tuple])

        def make():
            if i["t"] == "ext":
                return m.get_external_instruction(i["f"], args)
            if i["t"] == "bad":
                return {"unknown": lambda: Instruction(InstrType.BASE, "nope", [m.qubits[0]]),
                        "skip": lambda: Instruction(InstrType.SKIP, "id", [m.qubits[0]]),
                        "few": lambda: Instruction(InstrType.BASE, "x", []),
                        "many": lambda: Instruction(InstrType.BASE, "x", [m.qubits[0], m.qubits[1]])}[i["f"]]()
            return Instruction({"base": InstrType.BASE, "mz": InstrType.MEASUREMENT, "out": InstrType.OUTPUT}[i["t"]], i["f"], args)
        new = make

        def make():
            # (the same instruction may be added more than once)
            if i["t"] == "bad" or rng.random() < .5:
                return new()
            key = e["m"], json.dumps(i, sort_keys=True)
            if key not in self.added or i["t"] == "ext":
                self.added[key] = new()
            return self.added[key]
        s, _ = call(lambda: m.add_instruction(BLOCK[e["blk"]], make()))
        lend.over()
        return s

    def many(self, e):
        return next((s for s in (self.add({"m": e["m"], "blk": "body", "i": i}) for i in e["is"]) if s != "ok"), "ok")

    def declare(self, e):
        m, d = self.m[e["m"] - 1][0], e["d"]
        lend = self.lend
        types = lend([m.Types.DOUBLE] * d["np"] + [m.Types.QUBIT] * d["nq"], [list])
        kw = self.rng.choice([{}, {"return_type": None}, {"return_type": m.Types.VOID}])
        s, _ = call(m.add_external_function, d["f"], types, **kw)
        lend.over()
        return s

    def setret(self, e):
        x = self.m[e["m"] - 1]
        m = x[0]
        a = [pyqir.const(m.Types.INT64, e["v"])] if e["v"] else self.rng.choice([[], [None]])
        s, _ = call(m.set_return, *a, **({"force": True} if e["force"] else self.rng.choice([{}, {"force": False}])))
        return s

    def compile(self, e):
        x = self.m[e["m"] - 1]
        kw = {}
        if e["force"] or self.rng.random() < .3:
            kw["force"] = e["force"]
        if not e["strict"] or self.rng.random() < .3:
            kw["strict"] = e["strict"]
        s, v = call(x[0].compile, **kw)
        if s == "ok":
            x[1] = True
        elif e["force"]:
            x[1] = False
        return s

    def read(self, e):
        x = self.m[e["m"] - 1]
        s, v = call(lambda: x[0].qir if self.rng.random() < .5 else x[0].bitcode)
        x[1] = s == "ok"
        return s

    def reset(self, e):
        x = self.m[e["m"] - 1]
        a, kw = self.rng.choice([([e["rm"]], {}), ([], {"rm_instructions": e["rm"]})])
        if e["rm"] and self.rng.random() < .4:
            a, kw = [], {}
        s, _ = call(x[0].reset, *a, **kw)
        x[1] = False
        return s

    # ------------------------------------------------------------------- observation
    def see(self, x):
        m = x[0]
        if self.rng.random() < .5:
            s, a = call(lambda: (m.qir, m.bitcode))
        else:
            s, a = call(lambda: (m.bitcode, m.qir)[::-1])
        if s != "ok" or type(a[0]) is not str or type(a[1]) is not bytes:
            return {"no program": "cannot be read"}
        if x[2] is None:
            x[2] = a
        elif x[2] != a:
            return {"no program": "the output has changed"}
        pa, pb = (self.meaning(f, y) for f, y in zip((qirtext.parse, qirtext.of_bitcode), a))
        return pa if pa == pb else {"no program": "text and bitcode differ"}

    def meaning(self, f, y):
        if y in self.known:
            return self.known[y]
        try:
            d = f(y)
            p = qirtext.base_profile(d)
            x = d["flags"]
            p["head"] = {"name": d["name"], "major": int(x["qir_major_version"]), "minor": int(x["qir_minor_version"]),
                         "dq": x["dynamic_qubit_management"] == "true", "dr": x["dynamic_result_management"] == "true"}
            p["ret"] = 0 if p["ret"] == "void" else int(p["ret"].removeprefix("i64 "))
            for k in ("body", "meas"):
                p[k] = [{"f": c["f"], "p": [vi(z) for z in c["p"]], "q": c["q"], "r": c["r"]} for c in p[k]]
        except (qirtext.NotQir, ValueError, KeyError) as ex:
            p = {"no program": str(ex)}
        if len(self.known) > 20000:
            self.known.clear()
        self.known[y] = p
        return p


def run(c):
    r = tlc.model_check("QirModuleMC", "QirModuleMC", env={"GEN": "1"})
    c.count_mc(r)
    hs = [t[0] for t in tlc.tests_of(r, maximal=False)]
    c.note("tests_generated", len(hs))
    c.conform("QirModuleTrace", c.rng.sample(hs, min(len(hs), c.pick(9000, 62000))), Driver(), label="transitions")
    r = tlc.run("QirModuleMC", "QirModuleSim", env={"GEN": "2"}, simulate=c.pick(900, 12000), depth=38, seed=c.seed, workers=1)
    c.count_mc(r)
    c.conform("QirModuleTrace", [t[0] for t in tlc.tests_of(r, maximal=False)], Driver(), label="random")
