"""C14: bits and variables keep their value until changed through the documented calls."""
import numpy as np
import tlc
from core import threaded

from dwave.gate.primitives import Bit, Variable

POOL = [0, 0.0, False, 1, True, 1.0, 0.5, -2, 1j, "a", ""]
TRUTH = {0: [0, False, 0.0, "", [], None, np.bool_(False), np.int64(0), (), 0j],
         1: [1, True, 2, -1, "0", "a", [0], np.bool_(True), np.int8(1), 0.25, 1j, float("nan")],
         2: [np.array([0, 1]), np.array([True, True])]}
NAMES = {1: ["x", "x"], 2: [0, "0"], 3: ["", ""]}
LABELS = [None, "b", 0]


def driver(h, rng):
    call = threaded(rng)
    bits, vs, first = [], [], []
    ev = []

    def pos(x):
        for i, p in enumerate(POOL):
            if x is p or (type(x) is type(p) and x == p):
                return i + 1
        return 0 if x is None else -1

    for e in h:
        op = e["op"]
        if op == "new_bit":
            b = Bit(LABELS[0])
            bits.append(b)
            first.append((b.id, hash(b)))
            ok = "ok"
        elif op == "new_var":
            vs.append(Variable(rng.choice(NAMES[e["n"]])))
            ok = "ok"
        elif op == "set_bit":
            v = rng.choice(TRUTH[e["t"]])
            b = bits[e["b"] - 1]
            ok, _ = call(b.set, v, e["force"]) if rng.random() < .5 else \
                call(b.set, v, force=e["force"]) if e["force"] or rng.random() < .5 else call(b.set, v)
        elif op == "reset_bit":
            ok, _ = call(bits[e["b"] - 1].reset)
        elif op == "label_bit":
            ok, _ = call(setattr, bits[e["b"] - 1], "label", LABELS[e["k"]])
        elif op == "set_var":
            ok, _ = call(vs[e["v"] - 1].set, POOL[e["x"] - 1])
        else:
            ok, _ = call(vs[e["v"] - 1].reset)
        obs = {"res": ok, "bits": [], "vars": []}
        for i, b in enumerate(bits):
            val = b.value
            obs["bits"].append({
                "value": -1 if val is None else val if type(val) is int else -2,
                "truth": bool(b), "label": next((k for k, x in enumerate(LABELS) if b.label is x), -1),
                "eq0": bool(b == 0 and 0 == b) if (b == 0) == (0 == b) else "asymmetric",
                "eq1": bool(b == 1 and 1 == b) if (b == 1) == (1 == b) else "asymmetric",
                "none": bool(b == None or not b != None),  # noqa: E711
                "same": [(b == c) is True and not (b != c) for c in bits],
                "id": i + 1 if b.id == first[i][0] else -1, "hash": hash(b) == first[i][1]})
        for i, v in enumerate(vs):
            obs["vars"].append({
                "value": pos(v.value),
                "name": next((k for k, n in NAMES.items() if str(n[0]) == v.name), -1),
                "eq": [(v == x) is True for x in POOL],
                "none": bool(v == None or not v != None),  # noqa: E711
                "same": [(v == w) is True and not (v != w) for w in vs],
                "hash": all(hash(v) == hash(w) for w in vs if w.name == v.name)})
        ev.append(dict(e, obs=obs))
    return {"ev": ev}


def run(c):
    r = tlc.model_check("ValuesMC", "ValuesMC", env={"GEN": "1"})
    c.count_mc(r)
    tests = tlc.tests_of(r)
    if not c.thorough:
        tests = c.rng.sample(tests, min(len(tests), 6000))
    c.conform("ValuesTrace", tests, driver, label="transitions")
    r = tlc.run("ValuesMC", "ValuesSim", env={"GEN": "2"}, simulate=c.pick(400, 6000), depth=27, seed=c.seed, workers=1)
    c.count_mc(r)
    c.conform("ValuesTrace", tlc.tests_of(r), driver, label="random")
