"""C12: parameter registers grow on demand until frozen."""
import tlc
from core import threaded

from dwave.gate.circuit import CircuitContext, ParametricCircuit
from dwave.gate.primitives import Variable
from dwave.gate.registers.registers import SelfIncrementingRegister


class Boom(Exception):
    pass


def driver(h, rng):
    call = threaded(rng)
    known = []      # variables in order of first sight (creation order, as observed)
    regs, circs, ctxs = [], [], []
    ev = []
    nregs = ncircs = 0

    def ident(v):
        for i, k in enumerate(known):
            if k is v:
                return i + 1
        known.append(v)
        return len(known)

    def name(v):
        n = getattr(v, "name", None)
        if n is not None and n.isdigit() and str(int(n)) == n:
            return int(n)
        return {"x": -1, "": -2}.get(n, -9)

    for e in h:
        op = e["op"]
        val = 0
        if e.get("r", 0) > len(regs) or e.get("c", 0) > len(circs):
            break
        r = regs[e["r"] - 1] if "r" in e else None
        if op == "new_reg":
            regs.append(SelfIncrementingRegister())
            ok = "ok"
        elif op == "new_circ":
            circs.append(ParametricCircuit(rng.choice([None, 0, 1, 2])))
            ctxs.append(None)
            with circs[-1].context as ctx:      # hands out the register, then locks and freezes
                regs.append(ctx[0])
            circs[-1].unlock()
            ok = "ok"
        elif op == "copy":
            ok, v = call(r.copy)
            if ok == "ok":
                regs.append(v)
        elif op == "index":
            ok, v = call(lambda: r[e["i"]])
            if ok == "ok":
                # creation order: what the register now holds is known before the value is named
                for x in list(r):
                    ident(x)
                val = ident(v)
        elif op == "add":
            v = Variable({-1: "x", -2: ""}.get(e["name"], str(e["name"])))
            ok, _ = call(r.add, [v] if rng.random() < .5 else v)
        elif op == "freeze":
            ok, _ = call(r.freeze)
        elif op == "enter":
            c = circs[e["c"] - 1]

            def enter():
                ctx = c.context
                p = ctx.__enter__()[0]
                i = next((i for i, q in enumerate(regs) if q is p), None)
                if i is None:       # another register than before: shows in the observation
                    regs.append(p)
                return ctx
            ok, v = call(enter)
            if ok == "ok":
                ctxs[e["c"] - 1] = v
        elif op == "exit":
            ctx = CircuitContext.active_context
            if ctx is None:
                break
            if rng.random() < .5:
                ok, _ = call(ctx.__exit__, None, None, None)
            else:
                b = Boom()
                ok, _ = call(ctx.__exit__, Boom, b, b.__traceback__)
        elif op == "lock":
            ok, _ = call(circs[e["c"] - 1].lock)
        elif op == "unlock":
            ok, _ = call(circs[e["c"] - 1].unlock)
        elif op == "reset":
            ok, _ = call(circs[e["c"] - 1].reset, keep_registers=rng.random() < .5)
        act = CircuitContext.active_context
        obs = {"res": ok, "val": val, "regs": [], "circs": [],
               "active": 0 if act is None else next((i + 1 for i, c in enumerate(circs) if act.circuit is c), -1)}
        for q in regs:
            xs = list(q)
            obs["regs"].append({"items": [ident(x) for x in xs], "names": [name(x) for x in xs],
                                "len": len(q), "frozen": bool(q.frozen), "idx": [q.index(x) for x in xs]})
        for c in circs:
            obs["circs"].append({"locked": bool(c.is_locked()), "num": c.num_parameters,
                                 "parametric": bool(c.parametric)})
        ev.append(dict(e, obs=obs))
    act = CircuitContext.active_context
    if act is not None:
        act.__exit__(None, None, None)
    return {"ev": ev}


def run(c):
    r = tlc.model_check("ParamsMC", "ParamsMC", env={"GEN": "1"})
    c.count_mc(r)
    tests = tlc.tests_of(r)
    c.note("tests_generated", len(tests))
    tests = c.rng.sample(tests, min(len(tests), c.pick(6000, 60000)))
    c.conform("ParamsTrace", tests, driver, label="transitions")
    r = tlc.run("ParamsMC", "ParamsSim", env={"GEN": "2"}, simulate=c.pick(400, 6000), depth=32, seed=c.seed, workers=1)
    c.count_mc(r)
    c.conform("ParamsTrace", tlc.tests_of(r), driver, label="random")
