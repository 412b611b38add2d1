"""C13: identification numbers are never reused, and identity follows them."""
import copy
import pickle
import warnings

import tlc
from core import threaded

from dwave.gate.primitives import Bit, Qubit
from dwave.gate.tools.counters import IDCounter

ALPHA = set("0123456789abcdefghijklmnopqrstuvwxyz")


def driver(h, rng):
    warnings.simplefilter("ignore")
    call = threaded(rng)
    names = {}
    objs = []
    ev = []

    def ident(s):
        ok = isinstance(s, str) and set(s) <= ALPHA
        return {"id": names.setdefault(s, len(names) + 1), "len": len(s), "ok": ok}

    IDCounter.reset()
    for e in h:
        e = dict(e)
        op = e["op"]
        if op == "reset":
            kw = {k: v for k, v in (("length", e["l"]), ("batch", e["b"])) if v}
            ok, _ = call(IDCounter.reset, **kw)
        elif op == "refresh":
            ok, _ = call(IDCounter.refresh)
        elif op == "next":
            ids = []
            ok = "ok"
            for _ in range(e["k"]):
                ok, v = call(IDCounter.next)
                if ok == "err":
                    break
                ids.append(ident(v))
            e["ids"] = ids
        elif op == "new":
            cls = Qubit if e["kind"] == "q" else Bit
            ok, v = call(cls, rng.choice(["a", "a", None, 0]))
            e["id"] = {"id": 0, "len": 0, "ok": False}
            if ok == "ok":
                e["id"] = ident(v.id)
                objs.append(v)
        elif op == "copy":
            if e["o"] > len(objs):
                break
            o = objs[e["o"] - 1]
            ok, v = call(rng.choice([copy.copy, copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x))]), o)
            if ok == "ok":
                objs.append(v)
        else:
            if e["o"] > len(objs):
                break
            o = objs[e["o"] - 1]
            ok = "ok"
            if isinstance(o, Bit) and rng.random() < .7:
                ok, _ = call(o.set, rng.randrange(2), force=True)
            else:
                o.label = rng.choice(["a", "b", None, 1])
        keys = {}
        lst = []
        find = []
        for i, o in enumerate(objs):
            j = keys.setdefault(o, i + 1)
            k = next((k for k, p in enumerate(lst) if p is o or p == o), None)
            lst.append(o)
            find.append(j if k is None and j == i + 1 or k == j - 1 else -1)
        eq = [[(a == b) is True and (hash(a) == hash(b)) and not a != b for b in objs] for a in objs]
        ev.append(dict(e, obs={"res": ok, "eq": eq, "find": find}))
    IDCounter.reset()
    return {"ev": ev}


def run(c):
    r = tlc.model_check("IdsMC", "IdsMC", env={"GEN": "1"})
    c.count_mc(r)
    tests = tlc.tests_of(r)
    tests = c.rng.sample(tests, min(len(tests), c.pick(700, 6000)))
    c.conform("IdsTrace", tests, driver, label="transitions", chunk=1000)
    r = tlc.run("IdsMC", "IdsSim", env={"GEN": "2"}, simulate=c.pick(100, 1500), depth=18, seed=c.seed, workers=1)
    c.count_mc(r)
    c.conform("IdsTrace", tlc.tests_of(r), driver, label="random", chunk=300)
