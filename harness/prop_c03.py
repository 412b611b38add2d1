"""C03: measurement statistics follow the Born rule, in simulation, samples and expval.

TLC prints, for every behaviour of the specification, the final bits with the exact probability of
that behaviour; frequencies over many seeds have to be within seven standard deviations."""
import math
import random

import sims
import numpy as np

from core import call
from sims import SimDriver, ring

from dwave.gate.simulator.simulator import simulate


def off(count, total, p):
    """Whether a frequency is impossible (probability below 1e-10) for the probability p."""
    if p < 1e-12:
        return count > 0
    if p > 1 - 1e-12:
        return count != total
    return abs(count - total * p) > 7.0 * math.sqrt(total * p * (1 - p)) + 3


def probability(x):
    return ring(x["p"]).real / (2.0 ** x["k"] * x["d"] ** 2)


def run(c):
    runs = c.pick(600, 3000)
    hs = sims.programs(c, "SimBornSim", "2", simulate=c.pick(220, 900), depth=24, seed=c.seed, workers=1)
    hs = [h for h in hs if sum(o["g"] == "Measurement" for o in h["ops"]) in (1, 2)]
    c.note("programs", len(hs))
    traces = [{"n": h["n"], "bits": h["bits"], "ops": h["ops"],
               "ev": [{"op": "simulate", "seed": 0, "le": False, "mixed": False, "rho": False, "any": True,
                       "obs": {"res": "ok", "bits": h["bits"], "dig": 0, "prog": []}}]} for h in hs]
    acc, rep, st = sims.validate(traces)
    c.states += st[0]
    c.transitions += st[1]
    for i, h in enumerate(hs):
        # exact distribution of the final bits, and of the state kept with the last measurement
        dist = {}
        for x in rep[i][1]:
            dist[tuple(x["bits"])] = dist.get(tuple(x["bits"]), 0) + probability(x)
        total = sum(dist.values())
        if abs(total - 1) > 1e-9:
            raise RuntimeError(f"the probabilities of the specification add up to {total}")
        rng = random.Random(f"C03/{c.seed}/{i}")
        d = SimDriver(rng)
        d.log = []
        circ = d.make(h)
        counts = {}
        base = rng.randrange(10 ** 6)
        for s in range(runs):
            for b, v in zip(d.b, h["bits"]):
                b.reset()
                if v < 2:
                    b.set(v)
            simulate(circ, rng_seed=base + s)
            counts[tuple(d.bits())] = counts.get(tuple(d.bits()), 0) + 1
        for o in set(counts) | set(dist):
            if off(counts.get(o, 0), runs, dist.get(o, 0)):
                c.violate("frequencies", program=h, bits=o, count=counts.get(o, 0), runs=runs,
                          probability=dist.get(o, 0))
        c.validated += 1
        c.sample({"program": h, "distribution": {str(k): v for k, v in dist.items()},
                  "counts": {str(k): v for k, v in counts.items()}})
    samples(c, hs)


def sizes(num, rng):
    """Samples are asked for in one call or in many (every call draws anew)."""
    if rng.random() < (.5 if num > 6000 else .15):
        return [num]
    few = [0] * (num // 3)
    few = [rng.randint(1, 3) for _ in few] if rng.random() < .7 else [num // 3, num // 3]
    while sum(few) > num:
        few.pop()
    return few + ([num - sum(few)] if sum(few) < num else [])


def again(got, p):
    """The distance at which later samples follow earlier ones, if there is one (they are independent)."""
    size = len(got)
    keep = sum(x * x for x in p.values())
    var = keep - keep ** 2 + 2 * max(0.0, sum(x ** 3 for x in p.values()) - keep ** 2)
    if keep > .98:
        return None
    same = np.zeros(size)
    for o in set(got):
        x = np.array([1.0 if s == o else 0.0 for s in got])
        f = np.fft.rfft(x, 2 * size)
        same += np.fft.irfft(f * np.conj(f), 2 * size)[:size]
    for lag in range(1, size - 60):
        pairs = size - lag
        if same[lag] - pairs * keep > 8.0 * math.sqrt(pairs * var) + 8:
            return lag
    return None


def taken(f, num, rng, **kw):
    out = []
    for k in sizes(num, rng):
        got = f(num_samples=k, **kw) if k > 1 or rng.random() < .5 else f(**kw)
        if not isinstance(got, list) or len(got) != k:
            return []
        out += got
    return out


def means(f, num, rng, **kw):
    total = 0
    for k in sizes(num, rng):
        got = np.array(f(num_samples=k, **kw)) * k
        if abs(got - got.round()).max() > 1e-6:
            return []
        total = total + got
    return list(total / num)


def samples(c, hs):
    """Samples and expectation values of measurements, against the exact distribution of the state
    that TLC gives for the run."""
    traces, jobs = [], []
    for i, h in enumerate(hs[:c.pick(120, 500)]):
        rng = random.Random(f"C03/samples/{c.seed}/{i}")
        d = SimDriver(rng)
        t = d.run(h)
        asked = []
        for j, o in enumerate(h["ops"]):
            if o["g"] == "Measurement" and d.main()[j].state is not None:
                qs = rng.sample(range(h["n"]), rng.randint(1, h["n"]))
                asked += [(j, None, o["q"]), (j, qs, qs)]
        t["ev"] += [{"op": "dist", "i": j + 1, "q": q} for j, _, q in asked]
        traces.append(t)
        jobs.append((d, asked))
    acc, rep, st = sims.validate(traces)
    c.states += st[0]
    c.transitions += st[1]
    for i, (d, asked) in enumerate(jobs):
        if i not in acc:
            c.violate("run", what="no behaviour of the specification explains this run", trace=traces[i])
            continue
        for k, (j, arg, q) in enumerate(asked):
            num = c.pick(9000 if (i + k) % 12 == 0 else 1500, 9000 if i % 4 == 0 else 6000)
            ds = rep[i].get(("dist", k + 2), [])
            m = d.main()[j]
            kw = {} if arg is None else {"qubits": list(arg)}
            as_bits = random.Random(f"C03/form/{c.seed}/{i}/{k}").random() < .5
            res, got = call(taken, m.sample, num, rng=random.Random(f"C03/calls/{c.seed}/{i}/{k}"), as_bitstring=as_bits, **kw)
            res2, ev = call(means, m.expval, num, rng=random.Random(f"C03/calls/{c.seed}/{i}/{k}"), **kw)
            what = {"program": traces[i]["ops"], "n": traces[i]["n"], "measurement": j, "qubits": q}
            if res == "err" or res2 == "err" or len(got) != num or len(ev) != len(q):
                c.violate("samples", what=[repr(got)[:200], repr(ev)[:200]], **what)
                continue
            counts = {}
            seq = [tuple(int(x) for x in s) for s in got]
            for s in seq:
                counts[s] = counts.get(s, 0) + 1
            ok = []
            for x in ds:
                t = ring(x["t"]).real
                p = {tuple(y["o"]): ring(y["p"]).real / t for y in x["o"]}
                bad = [[s, counts.get(s, 0), p.get(s, 0)] for s in set(counts) | set(p)
                       if off(counts.get(s, 0), num, p.get(s, 0))]
                lag = again(seq, p)
                if lag is not None:
                    bad.append(["samples repeat at a distance of", lag])
                for pos in range(len(q)):
                    one = sum(v for s, v in p.items() if s[pos] == 1)
                    n1 = ev[pos] * num
                    if abs(n1 - round(n1)) > 1e-6 or off(round(n1), num, one):
                        bad.append(["expval", pos, ev[pos], one])
                ok.append(bad)
            if not any(b == [] for b in ok):
                c.violate("samples", why=ok[:2], **what)
        c.validated += 1
