"""Drives real circuits through histories of spec/Sim.tla and compares states with the exact ones
that TLC prints."""
import copy
import cmath
import json
import math
import os
import tempfile
import traceback
import warnings

import numpy as np

import tlc
from core import Lender, call, diff, elsewhere

import dwave.gate.operations as ops
from dwave.gate.circuit import Circuit, ParametricCircuit
from dwave.gate.operations.base import (Barrier, ControlledOperation, Measurement,
                                        ParametricControlledOperation)
from dwave.gate.primitives import Bit, Qubit
from dwave.gate.simulator.simulator import simulate
from dwave.gate.tools.unitary import build_unitary

warnings.simplefilter("ignore")
TOL = 1e-9
W = cmath.exp(1j * math.pi / 4)


class CS(ControlledOperation):
    _num_control, _num_target, _target_operation = 1, 1, ops.S


class CT(ControlledOperation):
    _num_control, _num_target, _target_operation = 1, 1, ops.T


class CCZ(ControlledOperation):
    _num_control, _num_target, _target_operation = 2, 1, ops.Z


class CCHadamard(ControlledOperation):
    _num_control, _num_target, _target_operation = 2, 1, ops.Hadamard


class CCRX(ParametricControlledOperation):
    _num_control, _num_target, _num_params, _target_operation = 2, 1, 1, ops.RX


CUSTOM = {"CS": CS, "CT": CT, "CCZ": CCZ, "CCHadamard": CCHadamard, "CCRX": CCRX}
PARAMS = {"RX": 1, "RY": 1, "RZ": 1, "Rotation": 3, "CRX": 1, "CRY": 1, "CRZ": 1, "CRotation": 3, "CCRX": 1}


def cls_of(g):
    if g == "Barrier":
        return Barrier
    if g == "Measurement":
        return Measurement
    return CUSTOM.get(g) or getattr(ops, g)


def half_angle(a):
    """theta/2 of the angles of Ring.tla."""
    if a < 8:
        return a * math.pi / 4
    return {8: math.atan2(4, 3), 9: math.atan2(-3, 4), 10: math.atan2(12, -5),
            11: math.atan2(4, 3) + math.pi / 4, 12: math.atan2(15, 112), 13: math.atan2(-112, 15)}[a]


def angle(a, rng):
    t = 2 * half_angle(a) + 4 * math.pi * rng.choice([0, 0, 0, 1, -1, 3])
    if t == 0:
        return rng.choice([0, 0.0])
    return rng.choice([float, np.float64])(t)


def ring(x):
    return x[0] + x[1] * W + x[2] * W ** 2 + x[3] * W ** 3


def sparse(v):
    return bool(v) and isinstance(v[0][1], list)


def vector(v, n=None):
    """The normalised vector of ring elements, or of pairs of indices and ring elements (n qubits)."""
    if sparse(v):
        a = np.zeros(1 << n, dtype=complex)
        for i, x in v:
            a[i] = ring(x)
    else:
        a = np.array([ring(x) for x in v], dtype=complex)
    return a / np.linalg.norm(a)


def matrix(x, n):
    """The density matrix of a report."""
    r = np.array([[ring(e) for e in row] for row in x["rho"]])
    if sparse(x["vec"]):
        at = [i for i, _ in x["vec"]]
        full = np.zeros((1 << n, 1 << n), dtype=complex)
        full[np.ix_(at, at)] = r
        r = full
    return r / np.trace(r)


def close(a, b):
    return a is not None and getattr(a, "shape", None) == b.shape and bool(np.max(np.abs(a - b), initial=0) < TOL)


class SimDriver:
    def __init__(self, rng, split=True):
        self.rng = rng
        self.split = split
        self.turns, self.second = False, set()
        self.seq = Lender(rng)

    def make(self, h):
        rng = self.rng
        n, nb = h["n"], len(h["bits"])
        kind = ParametricCircuit if rng.random() < .15 else Circuit
        style = rng.random() if self.split else 1
        if style < .3:
            # (qu)bits of the caller, whose labels say nothing
            c = kind()
            pools = [[one(rng.choice(["0", "x", 1, f"l{k}"])) for k in range(total)] for total, one in ((n, Qubit), (nb, Bit))]
            if 0 < n < 13 and rng.random() < .3:
                self.earlier(c, *pools)
            for pool, add in zip(pools, (c.add_qubit, c.add_bit)):
                regs = rng.choice([[None], ["a"], ["b", "a"]])
                for k, x in enumerate(pool):
                    # registers are filled in order: the k-th one comes k-th
                    add(x, regs[min(len(regs) - 1, 2 * k // len(pool))])
        elif style < .6:
            c = kind()
            for total, add in ((n, c.add_qregister), (nb, c.add_cregister)):
                left = total
                i = 0
                while left:
                    k = rng.randint(1, left)
                    add(k, f"r{i}{add.__name__}")
                    left -= k
                    i += 1
        else:
            c = kind(n, nb or None)
        self.c = c
        self.n = n
        self.q = list(c.qubits)
        self.b = list(c.bits)
        for i, v in enumerate(h["bits"]):
            if v < 2:
                self.b[i].set(v)
        how = rng.choice(["context", "context", "append", "extend"])
        if how == "context":
            with c.context:
                for o in h["ops"]:
                    self.ops(o)
        else:
            new = [op for o in h["ops"] for op in self.ops(o)]
            if how == "extend":
                c.extend(new)
            for op in new if how == "append" else ():
                c.append(op)
        return c

    def earlier(self, c, qs, bs):
        """The circuit has had these qubits and bits before, in another order, and was emptied."""
        for x in self.rng.sample(qs, len(qs)):
            c.add_qubit(x)
        for x in self.rng.sample(bs, self.rng.randint(0, len(bs))):
            c.add_bit(x)
        for x in qs:
            c.append(ops.Hadamard(x))
        if len(qs) > 1:
            c.append(ops.CX(qs[0], qs[1]))
        if self.rng.random() < .5:
            simulate(c)
        if len(qs) < 6 and self.rng.random() < .5:
            build_unitary(c)
        c.reset(keep_registers=False)

    def ops(self, o):
        """The operations for one of the program: turning in two steps is turning by the sum (AddUp in Poly)."""
        if not self.turns or len(o["p"]) != 1 or self.rng.random() > .25:
            return [self.op(o)]
        rng = self.rng
        total = angle(o["p"][0], rng)
        part = rng.choice([rng.uniform(-7, 7), rng.uniform(-1, 1) * 1e-3, 1e-5, -3e-7 * rng.random(), rng.uniform(-900, 900)])
        x = [part, total - part]
        rng.shuffle(x)
        pair = [self.op(o, [x[0]]), self.op(o, [x[1]])]
        self.second.add(id(pair[1]))
        return pair

    def main(self):
        return [op for op in self.c.circuit if id(op) not in self.second]

    def op(self, o, ps=None):
        """Creates one operation (in a context: it is appended)."""
        rng = self.rng
        cls = cls_of(o["g"])
        qs = [self.q[i] for i in o["q"]]
        ps = ps or [angle(a, rng) for a in o["p"]]
        arg = qs[0] if len(qs) == 1 and rng.random() < .5 else self.seq(qs)
        if issubclass(cls, ControlledOperation):
            nc = len(qs) - 1
            ctl = qs[0] if nc == 1 and rng.random() < .5 else qs[:nc]
            a = (ctl, rng.choice([qs[-1], [qs[-1]]])) if rng.random() < .6 else None
            pos = ([ps[0] if len(ps) == 1 and rng.random() < .5 else ps] if ps else [])
            op = cls(*pos, *a) if a else cls(*pos, qubits=self.seq(qs))
        elif ps:
            op = cls(ps[0] if len(ps) == 1 and rng.random() < .5 else ps, arg)
        else:
            op = cls(arg)
        if o["b"]:
            bs = [self.b[i] for i in o["b"]]
            op | (bs[0] if len(bs) == 1 and rng.random() < .5 else self.seq(bs))
        if o["c"]:
            cs = [self.b[i] for i in o["c"]]
            op.conditional(cs[0] if len(cs) == 1 and rng.random() < .5 else self.seq(cs))
        self.log.append((op, o))
        self.seq.over()
        return op

    def bits(self):
        return [2 if b.value is None else b.value if type(b.value) is int else -1 for b in self.b]

    def prog(self):
        """The program as it is in the circuit now, in terms of the operations that were given."""
        out = []
        for op in self.c.circuit:
            rec = next((o for p, o in self.log if p is op), None)
            if rec is None:
                return "unknown operation"
            if [self.q.index(x) for x in op.qubits] != rec["q"] or type(op) is not cls_of(rec["g"]):
                return "changed operation"
            if id(op) not in self.second:
                out.append(rec)
        return out

    def run(self, h, le=False, mixed=False, seed=None, rho=False, any_=False):
        """A program that is simulated once; or the events of h."""
        self.log = []
        self.second = set()
        self.turns = self.split and not any(e["op"] in ("append", "remove", "reparam") for e in h.get("ev") or [])
        self.states = {}
        ev = []
        res, e = call(self.make, h)
        if res == "err":
            raise e
        self.c.unlock()
        self.digs = {}
        self.held = []
        todo = h.get("ev") or [{"op": "simulate", "seed": self.rng.randrange(10 ** 6) if seed is None else seed}]
        for e in todo:
            e = dict(e)
            k = e["op"]
            if k == "simulate":
                # (a callable decides anew for every run)
                e.update({k: v(self.rng) if callable(v) else v for k, v in
                          (("le", le), ("mixed", mixed), ("rho", rho))}, any=any_)
                e["obs"] = self.simulate(e, len(ev) + 1)
            elif k == "append":
                op = next((p for p, o in self.log if o == e["o"] and all(q in self.q for q in p.qubits)), None)
                if op is None:      # (its parameters have been changed, or it was on the qubits before rebuilding)
                    with self.c.context, self.c.context.freeze:
                        op = self.op(e["o"])
                    self.c.unlock()
                    self.log.pop()
                self.c.append(op())
                new = self.c.circuit[-1]
                if e["o"]["b"]:
                    new | [self.b[i] for i in e["o"]["b"]]
                if e["o"]["c"]:
                    new.conditional([self.b[i] for i in e["o"]["c"]])
                self.log.append((new, e["o"]))
            elif k == "remove":
                op = self.main()[e["i"] - 1]
                if any(op == x for x in self.main()[:e["i"] - 1]):
                    break
                self.c.remove(op)
            elif k == "rebuild":
                self.rebuild()
            elif k == "reparam":
                op = self.main()[e["i"] - 1]
                op.parameters[:] = [angle(a, self.rng) for a in e["p"]]
                self.log = [(x, dict(o, p=e["p"]) if x is op else o) for x, o in self.log]
            elif k == "set_bit":
                if e["v"] == 2:
                    self.b[e["i"]].reset()
                else:
                    self.b[e["i"]].set(e["v"], force=True)
            elif k == "set_state":
                self.garbage()
            elif k == "sample":
                e["obs"] = self.sample(e)
            ev.append(e)
        return {"n": h["n"], "bits": h["bits"], "ops": h["ops"], "ev": ev}

    def rebuild(self):
        old = [(op, next(o for p, o in self.log if p is op)) for op in self.c.circuit]
        if self.rng.random() < .3:
            self.c = copy.deepcopy(self.c)
            self.q, self.b = list(self.c.qubits), list(self.c.bits)
            new = list(self.c.circuit)
            self.log += [(op, rec) for op, (_, rec) in zip(new, old)]
        else:
            self.make({"n": self.n, "bits": self.bits(), "ops": []})
            new = [self.op(rec, list(getattr(op, "parameters", []))) for op, rec in old]
            self.c.unlock()
            self.c.extend(new)
        self.second |= {id(x) for x, (op, _) in zip(new, old) if id(op) in self.second}
        self.c.unlock()

    def garbage(self):
        g = np.random.default_rng(self.rng.randrange(10 ** 6))
        v = g.normal(size=1 << self.n) + 1j * g.normal(size=1 << self.n)
        v /= np.linalg.norm(v)
        if self.rng.random() < .3:
            v = np.outer(v, v.conj())
        self.c.set_state(v, force=True)
        if self.rng.random() < .5:
            self.c.density_matrix   # noqa: B018  reading it has no effect on later runs

    def simulate(self, e, l):
        locked = self.c.is_locked()
        np0 = (self.c.num_qubits, self.c.num_bits, [q.label for q in self.c.qubits])
        pars = [list(getattr(o, "parameters", [])) for o in self.c.circuit]
        kw = {}
        if e["mixed"]:
            kw["mixed_state"] = True
        if e["le"]:
            kw["little_endian"] = True
        self.hold()
        also = self.also(e)
        res, x = elsewhere(self.rng, simulate, self.c, rng_seed=e["seed"], **kw)
        if res == "err":
            return {"res": "err:" + repr(x), "bits": self.bits(), "dig": 0, "prog": []}
        if any(not np.array_equal(a, b) for a, b in self.held):
            return {"res": "changed the states of earlier runs", "bits": self.bits(), "dig": 0, "prog": []}
        s = {"bits": self.bits(), "le": e["le"], "mixed": e["mixed"]}
        if e["mixed"]:
            s["state"] = "readable" if call(lambda: self.c.state)[0] == "ok" else None
        else:
            s["state"] = np.array(self.c.state)
        s["kept"] = [None if not isinstance(o, Measurement) or o.state is None else np.array(o.state)
                     for o in self.main()]
        if e["rho"]:
            s["rho"] = np.array(self.c.density_matrix)
        if also is not None and not e["le"] and not e["mixed"] and not close(also, s["state"]):
            return {"res": "the operations act differently in another circuit", "bits": self.bits(), "dig": 0, "prog": []}
        self.states[l] = s
        key = repr((s["bits"], None if s["state"] is None else (np.round(s["state"], 7) + 0).tobytes() if not isinstance(s["state"], str) else s["state"]))
        dig = self.digs.setdefault(key, len(self.digs))
        prog = self.prog()
        same = (self.c.num_qubits, self.c.num_bits, [q.label for q in self.c.qubits]) == np0
        same = same and self.c.is_locked() == locked
        same = same and pars == [list(getattr(o, "parameters", [])) for o in self.c.circuit]
        if isinstance(prog, str) or not same:
            return {"res": "changed the circuit", "bits": s["bits"], "dig": dig, "prog": []}
        return {"res": "ok", "bits": s["bits"], "dig": dig, "prog": prog}

    def also(self, e):
        """At times the operations are used in another circuit, which has the qubits in another order: its state,
        in the order of this one."""
        if self.rng.random() > .12 or self.n < 1 or any(isinstance(o, Measurement) for o in self.c.circuit):
            return None
        order = self.rng.sample(range(self.n), self.n)
        other = Circuit()
        for i in order:
            other.add_qubit(self.q[i])
        other.extend(self.c.circuit)
        simulate(other, rng_seed=e["seed"])
        return np.ascontiguousarray(other.state.reshape((2,) * self.n).transpose(np.argsort(order))).reshape(-1)

    def hold(self):
        """The arrays that earlier runs gave to the caller are the caller's: they stay as they are, and what is
        done to them is without effect on the next run."""
        for f in (lambda: self.c.state, *([lambda: self.c.density_matrix] if self.n < 9 else []), *(lambda m=m: m.state for m in self.c.circuit if isinstance(m, Measurement))):
            res, a = call(f)
            if res == "ok" and isinstance(a, np.ndarray) and not any(a is b for b, _ in self.held):
                self.held.append((a, a.copy()))
        if self.rng.random() < .3:
            slightly = self.rng.random() < .5
            for a, _ in self.held:
                call(a.__imul__, 1 + 1e-6) if slightly else call(a.fill, .5)
            self.held = [(a, a.copy()) for a, _ in self.held]

    def sample(self, e):
        m = self.main()[e["i"] - 1]
        num = self.rng.choice([1, 6])
        as_bits = self.rng.random() < .4
        args = {} if e["dflt"] else {"qubits": list(e["q"])}
        before = None if m.state is None else np.array(m.state)
        res, x = elsewhere(self.rng, m.sample, num_samples=num, as_bitstring=as_bits, **args)
        if res == "err":
            return {"res": "err:" + repr(x), "got": []}
        if not isinstance(x, list) or len(x) != num or any(type(s) is not (str if as_bits else list) for s in x):
            return {"res": "wrong shape", "got": []}
        if before is not None and not close(np.asarray(m.state), before):
            return {"res": "sampling changed the state", "got": []}
        return {"res": "ok", "got": [[int(y) if str(y) in ("0", "1") else 7 for y in s] for s in x]}


def validate(traces, module="SimTrace", chunk=2500, workers=6):
    """TLC judges the traces and prints the exact states.  Returns (accepted ids, reports) with
    reports[i][l] the possible states of trace i after event l."""
    acc, rep, st = set(), {}, [0, 0]
    for base in range(0, len(traces), chunk):
        fd, path = tempfile.mkstemp(suffix=".ndjson")
        with os.fdopen(fd, "w") as f:
            for t in traces[base:base + chunk]:
                f.write(json.dumps(t) + "\n")
        try:
            r = tlc.run(module, module, env={"TRACE_FILE": path}, workers=workers, heap="8g")
        finally:
            os.remove(path)
        acc |= {base + int(s) - 1 for s in r.lines("ACCEPT")}
        for s in r.lines("STATE"):
            tid, l, js = s.split(" ", 2)
            rep.setdefault(base + int(tid) - 1, {}).setdefault(int(l), []).append(json.loads(js))
        for s in r.lines("DIST"):
            tid, l, js = s.split(" ", 2)
            rep.setdefault(base + int(tid) - 1, {}).setdefault(("dist", int(l)), []).append(json.loads(js))
        st[0] += r.distinct
        st[1] += r.generated
    return acc, rep, st


def show(a):
    a = np.asarray(a)
    return np.round(a, 4).tolist() if a.size <= 64 else {str(i): str(np.round(a[tuple(i)], 4)) for i in np.argwhere(abs(a) > 1e-4)[:64]}


def explain(s, x, what, n=None):
    """Whether the observed states s are those of the report x; else what differs."""
    bad = []
    if "state" in what:
        if s["mixed"]:
            if s["state"] is not None:
                bad.append("a pure state is reported in mixed-state mode")
        elif not close(s["state"], vector(x["vec"], n)):
            bad.append(f"state {show(s['state'])} expected {show(vector(x['vec'], n))}")
    if "rho" in what and x["rho"]:
        r = matrix(x, n)
        if not close(s["rho"], r):
            bad.append(f"density matrix {show(s['rho'])} expected {show(r)}")
    if "latest" in what:    # (what measurements keep that were not executed in the latest run is left open)
        bad += [f"state kept with operation {i}" for i, (a, b) in enumerate(zip(s["kept"], x["kept"]))
                if b and (a is None or not close(a, vector(b, n)))]
    if "kept" in what:
        for i, (a, b) in enumerate(zip(s["kept"], x["kept"])):
            if b and not close(a, vector(b, n)):
                bad.append(f"state kept with operation {i}")
            elif not b and a is not None:
                bad.append(f"operation {i} keeps a state although it was not executed")
    return bad


def conform(c, histories, label, what=("state", "kept"), corrupt=4, module="SimTrace", **kw):
    """Simulates every history on the real code and has TLC judge it; the states are compared with
    the exact ones."""
    import random
    import time
    from core import Hang, in_code_under_test, limit
    traces, states = [], []
    t0 = time.time()
    for i, h in enumerate(histories):
        rng = random.Random(f"{c.pid}/{c.seed}/{label}/{i}")
        d = SimDriver(rng)
        try:
            with limit(30):
                t = d.run(h, **kw)
        except Hang:
            c.violate(f"{label}:hang", what="the code under test did not return", history=h)
            continue
        except Exception as e:  # noqa: BLE001
            if isinstance(e, (OSError, MemoryError)):
                raise
            if not in_code_under_test(e):
                c.troubles.append((label, traceback.format_exc()[-3000:], h))
                continue
            c.violate(f"{label}:exception", what="the code under test raised", exception=repr(e), history=h)
            continue
        traces.append(t)
        states.append(d.states)
    c.time(f"{label}:run", t0)
    t0 = time.time()
    acc, rep, st = validate(traces, module)
    c.time(f"{label}:validate", t0)
    c.states += st[0]
    c.transitions += st[1]
    nbad = 0
    compared = 0
    for i, t in enumerate(traces):
        if i not in acc:
            nbad += 1
            c.violate(label, what="no behaviour of the specification explains this history", trace=t,
                      reached=max(rep.get(i, {0: 0})), history={k: t[k] for k in ("n", "bits", "ops")},
                      events=t["ev"])
            continue
        ok = True
        for l, s in states[i].items():
            xs = [x for x in rep[i].get(l, [])]
            compared += 1
            why = [explain(s, x, what, t["n"]) for x in xs]
            if not any(w == [] for w in why):
                ok = False
                c.violate(label, what="the state differs from the exact one", why=why[:2], trace=t,
                          history={k: t[k] for k in ("n", "bits", "ops")}, events=t["ev"][:l])
                break
        nbad += not ok
    c.validated += len(traces) - nbad
    c.note(f"states_compared_{label}", compared)
    c.note(f"histories_{label}", len(traces))
    if traces:
        c.sample({"program": traces[len(traces) // 2]})
    # the comparison is live: a disturbed state is noticed
    if not nbad and traces:
        seen = 0
        for i in c.rng.sample(range(len(traces)), min(corrupt * 4, len(traces))):
            for l, s in states[i].items():
                s2 = dict(s)
                key = "rho" if s["mixed"] or "state" not in what else "state"
                if key not in s:
                    continue
                s2[key] = s[key] + 1e-6
                if all(explain(s2, x, what, traces[i]["n"]) for x in rep[i][l]):
                    seen += 1
        c.note(f"disturbed_states_noticed_{label}", seen)
        if not seen:
            raise RuntimeError("disturbed states were not noticed")
    return traces, states, rep


def programs(c, cfg, gen, **kw):
    """Programs from an exhaustive ("1") or random ("2") run of SimMC."""
    r = tlc.run(kw.pop("module", "WideMC" if cfg.startswith("Wide") else "SimMC"), cfg, env={"GEN": gen}, **kw)
    c.count_mc(r)
    return [t[0] for t in tlc.tests_of(r, maximal=False)]
