"""C05: density-matrix simulation and density matrices agree with the pure state."""
import numpy as np

import sims
import tlc
from core import call

from dwave.gate.circuit import Circuit
from dwave.gate.operations import X
from dwave.gate.operations.base import Measurement
from dwave.gate.simulator.simulator import simulate


def run(c):
    c.count_mc(tlc.model_check("Density", "Density", workers=8))
    hs = sims.programs(c, "SimGates1", "1")
    h2 = sims.programs(c, "SimGates2", "1") + sims.programs(c, "SimGates3", "1")
    hs += h2 if c.thorough else c.rng.sample(h2, 700)
    sims.conform(c, hs, "mixed", what=("state", "rho"), mixed=True, rho=True, le=lambda rng: rng.random() < .5)
    sims.conform(c, hs[::3], "pure", what=("rho",), rho=True, le=lambda rng: rng.random() < .5)
    hs = sims.programs(c, "SimMixSim", "2", simulate=c.pick(500, 5000), depth=24, seed=c.seed, workers=1)
    sims.conform(c, hs, "random_mixed", what=("state", "rho"), mixed=True, rho=True, le=lambda rng: rng.random() < .5)
    sims.conform(c, hs, "random_pure", what=("rho",), rho=True, le=lambda rng: rng.random() < .5)
    hs = sims.programs(c, "RunsMixSim", "2", module="RunsMC", simulate=c.pick(500, 5000), depth=100, seed=c.seed, workers=1)
    coin = lambda rng: rng.random() < .5    # noqa: E731
    sims.conform(c, hs, "histories", what=("state", "rho"), mixed=coin, rho=coin, le=coin)

    # many qubits
    hs = sims.programs(c, "WideMixSim", "2", simulate=c.pick(120, 1500), depth=60, seed=c.seed, workers=1)
    sims.conform(c, hs, "wide", what=("state", "rho"), mixed=coin, rho=True, le=coin, module="WideTrace")
    hs = sims.programs(c, "WideRunsMixSim", "2", simulate=c.pick(60, 800), depth=160, seed=c.seed, workers=1)
    sims.conform(c, hs, "wide_histories", what=("state", "rho"), mixed=coin, rho=coin, le=coin, module="WideTrace")

    # the recorded finding: a measurement in mixed-state mode
    circ = Circuit(1, 1)
    with circ.context as (q, b):
        X(q[0])
        Measurement(q[0]) | b[0]
    res, x = call(simulate, circ, mixed_state=True)
    if res == "err" or circ.bits[0].value != 1 or not np.allclose(circ.density_matrix, np.diag([0, 1])):
        c.violate("mixed-measure", what="simulate(mixed_state=True) of X, Measurement", result=repr(x))
