"""C06: simulation runs are fresh, reproducible by seed and leave the program unchanged."""
import sims


def run(c):
    hs = sims.programs(c, "RunsMC", "1", module="RunsMC")
    if not c.thorough:
        hs = c.rng.sample(hs, 2000)
    sims.conform(c, hs, "histories", what=("state", "latest"))
    hs = sims.programs(c, "RunsSim", "2", module="RunsMC", simulate=c.pick(1200, 10000), depth=100, seed=c.seed, workers=1)
    sims.conform(c, hs, "random", what=("state", "latest"))
    # many qubits
    hs = sims.programs(c, "WideRunsSim", "2", simulate=c.pick(250, 3000), depth=160, seed=c.seed, workers=1)
    sims.conform(c, hs, "wide", what=("state", "latest"), module="WideTrace")
