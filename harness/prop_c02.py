"""C02: measurements give possible outcomes, set the right bits and collapse the state."""
import sims


def run(c):
    hs = sims.programs(c, "SimMeas", "1", workers=8)
    if not c.thorough:
        hs = c.rng.sample(hs, 3500)
    sims.conform(c, hs, "programs")
    hs = sims.programs(c, "SimMeasSim", "2", simulate=c.pick(1200, 10000), depth=24, seed=c.seed, workers=1)
    sims.conform(c, hs, "random")
    # many qubits
    hs = sims.programs(c, "WideMeasureSim", "2", simulate=c.pick(350, 4000), depth=60, seed=c.seed, workers=1)
    sims.conform(c, hs, "wide", module="WideTrace")
