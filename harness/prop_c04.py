"""C04: a conditional operation runs exactly when none of its condition bits is 0."""
import sims


def run(c):
    hs = sims.programs(c, "SimCond", "1", workers=8)
    c.note("programs_generated", len(hs))
    hs = [h for h in hs if any(o["c"] for o in h["ops"])]
    sims.conform(c, c.rng.sample(hs, c.pick(4000, 40000)), "programs")
    hs = sims.programs(c, "SimCondSim", "2", simulate=c.pick(1200, 10000), depth=22, seed=c.seed, workers=1)
    sims.conform(c, hs, "random")
    hs = sims.programs(c, "RunsSim", "2", module="RunsMC", simulate=c.pick(900, 8000), depth=100, seed=c.seed, workers=1)
    sims.conform(c, [h for h in hs if any(o["c"] for o in h["ops"])], "histories", what=("state",))
    # many qubits
    hs = sims.programs(c, "WideMeasureSim", "2", simulate=c.pick(350, 4000), depth=60, seed=c.seed + 1, workers=1)
    sims.conform(c, [h for h in hs if any(o["c"] for o in h["ops"])], "wide", module="WideTrace")
