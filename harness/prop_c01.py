"""C01: state-vector simulation computes the circuit's unitary action on |0...0>."""
import sims


def run(c):
    hs = sims.programs(c, "SimGates1", "1")
    h2 = sims.programs(c, "SimGates2", "1") + sims.programs(c, "SimGates3", "1")
    hs += h2 if c.thorough else c.rng.sample(h2, 2500)
    for le in (False, True):
        sims.conform(c, hs if not le else hs[::2], f"programs_le{int(le)}", what=("state",), le=le)
    hs = sims.programs(c, "SimGatesSim", "2", simulate=c.pick(700, 8000), depth=28, seed=c.seed, workers=1)
    sims.conform(c, hs, "random", what=("state",), le=lambda rng: rng.random() < .4)
    # many qubits
    hs = sims.programs(c, "WideSim", "2", simulate=c.pick(250, 4000), depth=60, seed=c.seed, workers=1)
    for le in (False, True):
        # (measurements are big-endian only)
        part = [h for i, h in enumerate(hs) if (i % 2 and not any(o["g"] == "Measurement" for o in h["ops"])) == le]
        sims.conform(c, part, f"wide_le{int(le)}", what=("state",), le=le, module="WideTrace")
