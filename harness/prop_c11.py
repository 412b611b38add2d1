"""C11: a register is an ordered collection of distinct items under any history."""
import tlc
from regs import RegDriver


def run(c):
    r = tlc.model_check("RegMC", "RegMC", env={"GEN": "1"})
    c.count_mc(r)
    tests = tlc.tests_of(r)
    c.note("mc_states", r.distinct)
    c.count_mc(tlc.model_check("RegMC", "RegMCDeep"))

    def driver(univ):
        def f(h, rng):
            # removal and relabelling (internal operations) compare items with integers: there, no
            # items that are equal to an integer without being one
            valued = not any(e["op"] in ("remove", "relabel") for e in h)
            return RegDriver(rng, valued).run(h, univ)
        return f

    if not c.thorough:
        tests = c.rng.sample(tests, min(len(tests), 9000))
    c.conform("RegTrace", tests, driver([1, 2, 1000, 1001]), label="transitions")
    r = tlc.run("RegMC", "RegSim", env={"GEN": "2"}, simulate=c.pick(600, 6000), depth=24, seed=c.seed, workers=1)
    c.count_mc(r)
    c.conform("RegTrace", tlc.tests_of(r), driver([1, 2, 3, 4, 5, 1000, 1001, 1002, 1003]), label="random")
