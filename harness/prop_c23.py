"""C23: loading compiled QIR gives back the same circuit."""
import qirs


def run(c):
    qirs.run(c, "QirMC23", "QirSim23", (4000, 40000), (500, 6000))
