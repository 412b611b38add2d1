"""C22: compiled QIR performs the circuit's operations on the right qubits and results."""
import qirs


def run(c):
    qirs.run(c, "QirMC", "QirSim22", (4000, 40000), (500, 6000))
