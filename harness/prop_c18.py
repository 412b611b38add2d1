"""C18: see circs.py."""
import circs


def run(c):
    circs.run(c, "18")
