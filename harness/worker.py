import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    pid = sys.argv[1]
    import core
    import tlc
    try:
        import dwave.gate
        tree = os.environ["PYTHONPATH"].split(":")[0]
        if not os.path.abspath(dwave.gate.__file__).startswith(os.path.abspath(tree)):
            print("machinery: not the private copy of the tree: " + dwave.gate.__file__, file=sys.stderr)
            return 2
        mod = importlib.import_module("prop_" + pid.lower())
        c = core.Check(pid)
        mod.run(c)
        return c.finish()
    except tlc.TlcError as e:
        print(f"machinery: {e}", file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
