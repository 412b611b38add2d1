#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]

Builds a private copy of /repo's working tree, runs the check of one property against it and
removes the copy.  Exit 0: the property held on everything explored.  Exit 1 and a line
"VIOLATION property=<id> replay=<path>": it is broken.  Anything else: the machinery failed."""
import os
import shutil
import signal
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
import build  # noqa: E402
import core  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    work = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    try:
        try:
            rebuilt = build.build(os.path.join(work, "tree"))
        except build.BuildError as e:
            print(f"machinery: the tree does not build: {e}", file=sys.stderr)
            return 2
        env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        env.update(PYTHONPATH=os.path.join(work, "tree") + ":" + os.path.join(HERE, "harness"),
                   PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TMPDIR=work, VERIF_TIER=tier, VERIF_SEED=str(seed),
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", VERIF_REBUILT=str(int(rebuilt)))
        p = subprocess.run([build.PY, os.path.join(HERE, "harness", "worker.py"), pid], env=env, cwd=work)
        if p.returncode < 0 and -p.returncode in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE):
            # the code under test crashed the interpreter
            path = core.write_replay(pid, {"crash": signal.Signals(-p.returncode).name,
                                           "what": "the interpreter was killed while running the code under test"})
            core.write_evidence(pid, tier, seed, {"states": 0, "transitions": 0,
                                "traces_validated_against_impl": 0, "samples": ["interpreter crash"]}, 0.0)
            print(f"VIOLATION property={pid} replay={path}")
            return 1
        return p.returncode if p.returncode in (0, 1) else 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
