"""Builds a private copy of /repo's working tree, so that a check judges the current tree and
leaves /repo untouched.  The compiled extensions of /repo are reused only if they were built from
exactly the sources that are in the tree now (same fingerprint as /opt/vp/build.sh writes);
otherwise the generated sources and both extensions are rebuilt in the copy."""
import hashlib
import os
import shutil
import subprocess
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"


def _clean_env():
    env = {k: v for k, v in os.environ.items()
           if k not in ("PYTHONPATH", "CFLAGS", "CXXFLAGS", "LDFLAGS")}
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PIP_NO_INDEX="1",
               PYTHONPYCACHEPREFIX="/nonexistent")
    env["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + env.get("PATH", "")
    return env


def _sha(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def fingerprint(root):
    """Same content as the fingerprint of /opt/vp/build.sh, computed on a copy."""
    out = []
    out.append(subprocess.run([PY, "-V"], capture_output=True, text=True, env=_clean_env()).stdout)
    out.append(subprocess.run(["g++", "--version"], capture_output=True, text=True, env=_clean_env()).stdout)
    for f in ("setup.py", "setup.cfg", "pyproject.toml"):
        p = os.path.join(root, f)
        if os.path.isfile(p):
            out.append(f"{_sha(p)}  {f}\n")
    files = []
    for d, _, names in os.walk(os.path.join(root, "dwave")):
        for n in names:
            if n.endswith((".py", ".pyi", ".pyc")):
                continue
            full = os.path.join(d, n)
            if not os.path.isfile(full) or os.path.islink(full):
                continue
            files.append(os.path.relpath(full, root))
    for f in sorted(files, key=lambda s: s.encode()):
        stem, ext = os.path.splitext(f)
        if ext in (".cpp", ".c") and os.path.isfile(os.path.join(root, stem + ".pyx")):
            continue
        out.append(f"{_sha(os.path.join(root, f))}  {f}\n")
    p = os.path.join(root, "dwave/gate/__init__.py")
    out.append(f"{_sha(p)}  dwave/gate/__init__.py\n")
    return hashlib.sha256("".join(out).encode()).hexdigest()


class BuildError(Exception):
    pass


def build(dest):
    """Copies the working tree to dest (created) and makes it importable.  Returns whether the
    extensions were rebuilt."""
    os.makedirs(dest, exist_ok=True)
    ignore = shutil.ignore_patterns("__pycache__", "*.pyc", ".git", "*.egg-info")
    shutil.copytree(os.path.join(REPO, "dwave"), os.path.join(dest, "dwave"), ignore=ignore, symlinks=True)
    for f in ("setup.py", "setup.cfg", "pyproject.toml", "README.rst", "MANIFEST.in"):
        if os.path.isfile(os.path.join(REPO, f)):
            shutil.copy2(os.path.join(REPO, f), os.path.join(dest, f))
    env = _clean_env()
    sim = os.path.join(dest, "dwave/gate/simulator")
    for n in ("ops.h", "ops.pxd"):
        p = os.path.join(sim, n)
        if os.path.exists(p):
            os.remove(p)
    gen = subprocess.run([PY, "dwave/gate/simulator/operation_generation.py"], cwd=dest, env=env,
                         capture_output=True, text=True)
    if gen.returncode != 0:
        raise BuildError("operation_generation.py failed:\n" + gen.stderr[-2000:])
    stamp = os.path.join(REPO, "build", "vp-stamp")
    if os.path.isfile(stamp):
        want = open(stamp).read().split()[:1]
        sos = [f for d, _, n in os.walk(os.path.join(dest, "dwave")) for f in n if f.endswith(".so")]
        # the stamp was written when the extensions were part of the tree: they are compared too
        if want and len(sos) >= 2 and fingerprint(dest) == want[0]:
            return False
    # rebuild everything
    for d, _, n in os.walk(os.path.join(dest, "dwave")):
        for f in n:
            stem, ext = os.path.splitext(f)
            if ext == ".so" or (ext in (".c", ".cpp") and stem + ".pyx" in n):
                os.remove(os.path.join(d, f))
    r = subprocess.run([PY, "setup.py", "-q", "build_ext", "--inplace", "--force", "-j", "4"], cwd=dest,
                       env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("build_ext failed:\n" + (r.stdout + r.stderr)[-3000:])
    return True


if __name__ == "__main__":
    print(build(sys.argv[1]))
