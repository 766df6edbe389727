#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]

Decides one property against /repo's working tree.
"""

import os
import sys
import tempfile

PYTHON = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))


def reexec():
    """Run in the project's environment, from sources only (no stale bytecode)."""
    env = {
        k: v
        for k, v in os.environ.items()
        if not k.startswith("PYTHON") and k not in ("LC_ALL", "LANG")
    }
    env.update(
        VERIF_CHILD="1",
        PYTHONHASHSEED="0",
        PYTHONPATH=os.pathsep.join([REPO, os.path.join(HERE, "lib"), HERE]),
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPYCACHEPREFIX=tempfile.gettempdir() + "/verif-no-pycache",
        PYTHONWARNINGS="ignore",
        LANG="C.UTF-8",
        LC_ALL="C.UTF-8",
    )
    os.execve(PYTHON, [PYTHON, os.path.abspath(__file__), *sys.argv[1:]], env)


def main():
    args = sys.argv[1:]
    prop = args.pop(0)
    if prop == "--setup":
        # nothing to build: the checks run the sources of the working tree
        import refextract

        print("setup: refextract is imported from", refextract.__file__)
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = None
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--seed":
            seed = int(args.pop(0))
        elif a == "--replay":
            replay = args.pop(0)
        else:
            sys.exit("unknown argument " + a)
    import harness

    try:
        import refextract
    except Exception as exc:  # nothing can hold for code that cannot be loaded
        print(f"VIOLATION property={prop} replay=none (import failed: {exc!r})")
        return 1
    where = os.path.dirname(os.path.dirname(os.path.abspath(refextract.__file__)))
    if os.path.realpath(where) != os.path.realpath(REPO):
        sys.exit(f"refextract is imported from {where}, not from {REPO}")
    module = __import__("checks." + prop, fromlist=["x"])
    return harness.main(module, tier, seed, replay)


if __name__ == "__main__":
    if os.environ.get("VERIF_CHILD") != "1":
        reexec()
    sys.exit(main())
