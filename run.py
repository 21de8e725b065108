#!/usr/bin/env python3
"""Entry point of every check:  python3 run.py C01 [--tier quick|thorough] [--replay FILE]

Re-executes itself under the interpreter that has kiel's dependencies
(/opt/venv), with a fixed hash seed, and hands over to kv.engine.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("KV_REPO", "/repo")
VENV_PY = "/opt/venv/bin/python"
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def main():
    if os.environ.get("KV_BOOT") != "1":
        env = dict(os.environ)
        env["KV_BOOT"] = "1"
        env["PYTHONHASHSEED"] = "0"
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env.pop("PYTHONPATH", None)
        env.pop("PYTHONPYCACHEPREFIX", None)
        os.execve(VENV_PY, [VENV_PY, os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    sys.path.append(VT_SITE)
    # the tree under test goes first, and is never read from cached bytecode
    sys.path.insert(0, REPO)
    from kv import engine
    sys.exit(engine.main(sys.argv[1:], here=HERE, repo=REPO))


if __name__ == "__main__":
    main()
