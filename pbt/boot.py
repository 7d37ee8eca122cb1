"""Makes databind (from /repo's working tree) and hypothesis importable in one interpreter.

The repository's interpreter has databind's dependencies but no hypothesis; hypothesis is installed in another
virtual environment for the same Python version, whose site-packages is appended *behind* everything else, so it
can not shadow what databind imports."""

import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "databind", "src")
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup() -> None:
    sys.dont_write_bytecode = True
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    if TOOLS not in sys.path:
        sys.path.append(TOOLS)
    import logging

    logging.disable(logging.CRITICAL)
    import databind.core

    origin = os.path.realpath(databind.core.__file__)
    if not origin.startswith(os.path.realpath(SRC) + os.sep):
        raise SystemExit(f"databind was imported from {origin}, not from {SRC}")
