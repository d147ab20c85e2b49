#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--seed N] [--budget S] [--replay FILE]

Exit status: 0 the property held on everything explored, 1 violation (a
VIOLATION line names the replay file), 2 the check could not be carried out."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, HERE)
import vp  # noqa: E402


def run():
    if len(sys.argv) < 2:
        print(__doc__)
        sys.exit(2)
    prop = sys.argv[1].upper()
    chk = vp.Check(prop, sys.argv[2:])
    mod = importlib.import_module('checks.' + prop.lower())
    if chk.args.replay:
        chk.replay(mod)
    mod.main(chk)


vp.main(run)
