#!/usr/bin/env python3
"""setup_cmd: compile everything once, so that a broken toolchain shows up here."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import mv


def main():
    mv.build("rel")
    mv.build_harness("mserve", ["mserve.c", "mserve_ext.c"], variant="rel")
    return 0


mv.main(main)
