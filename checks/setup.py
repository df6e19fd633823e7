#!/usr/bin/env python3
"""Builds the monitors ahead of the checks; every check builds what it needs by itself all the same."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib  # noqa: E402
import props  # noqa: E402

ok = True
for crate in props.CRATES:
    try:
        lib.build(crate, env={"VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VERIF_TIER": "quick"})
    except (lib.Inconclusive, lib.Violation) as e:
        print(e)
        ok = False
for step in (lambda: props.build_sanitized("hsan", "ThreadSanitizer"), lambda: props.build_sanitized("hsan", "AddressSanitizer"), lambda: props.build_miri("hsan")):
    try:
        step()
    except (lib.Inconclusive, lib.Violation) as e:
        print(e)
        ok = False
sys.exit(0 if ok else 1)
