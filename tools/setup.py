#!/usr/bin/env python3
"""Builds the instrumenter and fills Go's build cache."""
import os, shutil, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
import check  # noqa: E402

check.build_instrument()
done = set()
for pid, spec in check.PROPS.items():
    if spec.get("script"):
        continue
    key = (spec["pkg"], spec.get("race", False))
    if key in done:
        continue
    done.add(key)
    work = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        _, _, instrumented = check.build(work, spec)
        print(*key, "instrumented:", instrumented, flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)
