#!/usr/bin/env python3
"""Builds the harness once, which fills the Go build cache."""
import shutil
import tempfile

import run

tmp = tempfile.mkdtemp(prefix='verif-')
try:
    run.build(tmp)
    print('the harness builds')
finally:
    shutil.rmtree(tmp, ignore_errors=True)
