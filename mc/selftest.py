"""setup: nothing to build; make sure the interpreter and the committed data load (the code under test is imported by the checks)."""
import gzip
import json
import os

import numpy  # noqa: F401
import pandas  # noqa: F401

from . import known

with gzip.open(os.path.join(known.HERE, "golden", "libraries.json.gz"), "rt") as f:
    assert len(json.load(f)["libraries"]) == 9
assert known.load()
print("ready")
