"""python tools/make_golden.py: records the contents of every supported library (run by hand only)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import golden  # noqa: E402
print(golden.make())
