"""The committed list of known findings (known_findings.txt): `finding: property=<id> key=<probe> <what fails>`.
Read only; `fixed:` lines are records and suppress nothing."""
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load():
    out = {}
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            if line.startswith("finding: "):
                _, prop, key, text = line.strip().split(" ", 3)
                out[prop.split("=", 1)[1], key.split("=", 1)[1]] = text
    return out
