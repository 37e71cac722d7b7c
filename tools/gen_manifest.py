"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python -B -m mc.run"
ref = "explicit-state exploration of the real code: %s, each execution compared event by event with an independent reference model"
T = {
 "C01": ref % "all button sequences to a depth over feature worlds, speeds and haste",
 "C02": ref % "all presses over all cast/delay/follow-up/modifier combinations",
 "C03": ref % "all DoT application schedules on a boundary grid",
 "C04": ref % "all interleavings of snapshots, landings and expiries on a grid",
 "C05": ref % "all apply/expire/consume/query histories over an effect alphabet",
 "C06": ref % "all combo press sequences with gaps around 30 s",
 "C07": ref % "all gauge gain/cost/clear histories on a boundary grid",
 "C08": ref % "all cast/channel/haste/target-switch schedules around swings",
 "C09": ref % "all downtime windows on a boundary-hitting grid over feature rotations",
 "C10": ref % "all bounded rotations under all common shifts",
 "C11": "exploration of all call histories (add, settings, query) on one and two builders, compared with a fresh builder and the reference model",
 "C12": "exhaustive enumeration of condition families, conditions in force and spellings against own selection",
 "C13": "exhaustive enumeration of stat tiers, jobs, levels and damage types against the formulas in exact arithmetic",
 "C14": "exhaustive enumeration of the random source's answers (controlled source) against the reported distribution",
 "C15": "exhaustive enumeration of guaranteed/excluded/default over all sources, checked through the real pipeline",
 "C16": ref % "all target lists and per-target effect schedules",
 "C17": "exhaustive enumeration of parties, boss HP and random answers (controlled source) against own running totals",
 "C18": "exhaustive enumeration of import files and of all millisecond times, compared with typing the rows in",
 "C19": "exhaustive enumeration of library creations and their orders against the committed library contents, and of lookup tables",
 "C20": ref % "all skills, conditions, ordered pairs (thorough: triples) of every job, patch and level",
 "C21": ref % "all bounded histories around deaths",
 "C22": "exhaustive enumeration of rotations, cut-off times and intervals against sums recomputed from the model",
 "C23": "exhaustive enumeration of positional skills, bonus percents and conditions against own selection",
 "C24": "exhaustive enumeration of example rotations over patches and levels and of declarations, compared with typing them in and the reference model",
 "C25": "exhaustive enumeration of effect placements and of all library skills against own computation",
 "C26": "exhaustive enumeration of the random source's answers (controlled source) against the mean of the largest draw per trial",
}
N = ("Exhaustive within the bounds printed in the evidence file, on the real code imported from /repo (no sampling, no time cut-off). "
     "Trusted: the reference model in mc/ (written from the properties) and, where used, the committed library data in golden/. "
     "Beyond the bounds (longer rotations, other values) nothing is claimed.")
m = dict(version=1, setup_cmd="/opt/venv/bin/python -B -m mc.selftest", checks=[
    dict(property=p, quick_cmd="%s %s quick" % (PY, p), thorough_cmd="%s %s thorough" % (PY, p), evidence_file="evidence/%s.json" % p,
         technique=t, level="model_checking", level_note=N) for p, t in sorted(T.items())],
    not_applicable=[], notes="No hooks in /repo: the checks drive its public API. Commits in /repo are repairs of defects (known_findings.txt lists them).")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
