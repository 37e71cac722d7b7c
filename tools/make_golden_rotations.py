"""Write golden/rotations.json: the example rotations as declared (run by hand, reviewed, committed; no check runs it)."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from mc import adapt  # noqa: E402
out = {}
for role, jobs in dict(tank="war pld gnb drk", healer="whm sge sch ast", ranged="brd dnc mch", caster="blm pct rdm smn",
                       melee="drg mnk nin rpr sam vpr").items():
    for j in jobs.split():
        m = importlib.import_module("ama_xiv_combat_sim.example_rotations.%s.%s_data" % (role, j))
        for k, levels in getattr(m, "all_%s_rotations" % j).rotations.items():
            assert k not in out
            for lv, d in levels.items():
                for p in d.get("party_skills", ()):
                    assert len(p) == 3
                for s in d["skills"]:
                    assert isinstance(s, str), s
            out[k] = levels
json.dump(out, open(os.path.join(HERE, "golden", "rotations.json"), "w"), indent=0, sort_keys=True)
print(len(out))
