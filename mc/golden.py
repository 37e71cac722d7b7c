"""Canonical, complete contents of a skill library, and the committed contents every supported
library must have (golden/libraries.json.gz; made once by tools/make_golden.py, reviewed, and
never written by a check)."""
import gzip
import json
import os
from enum import Enum

from . import adapt, ref

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PATH = os.path.join(HERE, "golden", "libraries.json.gz")

EFFECT, DAMAGE, TIMING, RES, COMBO, CHAN, SETTINGS = (tuple(d) for d in (
    ref._EFF_DEF, ref._DMG_DEF, ref._TIM_DEF, ref._RES_DEF, ref._COMBO_DEF, ref._CHAN_DEF, ref._SET_DEF))
UNORDERED = ("skill_allowlist", "expires_status_effects", "combo_actions")
FUP = ("delay_after_parent_application", "snapshot_buffs_with_parent", "snapshot_debuffs_with_parent", "dot_duration", "primary_target_only")


def norm(v):
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, Enum):
        return v.name
    if isinstance(v, (int, float)) or type(v).__module__ == "numpy":
        f = float(v)
        if f in (float("inf"), float("-inf")):
            return "inf" if f > 0 else "-inf"
        return int(f) if f == int(f) else round(f, 9)
    if isinstance(v, (set, frozenset)):
        return sorted(norm(x) for x in v)
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    return repr(v)


def rec(o, fields):
    return {f: norm(sorted(getattr(o, f)) if f in UNORDERED and getattr(o, f) else getattr(o, f)) for f in fields}


def alts(v, f):
    if isinstance(v, dict):
        d = {"|".join(sorted(k)) if not isinstance(k, str) else k: f(x) for k, x in v.items()}
        return {"*": d[""]} if set(d) == {""} else d          # a lone default is the same as no choice
    return {"*": f(v)} if v is not None and v != () else None


def some(fields):
    return lambda o: None if o is None else rec(o, fields)


def fup(f):
    d = rec(f, FUP)
    d["skill"] = skill(f.skill)
    return d


BY_BEHAVIOUR = ("Death", "Weakness", "Brink of Death")      # decided by C21, however they are split into steps


def skill(s):
    if s.name in BY_BEHAVIOUR:
        return dict(name=s.name)
    d = dict(name=s.name, damage=alts(s.damage_spec, some(DAMAGE)), timing=alts(s.timing_spec, some(TIMING)),
             buff=alts(s.buff_spec, some(EFFECT)), debuff=alts(s.debuff_spec, some(EFFECT)), chan=alts(s.channeling_spec, some(CHAN)),
             res=alts(s.job_resource_spec, lambda o: [rec(x, RES) for x in o]), combo=alts(s.combo_spec, lambda o: [rec(x, COMBO) for x in o]),
             fups=alts(s.follow_up_skills, lambda o: [fup(x) for x in o]), deny=norm(sorted(s.status_effect_denylist)), gcd=s.is_GCD,
             ignored=norm(sorted(s.ignored_conditions_for_bonus_potency)), res_snap=s.job_resources_snapshot, offcond=s.off_class_default_condition,
             aoe=s.has_aoe)
    return {k: v for k, v in d.items() if v not in (None, [], {})}


def text(x):
    return json.dumps(x, sort_keys=True)


def dump(lib, jobs=None, waits=True):
    """{job: {item: text}} of a whole library"""
    out = {}
    for job in jobs or lib.get_jobs():
        d = {"skill " + n: text(skill(s)) for n, s in adapt.library_skills(lib, job).items()
             if waits or not n.startswith("Wait ")}
        d["priority"] = text(norm(lib.get_status_effect_priority(job)))
        for n, st in lib.get_all_resource_settings(job).items():
            d["gauge " + n] = text(rec(st, SETTINGS))
        for g, by in lib.get_all_combo_breakers(job).items():
            d["breaker %s" % (g,)] = text(norm(sorted(by)))
        out[job] = d
    return out


def compare(got, want):
    """None or the first difference"""
    if set(got) != set(want):
        return "jobs %s missing, %s extra" % (sorted(set(want) - set(got)), sorted(set(got) - set(want)))
    for j in want:
        if got[j] == want[j]:
            continue
        miss, extra = sorted(set(want[j]) - set(got[j])), sorted(set(got[j]) - set(want[j]))
        if miss:
            return "%s: %s missing" % (j, miss[:5])
        if extra:
            return "%s: %s not part of this version and level" % (j, extra[:5])
        for k in want[j]:
            if got[j][k] != want[j][k]:
                return "%s %s: holds %s" % (j, k, delta(json.loads(got[j][k]), json.loads(want[j][k])))
    return None


def delta(a, b, path=""):
    if type(a) is type(b) is dict:
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                return delta(a.get(k), b.get(k), path + "/" + k)
    if type(a) is type(b) is list and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return delta(x, y, path + "/%d" % i)
    return "%s = %s instead of %s" % (path, str(a)[:300], str(b)[:300])


def is_wait(k):
    return k.startswith("skill Wait ")


_MEMO = {}


def load():
    if not _MEMO:
        with gzip.open(PATH, "rt") as f:
            d = json.load(f)
        for cfg, jobs in d["libraries"].items():
            v, lv = cfg.split()
            _MEMO[v, int(lv)] = {j: dict({k: d["texts"][i] for k, i in items.items()}, **{
                "skill " + k: text(dict(d["wait"], name=k, timing={"*": dict(d["wait"]["timing"]["*"], animation_lock=i * 10)}))
                for i, k in enumerate(d["waits"])}) for j, items in jobs.items()}
    return _MEMO


def make():
    from .world import CONFIGS
    texts, index, libs = [], {}, {}
    waits = ["Wait %.2fs" % (i / 1000) for i in range(0, 10000, 10)]
    proto = None
    for v, lv in CONFIGS:
        out = {}
        for j, items in dump(adapt.create_skill_library(version=v, level=lv)).items():
            out[j] = {}
            for k, t in sorted(items.items()):
                if is_wait(k):
                    x = json.loads(t)
                    i = waits.index(x["name"])
                    assert x["timing"]["*"].pop("animation_lock") == 10 * i
                    x.pop("name")
                    assert proto in (None, x)
                    proto = x
                    continue
                if t not in index:
                    index[t] = len(texts)
                    texts.append(t)
                out[j][k] = index[t]
        libs["%s %d" % (v, lv)] = out
    raw = json.dumps(dict(libraries=libs, texts=texts, wait=proto, waits=waits), sort_keys=True).encode()
    with open(PATH, "wb") as f:
        f.write(gzip.compress(raw, 9, mtime=0))
    return len(raw), len(texts)
