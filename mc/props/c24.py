"""Example rotations: every one in every patch and level against its declaration typed in by hand; every small declaration."""
import importlib
import json
import os

from .. import adapt, dmg, ref
from ..engine import tick, HERE
from ..world import WEAPON_DELAYS, diff, model_stats
from .base import *  # noqa: F401,F403
from . import base

ID = "C24"
prepare = lambda tier: base.prepare(ID)
PKG = "ama_xiv_combat_sim.example_rotations."
STRENGTH = dict(SCH=351, WHM=214, SGE=234, AST=195, SMN=351, RDM=214, BLM=175, PCT=214)
NO_AUTOS = ("WHM", "SGE", "AST")
VERSIONS = ("6.55", "7.0", "7.01", "7.05", "7.1")
_DECL = {}


def declared():
    if not _DECL:
        with open(os.path.join(HERE, "golden", "rotations.json")) as f:
            _DECL.update(json.load(f))
    return _DECL


def number(v):
    a, _, b = v.partition(".")
    return int(a), float("0." + (b or "0"))


def valid(d, version):
    return number(d["start_version"]) <= number(version) and (d.get("end_version") is None or number(version) <= number(d["end_version"]))


def expected(version, level):
    return {k: lv[str(level)] for k, lv in declared().items() if str(level) in lv and valid(lv[str(level)], version)}


STAT = ("wd", "weapon_delay", "main_stat", "det_stat", "crit_stat", "dh_stat", "speed_stat", "tenacity", "healer_or_caster_strength",
        "job_class", "version", "level")


def want_stats(d, version, level):
    s = dict(d["stats"])
    j = s["job_class"]
    s.setdefault("weapon_delay", WEAPON_DELAYS[j])
    s.setdefault("tenacity", None)
    s.setdefault("healer_or_caster_strength", STRENGTH.get(j))
    return dict(s, version=version, level=level)


class Typed(RealWorld):
    """the player of a declared rotation"""

    def __init__(self, lib, d, version, level, flags):
        self.lib, self.flags, self.version, self.level = lib, flags, version, level
        s = want_stats(d, version, level)
        self.job = s["job_class"]
        self.r_lib = adapt.f_lib(self.lib, self.job)
        self.stats = adapt.Stats(**{k: v for k, v in s.items()})
        self.r_stats = model_stats(self.job, version, level, s["speed_stat"], s["weapon_delay"])
        self.dmg = dict(num_roles_in_party=5, job=self.job, **{k: v for k, v in s.items() if k not in ("job_class", "version")})


def presses(d):
    out = []
    for p in d.get("party_skills", ()):
        out.append((round(p[0] * 1000), p[1], p[3] if len(p) > 3 else None, p[2]))
    return out + [(None, n) for n in d["skills"]]


def settings(job):
    return dict(ignore_trailing=True, snap_dots=0, autos=job not in NO_AUTOS)


def same(rec, rb, w, st, ps, h, numbers=True):
    """the rotation is the one typed in by hand, on the code and in the model; it simulates end to end"""
    tick()
    rec.histories += 1
    q = rb.get_skill_timing()
    ev, pr = adapt.i_events(q), adapt.i_presses(rb)
    raw = adapt.DamageBuilder(rb.get_stats(), w.lib).get_damage_instances(q)
    inst = adapt.i_instances(raw)
    hand = w.i_run(st, ps)
    model = w.r_run(st, ps)
    rec.transitions += len(ev) + len(pr) + len(inst)
    rec.state((tuple(ev), tuple(inst)))
    bad = diff(pr, hand[1], "presses, compared with typing them in,") or diff(ev, hand[0], "events, compared with typing it in,") or \
        diff(inst, hand[3], "damage instances, compared with typing it in,") or diff(pr, model[1], "presses") or diff(ev, model[0], "events")
    if bad is None and model[2] is not None:
        bad = diff(inst, model[2], "damage instances")
    if bad:
        rec.fail(bad, h)
    if numbers and model[2] is not None:
        a = sorted(((repr(adapt.i_instance(x)), x) for x in raw), key=lambda p: p[0])
        b = sorted(((repr(x.key()), x) for x in model[3]), key=lambda p: p[0])
        pairs = [(x, y) for (_, x), (_, y) in zip(a, b)]
        sim = dmg.i_sim([p[0] for p in pairs], rb.get_stats(), 2)
        dmg.check_ranges(rec, sim, pairs, w.dmg, h)


def stats_of(rec, rb, d, version, level, h):
    s = rb.get_stats()
    for k, v in want_stats(d, version, level).items():
        if getattr(s, k) != v:
            rec.fail("%s of the player is %r, declared %r" % (k, getattr(s, k), v), h)
    if set(want_stats(d, version, level)) != set(STAT):
        raise AssertionError("declaration not understood")


def get(lib):
    return importlib.import_module(PKG + "get_example_rotations").get_example_rotations(lib)


def _config(rec, version, level, others):
    lib = real_library(version, level)
    res = get(lib)
    exp = expected(version, level)
    h0 = dict(version=version, level=level)
    rec.sample(h0)
    if set(res) != set(exp):
        rec.fail("offered rotations: %s missing, %s extra" % (sorted(set(exp) - set(res)), sorted(set(res) - set(exp))), h0)
    ws = {k: Typed(lib, d, version, level, dict(base.FLAGS)) for k, d in exp.items()}
    for k, d in exp.items():
        h = dict(h0, rotation=k)
        stats_of(rec, res[k], d, version, level, h)
        same(rec, res[k], ws[k], settings(ws[k].job), presses(d), h)
    # asking for another library's rotations alters none of these; asking again gives them again
    for o in others:
        get(real_library(*o))
        again = get(lib)
        if set(again) != set(exp):
            rec.fail("after asking for %r other rotations are offered" % (o,), h0)
        for k, d in exp.items():
            h = dict(h0, rotation=k, after=o)
            for rb in (res[k], again[k]):
                stats_of(rec, rb, d, version, level, h)
                same(rec, rb, ws[k], settings(ws[k].job), presses(d), h, numbers=False)


def _ranges(rec):
    """every validity declaration x every version and level"""
    S = importlib.import_module(PKG + "specific_rotations").SpecificRotations
    U = importlib.import_module(PKG + "example_rotation_utils").ExampleRotationUtils
    stats = dict(wd=132, main_stat=3360, det_stat=1697, crit_stat=2554, dh_stat=1582, speed_stat=400, job_class="WAR")
    starts, ends = VERSIONS, (None,) + VERSIONS
    decls = [None] + [dict(stats=stats, skills=("Heavy Swing",), start_version=a, **({} if e is None else dict(end_version=e)))
                      for a in starts for e in ends]
    for d90 in decls:
        for d100 in decls:
            o = S()
            o.add_rotation_data("R", {lv: d for lv, d in ((90, d90), (100, d100)) if d is not None})
            rec.histories += 1
            tick()
            for v in VERSIONS:
                for lv, d in ((90, d90), (100, d100)):
                    o.set_version(v)
                    o.set_level(lv)
                    want = d is not None and valid(d, v)
                    rec.transitions += 1
                    rec.state((d and (d["start_version"], d.get("end_version")), v))
                    h = dict(level_90=d90, level_100=d100, version=v, level=lv)
                    if bool(o.rotation_is_valid("R")) != want:
                        rec.fail("offered is %r" % (not want), h)
                    if not want:
                        class Never:
                            def __getattr__(self, n):
                                raise AssertionError
                        if U.get_example_rotation_with_rb("R", Never(), o) is not None:
                            rec.fail("a rotation is built where it is not valid", h)
    o = S()
    o.add_rotation_data("R", {90: decls[1]})
    try:
        o.add_rotation_data("R", {90: decls[2]})
    except AssertionError:
        return
    rec.fail("a second rotation of the same name replaces the first silently", None)


def _stats(rec, version, level):
    """every job x every choice of optional stats written down: written ones are taken, the rest default"""
    S = importlib.import_module(PKG + "specific_rotations").SpecificRotations
    need = dict(wd=132, main_stat=3360, det_stat=1697, crit_stat=2554, dh_stat=1582, speed_stat=400)
    opts = (("weapon_delay", (1.5, 3.36)), ("tenacity", (420, 700)), ("healer_or_caster_strength", (214, 100)))
    for job in sorted(WEAPON_DELAYS):
        tick()
        for vals in itertools.product(*[(None,) + v for _, v in opts]):
            d = dict(stats=dict(need, job_class=job, **{k: v for (k, _), v in zip(opts, vals) if v is not None}), skills=(), start_version="6.55")
            o = S()
            o.add_rotation_data("other", {level: dict(d, stats=dict(d["stats"], wd=1, weapon_delay=9.9))})
            o.add_rotation_data("R", {level: d})
            o.set_version(version)
            o.set_level(level)
            rec.histories += 1
            rec.transitions += 1
            rec.state((job, vals))
            got = o.get_stats("R")
            for k, v in want_stats(d, version, level).items():
                if getattr(got, k) != v:
                    rec.fail("%s of the player is %r, declared %r" % (k, getattr(got, k), v), d)


PARTY = [(0.5, "Chain Stratagem", "SCH"), (1.3, "Card", "AST"), (0.5, "Card", "AST", dict(cond="Small")),
         (2.01, "Radiant Finale", "BRD", dict(cond="2 Coda")), (1.3, "Double Standard Finish", "DNC"), (2.01, "Double Standard Finish", "DNC", dict(cond=""))]
OWN = ("Heavy Swing", "Maim", "Storm's Eye", "Inner Release", "Fell Cleave", "Wait 1.00s")


def _declarations(rec, own, parties, version, level):
    S = importlib.import_module(PKG + "specific_rotations").SpecificRotations
    U = importlib.import_module(PKG + "example_rotation_utils").ExampleRotationUtils
    stats = dict(wd=132, main_stat=3360, det_stat=1697, crit_stat=2554, dh_stat=1582, speed_stat=900, job_class="WAR", tenacity=700)
    lib = real_library(version, level)
    for o in own:
        for p in parties:
            d = dict(stats=stats, skills=o, start_version="6.55")
            if p:
                d["party_skills"] = tuple(x[:3] + ((adapt.i_mod(x[3]),) if len(x) > 3 else ()) for x in p)
            info = S()
            info.add_rotation_data("R", {level: d})
            info.set_version(version)
            info.set_level(level)
            h = dict(version=version, level=level, skills=o, party=p)
            rec.sample(h)
            key, rb = U.get_example_rotation(lib, "R", info)
            if key != "R":
                rec.fail("rotation is called %r" % (key,), h)
            w = Typed(lib, d, version, level, dict(base.FLAGS))
            stats_of(rec, rb, d, version, level, h)
            ps = [(round(x[0] * 1000), x[1], x[3] if len(x) > 3 else None, x[2]) for x in p] + [(None, n) for n in o]
            same(rec, rb, w, dict(ignore_trailing=True, snap_dots=0, autos=True), ps, h, numbers=False)


def units(tier):
    deep = tier == "thorough"
    out = [Unit("ranges", _ranges)] + [Unit("stats %s/%d" % c, _stats, *c) for c in CONFIGS]
    for i, c in enumerate(CONFIGS):
        out.append(Unit("shipped %s/%d" % c, _config, c[0], c[1], [o for o in CONFIGS if o != c] if deep else [CONFIGS[i - 1]]))
    parties = [p for n in range(4 if deep else 3) for p in itertools.product(PARTY, repeat=n)]
    for v, lv in (("7.1", 100), ("6.55", 90)) if not deep else CONFIGS:
        for n in range(1, 4):
            for a in OWN:
                own = [(a,) + r for r in itertools.product(OWN, repeat=n - 1)]
                if n == 3 and not deep:
                    own = own[::7]
                out.append(Unit("declared %s/%d %d %s" % (v, lv, n, a), _declarations, own, parties if n < 3 else parties[:6], v, lv))
    return out


def bounds(tier):
    deep = tier == "thorough"
    return dict(shipped="every example rotation x all 9 supported (patch, level); again after asking for %s" % ("each other library's" if deep else "another library's"),
                validity="all pairs of declarations (31 x 31) at two levels x 5 versions x 2 levels",
                stats="all jobs x 27 choices of written optional stats x all 9 (patch, level)",
                declarations="own lists up to length 3 of 6 skills x all party lists up to %d of 6" % (3 if deep else 2))
