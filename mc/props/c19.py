"""Skill libraries: every table lookup, every library, every order of creating them."""
import importlib
import io
import contextlib
import itertools
import os
import pkgutil

from .. import adapt, golden
from ..engine import tick
from .base import *  # noqa: F401,F403
from . import base

ID = "C19"
prepare = lambda tier: base.prepare(ID)
PATCHES = ("6.55", "7.0", "7.01", "7.05", "7.1")


def latest(table, version):
    """own lookup: the value of the latest patch not newer than the version (compared as numbers)"""
    def key(v):
        a, _, b = str(v).partition(".")
        return int(a), float("0." + (b or "0"))
    ks = [k for k in table if key(k) <= key(version)]
    return table[max(ks, key=key)] if ks else None


def _specific():
    try:
        return importlib.import_module("ama_xiv_combat_sim.simulator.game_data.specific_skills").SpecificSkills
    except (ImportError, AttributeError):
        return None


def _lookup(rec, order):
    """all tables over the patch keys, in any key order, for every level, version and query history"""
    S = _specific()
    if S is None:
        return
    sets = [c for n in range(len(PATCHES) + 1) for c in itertools.combinations(PATCHES, n)]
    for a in sets:
        ta = {p: 100 + i for i, p in enumerate(sorted(a, key=order))}
        tick()
        for b in sets:
            tb = {p: 200 + i for i, p in enumerate(sorted(b, key=order))}
            o = S()
            o.add_skill_data("X", {90: {"potency": ta, "potency_no_combo": tb}, 100: {"potency": tb, "potency_no_pos": ta}})
            o.add_skill_data("Y", {90: {"potency": {"6.55": 5}}, 100: {"potency": {"6.55": 6}}})
            rec.histories += 1
            for lv, v in itertools.product((90, 100, 90), PATCHES):
                o.set_level(lv)
                o.set_version(v)
                for p, t in (("potency", ta), ("potency_no_combo", tb)) if lv == 90 else (("potency", tb), ("potency_no_pos", ta)):
                    want = latest(t, v)
                    got = o.get_skill_data("X", p)
                    rec.transitions += 1
                    if got != want:
                        rec.fail("%s of patch %s at level %d is %r, table %r" % (p, v, lv, got, t), dict(table=t, version=v))
                if o.get_potency("Y") != (5 if lv == 90 else 6):
                    rec.fail("another skill's value", dict(version=v, level=lv))
            rec.state((a, b))


def tables():
    S = _specific()
    out = []
    if S is None:
        return out
    import ama_xiv_combat_sim.simulator.game_data as gd
    root = os.path.dirname(gd.__file__)
    seen = set()
    for dirpath, _, files in sorted(os.walk(root)):
        for f in sorted(files):
            if f.endswith("_data.py") and not f.startswith("test"):
                rel = os.path.relpath(os.path.join(dirpath, f), os.path.dirname(os.path.dirname(os.path.dirname(root))))
                try:
                    m = importlib.import_module(rel[:-3].replace(os.sep, "."))
                except ImportError:
                    continue
                for n, o in vars(m).items():
                    if isinstance(o, S) and id(o) not in seen and isinstance(getattr(o, "skills", None), dict):
                        seen.add(id(o))
                        out.append((f + ":" + n, o))
    return out


def _tables(rec):
    """every entry of the shipped tables, for every version and level"""
    n = 0
    for name, o in tables():
        tick()
        for sk, levels in list(o.skills.items()):
            for lv, params in levels.items():
                for p, t in params.items():
                    for v in PATCHES:
                        o.set_level(lv)
                        o.set_version(v)
                        got, want = o.get_skill_data(sk, p), latest(t, v)
                        rec.transitions += 1
                        n += 1
                        if golden.norm(got) != golden.norm(want):
                            rec.fail("%s: %s %s of patch %s at level %d is %r instead of %r" % (name, sk, p, v, lv, got, want), dict(table=str(t)))
                        rec.state((name, sk, p, v, lv))
    rec.histories += 1
    rec.count(table_entries=n)


def create(v, lv):
    tick()
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        lib = adapt.create_skill_library(version=v, level=lv)
    return lib, buf.getvalue()


def strip(d):
    return {j: {k: t for k, t in x.items() if not golden.is_wait(k)} for j, x in d.items()}


def check(rec, lib, cfg, h, waits=False):
    want = golden.load()[cfg]
    tick()
    got = golden.dump(lib, waits=waits)
    if not waits:
        want = strip(want)
    rec.transitions += sum(map(len, got.values()))
    bad = golden.compare(got, want)
    if bad:
        rec.fail("library %s/%d: %s" % (cfg[0], cfg[1], bad), h)
    if lib.get_version() != cfg[0] or lib.get_level() != cfg[1]:
        rec.fail("library reports %r/%r" % (lib.get_version(), lib.get_level()), h)


def _order(rec, cfgs):
    """create in this order; at the end every library still has its contents"""
    h = ["%s/%d" % c for c in cfgs]
    rec.sample(h)
    rec.histories += 1
    libs = []
    for c in cfgs:
        lib, said = create(*c)
        if said:
            rec.fail("creating the library reports: %s" % said[:300], h)
        libs.append(lib)
    for lib, c in zip(libs, cfgs):
        check(rec, lib, c, h, len(cfgs) == 1)
    rec.state(tuple(h))


def _default(rec):
    lib = adapt.create_skill_library()
    rec.histories += 1
    check(rec, lib, (lib.get_version(), lib.get_level()), "create_skill_library()")
    for v in PATCHES:
        if (v, 90) in golden.load():
            check(rec, adapt.create_skill_library(v), (v, 90), "create_skill_library(%r)" % v)
    for c in CONFIGS:
        check(rec, adapt.create_skill_library(*c), c, "create_skill_library%r" % (c,))


def _used(rec, cfg, other):
    """simulating with a library, or with one of another version, alters neither"""
    a, _ = create(*cfg)
    b, _ = create(*other)
    for v, lv, lib in ((cfg[0], cfg[1], a), (other[0], other[1], b)):
        for job in jobs_of(lib):
            tick()
            s = make_stats(job, v, lv, weapon_delay=None)[0]
            rb = adapt.RotationBuilder(s, lib, enable_autos=True, fight_start_time=0)
            t = 0
            for n in adapt.library_skills(lib, job):
                if n.startswith("Wait ") or n.startswith("Automaton Queen") or n.startswith("LB"):
                    continue
                rb.add(t, n, targets="A, B")
                t += 3
            try:
                adapt.DamageBuilder(s, lib).get_damage_instances(rb.get_skill_timing())
            except Exception:  # noqa: BLE001 (C20 decides whether it may)
                rec.count(unfinished_simulations=1)
            rec.histories += 1
    check(rec, a, cfg, ["used", cfg, other])
    check(rec, b, other, ["used", cfg, other])


def _extended(rec, cfg, other):
    """a caller adds skills, a gauge, a combo breaker and a priority to one library; no other library gets them"""
    a, _ = create(*cfg)
    b, _ = create(*other)
    for job in jobs_of(a):
        a.set_current_job_class(job)
        a.add_skill(adapt.Skill(name="Custom Strike", is_GCD=True, timing_spec=adapt.TimingSpec(base_cast_time=0),
                                damage_spec=adapt.DamageSpec(potency=1)))
        a.add_resource("Custom Gauge", adapt.JobResourceSettings(max_value=3, skill_allowlist=("Custom Strike",)))
        a.add_combo_breaker(99, (98,))
        a.set_status_effect_priority(("Custom Strike",))
    c, _ = create(*cfg)
    rec.histories += 1
    h = ["extended", cfg, other]
    check(rec, b, other, h)
    check(rec, c, cfg, h)
    rec.state((cfg, other))


from ..world import make_stats  # noqa: E402


def units(tier):
    deep = tier == "thorough"
    golden.load()
    out = [Unit("lookup up", _lookup, lambda p: p), Unit("lookup down", _lookup, lambda p: -float(p)),
           Unit("tables", _tables), Unit("defaults", _default)]
    for c in CONFIGS:
        out.append(Unit("one %s/%d" % c, _order, [c]))
    pairs = list(itertools.product(CONFIGS, repeat=2))
    for i, p in enumerate(pairs):
        out.append(Unit("order %d" % i, _order, list(p)))
    for i, p in enumerate(pairs):
        if deep or p[0] == p[1] or i % 4 == 0:
            out.append(Unit("extended %d" % i, _extended, *p))
    if deep:
        for i, p in enumerate(itertools.product(CONFIGS, repeat=3)):
            out.append(Unit("order of three %d" % i, _order, list(p)))
    for i, c in enumerate(CONFIGS):
        for o in (CONFIGS if deep else (CONFIGS[i - 1],)):
            out.append(Unit("used %s/%d %s/%d" % (c + o), _used, c, o))
    return out


def bounds(tier):
    return dict(lookup="all pairs of tables over 5 patch keys (32 x 32) x levels x versions x 2 key orders",
                tables="every entry of every shipped table x 5 versions",
                libraries="all 9 supported (version, level) libraries, complete contents, also after callers have added to other libraries", orders="all sequences of %d creations" % (
                    3 if tier == "thorough" else 2))
