"""Binding between the model and the implementation under test (imported from /repo)."""
import contextlib
import io
import os
import sys
from math import inf

REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

from ama_xiv_combat_sim.simulator.calcs.damage_class import DamageClass            # noqa: E402
from ama_xiv_combat_sim.simulator.calcs.forced_crit_or_dh import ForcedCritOrDH    # noqa: E402
from ama_xiv_combat_sim.simulator.damage_simulator import DamageSimulator          # noqa: E402
from ama_xiv_combat_sim.simulator.skills.create_skill_library import create_skill_library  # noqa: E402
from ama_xiv_combat_sim.simulator.skills.skill import Skill                        # noqa: E402
from ama_xiv_combat_sim.simulator.skills.skill_library import SkillLibrary         # noqa: E402
from ama_xiv_combat_sim.simulator.skills.skill_modifier import SkillModifier       # noqa: E402
from ama_xiv_combat_sim.simulator.specs.channeling_spec import ChannelingSpec      # noqa: E402
from ama_xiv_combat_sim.simulator.specs.combo_spec import ComboSpec                # noqa: E402
from ama_xiv_combat_sim.simulator.specs.damage_spec import DamageSpec              # noqa: E402
from ama_xiv_combat_sim.simulator.specs.follow_up import FollowUp                  # noqa: E402
from ama_xiv_combat_sim.simulator.specs.job_resource_settings import JobResourceSettings  # noqa: E402
from ama_xiv_combat_sim.simulator.specs.job_resource_spec import JobResourceSpec   # noqa: E402
from ama_xiv_combat_sim.simulator.specs.status_effect_spec import StatusEffectSpec  # noqa: E402
from ama_xiv_combat_sim.simulator.specs.timing_spec import TimingSpec              # noqa: E402
from ama_xiv_combat_sim.simulator.stats import Stats                               # noqa: E402
from ama_xiv_combat_sim.simulator.timeline_builders.damage_builder import DamageBuilder    # noqa: E402
from ama_xiv_combat_sim.simulator.timeline_builders.rotation_builder import RotationBuilder  # noqa: E402

from . import ref  # noqa: E402
from .ref import canon, r9  # noqa: E402

_FORCE = {"DEFAULT": ForcedCritOrDH.DEFAULT, "YES": ForcedCritOrDH.FORCE_YES, "NO": ForcedCritOrDH.FORCE_NO}
_UNFORCE = {v: k for k, v in _FORCE.items()}
_CLS = {c.name: c for c in DamageClass}

# ---------------------------------------------------------------- neutral -> implementation


def _force(kw):
    kw = dict(kw)
    for k in ("guaranteed_crit", "guaranteed_dh"):
        if k in kw:
            kw[k] = _FORCE[kw[k]]
    return kw


def _alts(v, f, is_leaf):
    if v is None:
        return None
    if is_leaf(v):
        return f(v)
    return {k: (None if x is None else f(x)) for k, x in v.items()}


class C(dict):
    """marks a neutral value that depends on conditions: C({'cond': value, ...})"""


def i_effect(kw):
    return StatusEffectSpec(**_force(kw))


def i_damage(kw):
    kw = _force(kw)
    if "damage_class" in kw:
        kw["damage_class"] = _CLS[kw["damage_class"]]
    return DamageSpec(**kw)


def i_timing(kw):
    kw = dict(kw)
    kw.setdefault("base_cast_time", 0)
    return TimingSpec(**kw)


def i_skill(d):
    if "_impl" in d:                # an object of the code under test, to be compared with this description
        return d["_impl"]
    kw = {"name": d["name"]}

    def leaf(v):
        return not isinstance(v, C)

    for k, field, f in (("damage", "damage_spec", i_damage), ("timing", "timing_spec", i_timing),
                        ("buff", "buff_spec", i_effect), ("debuff", "debuff_spec", i_effect),
                        ("chan", "channeling_spec", lambda x: ChannelingSpec(**x))):
        if d.get(k) is not None:
            kw[field] = _alts(d[k], f, leaf)
    for k, field, f in (("res", "job_resource_spec", lambda x: tuple(JobResourceSpec(**r) for r in x)),
                        ("combo", "combo_spec", lambda x: tuple(ComboSpec(**r) for r in x)),
                        ("fups", "follow_up_skills", lambda x: tuple(i_fup(r) for r in x))):
        if d.get(k):
            kw[field] = _alts(d[k], f, leaf)
    for k, field in (("deny", "status_effect_denylist"), ("gcd", "is_GCD"),
                     ("ignored", "ignored_conditions_for_bonus_potency"),
                     ("res_snap", "job_resources_snapshot"), ("falloff", "aoe_dropoff"),
                     ("aoe", "has_aoe"), ("offcond", "off_class_default_condition")):
        if k in d:
            kw[field] = d[k]
    return Skill(**kw)


def i_fup(f):
    return FollowUp(skill=i_skill(f["skill"]), delay_after_parent_application=f.get("delay", 0),
                    snapshot_buffs_with_parent=f.get("buffs", True),
                    snapshot_debuffs_with_parent=f.get("debuffs", True),
                    dot_duration=f.get("dot"), primary_target_only=f.get("primary_only", True))


# ---------------------------------------------------------------- neutral -> model
def _ralts(v, f):
    if isinstance(v, C):
        return ref.Var({canon(k): (None if x is None else f(x)) for k, x in v.items()})
    return None if v is None else f(v)


def r_skill(d, flags=None):
    flags = flags or {}
    dmg = d.get("damage")
    fall = d.get("falloff")
    if fall is not None and dmg is not None:
        alts = dict(dmg) if isinstance(dmg, C) else {"": dmg}
        if isinstance(dmg, C) or flags.get("plain_falloff"):
            out = {}
            for k, sp in alts.items():
                out[canon(k)] = ref.damage(sp)
            for k, sp in alts.items():
                for n in range(2, 11):
                    kw = dict(sp)
                    kw["potency"] = float((1 - ref.frac(fall)) * ref.frac(sp["potency"]))
                    out[canon(k) | {"Target %d" % n}] = ref.damage(kw)
            dv = ref.Var(out)
        else:
            dv = ref.damage(dmg)
    else:
        dv = _ralts(dmg, ref.damage)
    return ref.Skill(
        name=d["name"], damage=dv, timing=_ralts(d.get("timing"), ref.timing),
        buff=_ralts(d.get("buff"), ref.effect), debuff=_ralts(d.get("debuff"), ref.effect),
        chan=_ralts(d.get("chan"), ref.channel),
        res=_ralts(d.get("res") or (), lambda x: tuple(ref.resource(r) for r in x)),
        combo=_ralts(d.get("combo") or (), lambda x: tuple(ref.combo(r) for r in x)),
        deny=tuple(d.get("deny", ())), gcd=d.get("gcd"), ignored=tuple(d.get("ignored", ())),
        res_snap=d.get("res_snap", True),
        fups=_ralts(d.get("fups") or (), lambda x: tuple(r_fup(r, flags) for r in x)),
        offcond=d.get("offcond", ""))


def r_fup(f, flags=None):
    return ref.FollowUp(r_skill(f["skill"], flags), f.get("delay", 0), f.get("buffs", True),
                        f.get("debuffs", True), f.get("dot"), f.get("primary_only", True))


# ---------------------------------------------------------------- implementation -> model
def _kw(o, names):
    d = {}
    for n in names:
        v = getattr(o, n)
        if isinstance(v, ForcedCritOrDH):
            v = _UNFORCE[v]
        elif isinstance(v, DamageClass):
            v = v.name
        d[n] = v
    return d


def f_effect(o):
    return None if o is None else ref.effect(_kw(o, ref._EFF_DEF))


def f_damage(o):
    return None if o is None else ref.damage(_kw(o, ref._DMG_DEF))


def _falts(v, f):
    if isinstance(v, dict):
        return ref.Var({frozenset(k): f(x) for k, x in v.items()})
    return f(v)


def f_skill(s, memo=None):
    """read an implementation skill into the model's skill record (data only)"""
    return ref.Skill(
        name=s.name, damage=_falts(s.damage_spec, f_damage),
        timing=_falts(s.timing_spec, lambda o: None if o is None else ref.timing(_kw(o, ref._TIM_DEF))),
        buff=_falts(s.buff_spec, f_effect), debuff=_falts(s.debuff_spec, f_effect),
        chan=_falts(s.channeling_spec, lambda o: None if o is None else ref.channel(_kw(o, ref._CHAN_DEF))),
        res=_falts(s.job_resource_spec, lambda o: tuple(ref.resource(_kw(x, ref._RES_DEF)) for x in o)),
        combo=_falts(s.combo_spec, lambda o: tuple(ref.combo(_kw(x, ref._COMBO_DEF)) for x in o)),
        deny=tuple(s.status_effect_denylist), gcd=s.is_GCD,
        ignored=tuple(s.ignored_conditions_for_bonus_potency), res_snap=s.job_resources_snapshot,
        fups=_falts(s.follow_up_skills, lambda o: tuple(
            ref.FollowUp(f_skill(x.skill), x.delay_after_parent_application, x.snapshot_buffs_with_parent,
                         x.snapshot_debuffs_with_parent, x.dot_duration, x.primary_target_only) for x in o)),
        offcond=s.off_class_default_condition)


def library_skills(lib, job):
    """all skills of a job, via the public listing"""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        lib.print_skill_names(job)
    return {n: lib.get_skill(n, job) for n in buf.getvalue().split("\n") if n}


class LazyRef(dict):
    """model skills of a job of a real library, read on demand"""

    def __init__(self, lib, job, mk=f_skill):
        super().__init__()
        self.lib, self.job, self.mk = lib, job, mk

    def __missing__(self, n):
        v = self[n] = self.mk(self.lib.get_skill(n, self.job))
        return v

    def get(self, n, default=None):
        if n in self:
            return self[n]
        return self[n] if self.lib.has_skill(n, self.job) else default


class LazyJobs(dict):
    def __init__(self, lib):
        super().__init__()
        self.lib = lib

    def __missing__(self, job):
        v = self[job] = LazyRef(self.lib, job)
        return v


def f_lib(lib, job):
    """model library of one job of a real library"""
    return ref.Lib(LazyRef(lib, job), lib.get_status_effect_priority(job),
                   {n: ref.settings(_kw(s, ref._SET_DEF)) for n, s in lib.get_all_resource_settings(job).items()},
                   lib.get_all_combo_breakers(job), LazyJobs(lib))


# ---------------------------------------------------------------- modifiers
def i_mod(m):
    """m: None or dict(cond=, crit=, dh=, force_combo=, no_cast=, no_delay=, bonus=)"""
    if m is None:
        return None
    return SkillModifier(with_condition=m.get("cond", ""), guaranteed_crit=_FORCE[m.get("crit", "DEFAULT")],
                         guaranteed_dh=_FORCE[m.get("dh", "DEFAULT")], force_combo=m.get("force_combo", False),
                         ignore_cast_times=m.get("no_cast", False),
                         ignore_application_delay=m.get("no_delay", False), bonus_percent=m.get("bonus"))


def r_mod(m):
    return None if m is None else ref.Mod(**m)


# ---------------------------------------------------------------- implementation results, canonical
def num(x):
    """ms times: ints where whole"""
    if x is None:
        return None
    x = float(x)
    return int(x) if x == int(x) else round(x, 6)


def i_events(q):
    out = []
    for e in q.get_q():
        s = e.snapshot_status
        out.append((num(e.event_times.primary), num(e.event_times.secondary), e.skill.name,
                    tuple(sorted(e.skill_modifier.with_condition)), tuple(e.targets),
                    (s[0], s[1]), _UNFORCE[e.skill_modifier.guaranteed_crit],
                    _UNFORCE[e.skill_modifier.guaranteed_dh]))
    return sorted(out, key=repr)


def i_presses(rb):
    return sorted(((num(p[0]), p[1], p[2] or "", tuple(sorted(canon(p[3])))) for p in rb.get_button_press_timing()),
                  key=repr)


def i_effkey(s):
    return (r9(s.crit_rate_add), r9(s.dh_rate_add), r9(s.damage_mult), r9(s.main_stat_add), r9(s.main_stat_mult),
            r9(s.auto_attack_delay_mult), r9(s.haste_time_mult), s.flat_cast_time_reduction,
            s.flat_gcd_recast_time_reduction, _UNFORCE[s.guaranteed_crit], _UNFORCE[s.guaranteed_dh],
            tuple(sorted(s.status_effects)))


def i_instance(x):
    sp = x[1].get_damage_spec(x[2])
    return (num(x[0]), x[1].name, tuple(sorted(x[2].with_condition)), i_effkey(x[3][0]), i_effkey(x[3][1]), x[5],
            _UNFORCE[x[2].guaranteed_crit], _UNFORCE[x[2].guaranteed_dh], r9(sp.potency), sp.damage_class.name)


def i_instances(dmg):
    return sorted((i_instance(x) for x in dmg), key=repr)


@contextlib.contextmanager
def quiet():
    """the implementation prints warnings; keep check output clean"""
    old = sys.stdout
    sys.stdout = open(os.devnull, "w")
    try:
        yield
    finally:
        sys.stdout.close()
        sys.stdout = old
