"""Shared by the damage properties: instances on both sides, and the sampled/expected values of the code."""
import numpy as np

from . import adapt, ref, refdmg
from .adapt import DamageSimulator, Stats
from .refdmg import Fr

try:
    from ama_xiv_combat_sim.simulator.calcs.compute_damage_utils import ComputeDamageUtils as _CDU
except ImportError:
    _CDU = None

JOBS = tuple(refdmg.JOB_MOD)
CLASSES = ("DIRECT", "AUTO", "PET", "PHYSICAL_DOT", "MAGICAL_DOT")
BASE = {90: dict(wd=132, main_stat=3330, det_stat=1697, dh_stat=1582, crit_stat=2554, speed_stat=649, tenacity=751),
        100: dict(wd=146, main_stat=5127, det_stat=2271, dh_stat=1292, crit_stat=3140, speed_stat=474, tenacity=868)}
DELAYS = dict(PLD=2.24, WAR=3.36, DRK=2.96, GNB=2.80, DRG=2.80, RPR=3.20, MNK=2.56, SAM=2.64, NIN=2.56,
              VPR=2.64, BRD=3.04, MCH=2.64, DNC=3.12, BLM=3.28, SMN=3.12, RDM=3.44, PCT=2.96, WHM=3.44,
              SCH=3.12, AST=3.20, SGE=2.80)


def stats(job, version, level, **kw):
    """-> (implementation stats, the same numbers for the model)"""
    d = dict(BASE[level], num_roles_in_party=5, healer_or_caster_strength=214)
    d.update(kw)
    i = dict(d)
    if d.get("weapon_delay") is None:
        d["weapon_delay"] = DELAYS[job]
        i.pop("weapon_delay", None)
    st = dict(d, job=job, level=level)
    return Stats(job_class=job, version=version, level=level, **i), st


class OpenTie(Exception):
    pass


def pairs(w, settings, presses):
    """damage instances of one history as (implementation instance, model instance)"""
    ev, pr, inst, out = w.r_run(settings, presses)
    if inst is None:
        raise OpenTie("open tie order")
    _, _, raw, _ = w.i_run(settings, presses)
    a = sorted(((repr(adapt.i_instance(x)), x) for x in raw), key=lambda p: p[0])
    b = sorted(((repr(x.key()), x) for x in out), key=lambda p: p[0])
    if [k for k, _ in a] != [k for k, _ in b]:
        return None
    return [(x, y) for (_, x), (_, y) in zip(a, b)]


def spec(inst):
    return ref.pick(inst.skill.damage, inst.mod.conds)


def m_base(st, inst):
    return refdmg.base_damage(st, spec(inst), inst.mod, inst.buffs, inst.debuffs)


def m_rates(st, inst):
    return refdmg.rates(st, spec(inst), inst.mod, inst.buffs, inst.debuffs)


def m_trait(st, inst):
    o = spec(inst).trait_damage_mult_override
    return refdmg.trait(st["job"]) if o is None else ref.frac(o)


def m_mult(inst):
    return inst.buffs.dmg * inst.debuffs.dmg


def i_base(raw, s):
    """base damage computed by the code; None when it has no such function"""
    f = getattr(_CDU, "get_base_damage", None)
    return None if f is None else f(raw[1], raw[2], s, raw[3])


def i_sim(raws, s, n=1, **kw):
    return DamageSimulator(s, list(raws), n, **kw)


def close(x, y, tol=1e-9):
    return abs(float(x) - float(y)) <= tol * max(1.0, abs(float(y)))


def in_set(x, xs, tol=1e-9):
    return any(close(x, y, tol) for y in xs)


def outcome_ranges(st, inst):
    """model: {(crit, dh): (lows, highs, probability)}"""
    b, r = m_base(st, inst), m_rates(st, inst)
    dr, cr, bonus = r
    out = {}
    for c in (False, True):
        for d in (False, True):
            lo, hi = refdmg.hit_range(b, c, d, bonus, m_trait(st, inst), m_mult(inst))
            out[c, d] = (lo, hi, (cr if c else 1 - cr) * (dr if d else 1 - dr))
    return out


ORDER = ((False, False), (True, False), (False, True), (True, True))


def check_ranges(rec, sim, ps, st, history):
    """reported ranges, odds, means and variances of every instance"""
    ranges = sim.get_damage_ranges()
    means, var = sim.get_expected_damage_per_damage_instance(), sim.get_variance_per_damage_instance()
    order = sorted(range(len(ps)), key=lambda i: ps[i][0][0])      # the simulator sorts by time (stable)
    for k, i in enumerate(order):
        raw, inst = ps[i]
        want = outcome_ranges(st, inst)
        rec.count(checks=1)
        got = ranges[k]
        if got[0] != inst.skill.name:
            rec.fail("instance %d is reported as %r, is %r" % (k, got[0], inst.skill.name), history)
        m1 = m2 = 0.0
        for o, g in zip(ORDER, got[1:]):
            lo, hi, p = want[o]
            if not (in_set(g[1], lo) and in_set(g[2], hi)):
                rec.fail("%s: range of outcome crit=%s dh=%s is %s..%s, should be %s..%s" % (
                    inst.skill.name, o[0], o[1], g[1], g[2], sorted(map(float, lo)), sorted(map(float, hi))), history)
            if not close(g[3], p, 1e-9):
                rec.fail("%s: odds of outcome crit=%s dh=%s are %r, should be %s" % (inst.skill.name, o[0], o[1], g[3], float(p)), history)
            m1 += float(p) * (g[1] + g[2]) / 2
            m2 += float(p) * ((g[2] - g[1]) ** 2 / 12 + ((g[1] + g[2]) / 2) ** 2)
        if not close(means[k], m1, 1e-9):
            rec.fail("%s: expected damage %r, should be %r" % (inst.skill.name, means[k], m1), history)
        if abs(var[k] - (m2 - m1 * m1)) > 1e-6 * max(1.0, m2):
            rec.fail("%s: variance %r, should be %r" % (inst.skill.name, var[k], m2 - m1 * m1), history)
    if not close(sim.get_expected_damage(), sum(means), 1e-9):
        rec.fail("expected total %r is not the sum of the parts %r" % (sim.get_expected_damage(), sum(means)), history)
    if abs(sim.get_damage_variance() - sum(var)) > 1e-6 * max(1.0, float(sum(var))):
        rec.fail("total variance %r is not the sum of the parts" % sim.get_damage_variance(), history)
    return order


__all__ = [n for n in dir() if not n.startswith("_")]
