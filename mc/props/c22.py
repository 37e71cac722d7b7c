"""Damage reports: every rotation, every cut-off, every interval."""
from .. import adapt, dmg, ref
from ..adapt import num
from ..engine import tick
from ..ref import Illegal, r9
from ..world import diff
from .base import *  # noqa: F401,F403
from . import base

from ama_xiv_combat_sim.rotation_analysis.rotation_analysis_utils import RotationAnalysisUtils as RAU

ID = "C22"
prepare = lambda tier: base.prepare(ID)


def skills():
    t = lambda d=0, c=0: dict(timing=dict(animation_lock=600, application_delay=d, base_cast_time=c), gcd=True)
    o = dict(timing=dict(animation_lock=301), gcd=False)
    return [
        dict(name="Hit", damage=C({"": dict(potency=100), "Big": dict(potency=300)}), **t()),
        dict(name="Late", damage=dict(potency=120, guaranteed_crit="YES"), **t(2501)),
        dict(name="Cast", damage=dict(potency=140), **t(600, 1999)),
        dict(name="Up", buff=dict(duration=9000, damage_mult=1.1, crit_rate_add=0.1), **o),
        dict(name="Vuln", debuff=dict(duration=5000, dh_rate_add=0.1), **o),
        dict(name="Twin", damage=dict(potency=30), **t(100), fups=(
            dict(skill=dict(name="echo", damage=dict(potency=33)), delay=777),
            dict(skill=dict(name="Hit", damage=dict(potency=11)), delay=1303, buffs=False, debuffs=False, primary_only=False))),
        dict(name="Dot", damage=dict(potency=10), **t(), fups=(
            dict(skill=dict(name="tick", damage=dict(potency=7, damage_class="PHYSICAL_DOT")), dot=7000),
            dict(skill=dict(name="ground", damage=dict(potency=6, damage_class="MAGICAL_DOT")), dot=4000, buffs=False, debuffs=False))),
        dict(name="Pet", damage=dict(potency=50, damage_class="PET"), **o),
    ]


def i_row(r):
    b, d = r.status_effects
    return (num(r.application_time), num(r.snapshot_time), r.skill_name, r9(r.potency), tuple(sorted(r.skill_modifier_condition)),
            adapt.i_effkey(b), adapt.i_effkey(d), r.target, getattr(r.damage_class, "name", r.damage_class))


def m_row(x):
    sp = ref.pick(x.skill.damage, x.mod.conds)
    return (num(x.t), num(x.snap), x.skill.name, r9(sp.potency), tuple(sorted(x.mod.conds)), x.buffs.key(), x.debuffs.key(), x.target, sp.damage_class)


def report(rec, w, settings, presses, intervals=(1, 2, 7), again=True):
    try:
        ev, pr, inst, out = w.r_run(settings, presses)
    except Illegal:
        rec.skipped += 1
        return
    if inst is None:
        rec.open += 1
        return
    h = dict(settings=settings, presses=presses)
    rec.sample(h)
    rec.histories += 1
    tick()
    rb = w.i_build(settings, presses)
    raw = adapt.DamageBuilder(w.stats, w.lib).get_damage_instances(rb.get_skill_timing())
    sim = adapt.DamageSimulator(w.stats, raw, 2)
    rep = sim.get_per_skill_damage(rb)
    bad = diff(sorted(map(i_row, rep), key=repr), sorted(map(m_row, out), key=repr), "report rows")
    if bad:
        rec.fail(bad, h)
    rec.transitions += len(rep)
    rec.state(tuple(map(repr, map(i_row, rep))))
    times = [float(r.application_time) for r in rep]
    if times != sorted(times):
        rec.fail("report is not in time order", h)
    exp = sim.get_expected_damage_per_damage_instance()
    if [float(r.expected_damage) for r in rep] != [float(x) for x in exp]:
        rec.fail("expected damage of the report is not that of the hits", h)
    # each row's expected damage is that of the hit with the same content
    if len(rep) <= 6:
        for r, x in zip(rep, sorted(raw, key=lambda y: y[0])):
            one = adapt.DamageSimulator(w.stats, [x], 1)
            if r.skill_name == x[1].name and not dmg.close(r.expected_damage, one.get_expected_damage()):
                rec.fail("expected damage of %s is %r, on its own %r" % (r.skill_name, r.expected_damage, one.get_expected_damage()), h)
    if again:
        if list(map(i_row, sim.get_per_skill_damage(rb))) != list(map(i_row, rep)):
            rec.fail("asking for the report again gives another one", h)
        plain = sim.get_per_skill_damage()
        if [i_row(r._replace(snapshot_time=0)) for r in plain] != [i_row(r._replace(snapshot_time=0)) for r in rep]:
            rec.fail("the report without the rotation lists other hits", h)
    sums(rec, rep, h, intervals)


def sums(rec, rep, h, intervals):
    snaps = sorted({int(r.snapshot_time) if r.snapshot_time == int(r.snapshot_time) else r.snapshot_time for r in rep})
    total = sum(float(r.expected_damage) for r in rep)

    def want(ms):
        return sum(float(r.expected_damage) for r in rep if r.snapshot_time <= ms)
    cuts = {c for s in snaps for c in (s - 1, s, s + 1)} | {0, -10 ** 6, 10 ** 7}
    for c in sorted(cuts):
        got = RAU.get_all_damage_snapshots_before_timestamp(rep, c / 1000)
        rec.transitions += 1
        if not dmg.close(got, want(c), 1e-9):
            rec.fail("damage snapshotted up to %s s is %r, should be %r" % (c / 1000, got, want(c)), h)
    if not snaps:
        return
    last = snaps[-1]
    for iv in intervals:
        r = RAU.get_dps_at_intervals(rep, iv)
        ts, ds = list(r["snapshot_time"]), list(r["total_snapshotted_damage"])
        wt = []
        k = 1
        while k * iv * 1000 < last:
            wt.append(k * iv * 1000)
            k += 1
        wt.append(last)
        rec.transitions += 1
        if len(ts) != len(wt) or any(abs(1000 * a - b) > 1e-6 for a, b in zip(ts, wt)):
            rec.fail("interval %d: times %r, should be %r" % (iv, ts, [x / 1000 for x in wt]), h)
        if len(ds) != len(ts) or any(
                abs(a - want(b)) > 0.005 + 1e-6 or abs(a - round(a, 2)) > 1e-9 for a, b in zip(ds, wt)):
            rec.fail("interval %d: sums %r, should be %r" % (iv, ds, [round(want(x), 2) for x in wt]), h)
        if ds != sorted(ds):
            rec.fail("interval %d: sums decrease: %r" % (iv, ds), h)
        if abs(ds[-1] - total) > 0.0051:
            rec.fail("interval %d: ends at %r, total is %r" % (iv, ds[-1], total), h)


def _tree(rec, w, o, first, gaps, depth, settings):
    for h in timed_histories(o, gaps, depth, [(0, first)]):
        for s in settings:
            report(rec, w, s, h)


def _seq(rec, w, o, first, depth, settings):
    for h in seq_histories(o, depth, [first]):
        for s in settings:
            report(rec, w, s, h)


def _cuts(rec, lo, hi):
    """every millisecond as the last snapshot and as a cut-off"""
    w = world([dict(name="A", damage=dict(potency=100), timing=dict(animation_lock=0), gcd=False)])
    rb = w.i_build(dict(fight_start=0), [(0, "A"), (lo, "A")])
    raw = adapt.DamageBuilder(w.stats, w.lib).get_damage_instances(rb.get_skill_timing())
    base_ = adapt.DamageSimulator(w.stats, raw, 1).get_per_skill_damage(rb)
    for ms in range(lo, hi):
        if ms % 500 == 0:
            tick()
        rep = [base_[0], base_[1]._replace(snapshot_time=ms, application_time=ms)]
        rec.histories += 1
        sums(rec, rep, dict(snapshots=(0, ms)), (1, 60) if ms % 37 == 0 else (60,))
    rec.state((lo, hi))


def _long(rec, w, n, step):
    """long fights: many events and late snapshots"""
    alpha = [("Late",), ("Hit",), ("Up",), ("Twin", None, None, "A, B"), ("Dot",), ("Pet",)]
    report(rec, w, dict(fight_start=0), [(step * i, alpha[i % 6][0] if i % 50 == 0 else "Late") + alpha[i % 6][1:] if i % 50 == 0 else (step * i, "Late")
                                         for i in range(n)], (60, 997), again=False)


def _early(rec, w, o, first):
    """hits before the pull"""
    for lead in (-12000, -3333, -1000, -1):
        for h in timed_histories(o, (333, 2001), 2, [(0, first)], start=lead):
            report(rec, w, dict(fight_start=0), h, again=False)


def _real(rec, v, lv, job):
    w = RealWorld(v, lv, job, flags=dict(base.FLAGS))
    ns = [n for n in w.names() if not n.startswith(("Wait ", "Automaton Queen", "LB"))]
    for k in range(0, len(ns), 6):
        report(rec, w, dict(autos=True), [(977 * i, n, None, None, "A, B" if i % 2 else None) for i, n in enumerate(ns[k:k + 6])], (1, 5))
        report(rec, w, dict(), [(None, n) for n in ns[k:k + 6]], (1, 5))


def units(tier):
    deep = tier == "thorough"
    w = world(skills())
    w.label = "reports"
    ns = [s["name"] for s in w.spec["skills"]]
    o = [(n,) for n in ns] + [("Hit", dict(cond="Big")), ("Hit", None, None, "A, B"), ("Twin", None, None, "A, B"), ("Vuln", None, None, "B")]
    st = [dict(), dict(autos=True), dict(fight_start=0)] + ([dict(snap_dots=0), dict(ignore_trailing=True, autos=True),
                                                            dict(downtime=((1, 3),))] if deep else [dict(snap_dots=0, ignore_trailing=True)])
    out = []
    for i, f in enumerate(o):
        out.append(Unit("timed %d" % i, _tree, w, o, f, (0, 333, 1001, 4004), 2, st))
        out.append(Unit("ordered %d" % i, _seq, w, o, f, 3 if deep else 2, st[:2]))
        core = [("Hit",), ("Late",), ("Dot",), ("Twin", None, None, "A, B"), ("Up",)]
        if deep or f in core:
            out.append(Unit("three %d" % i, _tree, w, o if deep else core, f, (333, 2001), 3, st[:2] if deep else st[:1]))
        out.append(Unit("early %d" % i, _early, w, o, f))
    for n, g in ((900, 1001), (60, 120011)) + (((4500, 997),) if not deep else ((4500, 997), (9000, 700))):
        out.append(Unit("long %d x %d" % (n, g), _long, w, n, g))
    step = 1000
    for lo in range(1, 60000 if deep else 12000, step):
        out.append(Unit("cuts %d" % lo, _cuts, lo, lo + step))
    for lo in (599500, 1199500):
        out.append(Unit("cuts %d" % lo, _cuts, lo, lo + step))
    for v, lv in CONFIGS if deep else (("7.1", 100), ("6.55", 90)):
        for job in jobs_of(real_library(v, lv)):
            out.append(Unit("real %s/%d %s" % (v, lv, job), _real, v, lv, job))
    return out


def bounds(tier):
    deep = tier == "thorough"
    return dict(rotations="all timed pairs over 12 presses x 4 gaps x %d settings, all ordered lists up to %d, triples" % (6 if deep else 4, 3 if deep else 2),
                cut_offs="1 ms before, at and after every snapshot; every millisecond up to %d s as last snapshot" % (60 if deep else 12),
                intervals="1, 2, 5, 7, 60, 997 s", long="up to %d presses, fights of 15 min to 2 h" % (9000 if deep else 4500),
                early="pairs of hits from 12 s before the pull", real="every skill of %s" % ("all libraries" if deep else "7.1/100 and 6.55/90"))
