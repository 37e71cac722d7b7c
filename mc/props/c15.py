"""Guaranteed and buffed critical/direct hits: all combinations of demands and rate additions."""
from .. import dmg, refdmg
from ..engine import tick
from ..ref import Illegal
from .base import *  # noqa: F401,F403
from . import base

ID = "C15"
prepare = lambda tier: base.prepare(ID)
F = ("DEFAULT", "YES", "NO")
ADDS = ((0, 0), (0.1, 0), (0, 0.2), (0.1, 0.2))


def short(x):
    return x[0]


def lib(cls, trait=None, **kw):
    """skills with every own demand; effects with every demand x additions; all pairwise"""
    sk = []
    for c in F:
        for d in F:
            sk.append(dict(name="X%s%s" % (short(c), short(d)),
                           damage=dict(potency=311, damage_class=cls, guaranteed_crit=c, guaranteed_dh=d), **OGCD))
            for i, (ca, da) in enumerate(ADDS):
                e = dict(duration=20000, guaranteed_crit=c, guaranteed_dh=d, crit_rate_add=ca, dh_rate_add=da)
                sk.append(dict(name="B%s%s%d" % (short(c), short(d), i), buff=dict(e, damage_mult=1.05), **OGCD))
                sk.append(dict(name="D%s%s%d" % (short(c), short(d), i), debuff=dict(e, damage_mult=1.03), **OGCD))
    sk += [dict(name="More", buff=dict(duration=20000, crit_rate_add=0.03, dh_rate_add=0.02, damage_mult=1.2), **OGCD),
           dict(name="DMore", debuff=dict(duration=20000, crit_rate_add=0.07, dh_rate_add=0.04, damage_mult=0.9), **OGCD),
           dict(name="Less", buff=dict(duration=20000, crit_rate_add=-0.031, dh_rate_add=-0.013), **OGCD),
           dict(name="DLess", debuff=dict(duration=20000, crit_rate_add=-0.017, dh_rate_add=-0.029), **OGCD),
           dict(name="Surge", buff=dict(duration=20000, crit_rate_add=0.27, dh_rate_add=0.26), **OGCD),
           dict(name="DSurge", debuff=dict(duration=20000, crit_rate_add=0.13, dh_rate_add=0.14), **OGCD),
           dict(name="Only", buff=dict(duration=20000, num_uses=1, guaranteed_crit="YES", skill_allowlist=("XDD",)), **OGCD),
           dict(name="Cast", damage=dict(potency=99, damage_class=cls), gcd=True,
                timing=dict(base_cast_time=2500, application_delay=700, animation_lock=100)),
           dict(name="Fu", gcd=False, timing=dict(animation_lock=600),
                fups=(dict(skill=dict(name="FuHit", damage=dict(potency=50, guaranteed_dh="YES")), delay=100),
                      dict(skill=dict(name="FuDot", damage=dict(potency=40, damage_class="PHYSICAL_DOT")), dot=7000)))]
    if trait:
        sk = [with_trait(x, trait) for x in sk]
        if trait == "gauge":
            kw["gauges"] = dict(Zz=dict(max_value=9))
    w = world(sk, **kw)
    w.label = "forced hits %s %s" % (cls, trait or "")
    return w


def judge(rec, w, h, s, st, settings=None):
    """rates, ranges (base damage with converted additions), multipliers - or rejection"""
    tick()
    settings = settings or dict(fight_start=0)
    try:
        out = w.r_run(settings, h)[3]
    except Illegal:
        rec.skipped += 1
        return
    rec.histories += 1
    rec.transitions += len(h)
    bad = [x for x in out if dmg.m_rates(st, x) is None]
    if bad:
        try:
            _, _, raw, _ = w.i_run(settings, h)
            dmg.i_sim(raw, s)
        except Exception:  # noqa: BLE001
            rec.count(rejected=1)
            return
        rec.fail("contradictory demands on %s accepted" % bad[0].skill.name, h)
    play(rec, w, settings, h)
    ps = dmg.pairs(w, settings, h)
    if ps is None:
        return
    ps.sort(key=lambda p: p[0][0])
    sim = dmg.i_sim([p[0] for p in ps], s)
    dmg.check_ranges(rec, sim, ps, st, h)
    import numpy as np
    cr, dr = (np.atleast_1d(x) for x in sim.get_crit_and_dh_rates())
    for i, (raw, inst) in enumerate(ps):
        d, c, _ = dmg.m_rates(st, inst)
        if not (dmg.close(cr[i], c) and dmg.close(dr[i], d)):
            rec.fail("%s: rates crit %r dh %r, should be %s and %s" % (inst.skill.name, cr[i], dr[i], float(c), float(d)), h)
        rec.state((inst.skill.name, float(c), float(d), str(h)))


def _combos(rec, cls, job, v, lv, i1, i2, mods, skills):
    w = lib(cls, job=job, version=v, level=lv)
    s, st = dmg.stats(job, v, lv)
    bs = [None] + ["B%s%s%d" % (short(c), short(d), i1) for c in F for d in F]
    ds = [None] + ["D%s%s%d" % (short(c), short(d), i2) for c in F for d in F]
    for x in skills:
        for m in mods:
            for b in bs:
                for d in ds:
                    h = [(0, e) for e in (b, d) if e] + [(1000, x, m)]
                    judge(rec, w, h, s, st)


def _stack(rec, cls, job, v, lv, deep):
    """several effects at once: additions add, multipliers multiply; lapsed or exhausted ones do not count"""
    w = lib(cls, job=job, version=v, level=lv)
    s, st = dmg.stats(job, v, lv)
    names = ["BDD3", "DDD3", "More", "DMore", "Less", "DLess", "BYD1", "DDY2", "BDN0", "DND0", "Only", "BDY3"]
    if cls in ("DIRECT", "MAGICAL_DOT"):
        names += ["Surge", "DSurge"]
    k = 4 if deep else 3
    for n in range(0, k + 1):
        for sub in itertools.combinations(names, n):
            for x in ("XDD", "XYD", "XDY", "Cast", "Fu"):
                h = [(10 * i, e) for i, e in enumerate(sub)] + [(1000, x), (1001, x)]
                judge(rec, w, h, s, st)
            h = [(0, e) for e in sub] + [(19000, "XYY"), (19000, "Cast"), (21000, "XYY")]
            judge(rec, w, h, s, st)


def _traits(rec, cls, job, v, lv, trait, mod):
    """the same demands whatever else a skill declares or a press carries"""
    w = lib(cls, trait, job=job, version=v, level=lv)
    s, st = dmg.stats(job, v, lv)
    names = ["BDD3", "DDD3", "More", "DLess", "BYD1", "DDY2", "BDN0", "Only"]
    for n in range(0, 3):
        for sub in itertools.combinations(names, n):
            for x in ("XDD", "XYD", "XDY", "XNN", "Cast", "Fu"):
                judge(rec, w, [(10 * i, e) for i, e in enumerate(sub)] + [(1000, x, mod), (1001, x, mod)], s, st)


MODS = [None] + [dict(crit=c, dh=d) for c in F for d in F]


def units(tier):
    deep = tier == "thorough"
    out = []
    xs = ["X%s%s" % (short(c), short(d)) for c in F for d in F]
    for a in range(4):
        for b in range(4):
            for x in xs:
                if not deep and (a + 2 * b + xs.index(x)) % 4:
                    continue
                for m in range(0, len(MODS), 2):
                    out.append(Unit("demands %s %d%d %d" % (x, a, b, m), _combos, "DIRECT", "SAM", "7.1", 100, a, b, MODS[m:m + 2], [x]))
    # critical and direct demands from all four sources, one adds setting
    if not deep:
        for x in xs:
            for m in range(0, len(MODS), 2):
                out.append(Unit("demands all %s %d" % (x, m), _combos, "DIRECT", "SAM", "7.1", 100, 3, 3, MODS[m:m + 2], [x]))
    for job, v, lv, cls in (("SAM", "7.1", 100, "DIRECT"), ("BLM", "6.55", 90, "MAGICAL_DOT")):
        for tr in TRAITS:
            out.append(Unit("trait %s %s" % (job, tr), _traits, cls, job, v, lv, tr, None))
        for i, m in enumerate(base.MODS):
            out.append(Unit("modifier %s %d" % (job, i), _traits, cls, job, v, lv, None, m))
    for job, v, lv in (("SAM", "7.1", 100), ("WAR", "7.0", 100), ("BLM", "6.55", 90), ("BRD", "7.1", 90)):
        for cls in dmg.CLASSES:
            out.append(Unit("stack %s %s" % (job, cls), _stack, cls, job, v, lv, deep))
            if deep:
                out.append(Unit("demands %s %s" % (job, cls), _combos, cls, job, v, lv, 3, 1, MODS[:3], xs[:4]))
    return out


def bounds(tier):
    deep = tier == "thorough"
    return dict(traits="2 jobs x all sets of up to 2 of 8 effects x 6 hits, with each of 12 irrelevant traits on every skill and each of 8 modifiers on every press", demands="skill x modifier x buff x debuff: all 9x10x10x10 combinations of critical/direct demands (none, force, exclude)%s" % (
                    " x 16 combinations of rate additions" if deep else "; rate additions 10%/20% on both (and a quarter of the 16 other combinations)"),
                stacks="all sets of up to %d of 14 effects (raising and lowering the rates) x 5 kinds of hits (instant, cast, follow-up, DoT) x 5 damage types x 4 jobs; lapsed and single-use "
                       "effects" % (4 if deep else 3))
