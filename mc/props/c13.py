"""Base damage = the published formulas: exhaustive stat sweeps and grids against exact arithmetic."""
from .. import dmg, refdmg
from ..engine import tick
from .base import *  # noqa: F401,F403
from . import base

ID = "C13"
prepare = lambda tier: base.prepare(ID)

EFFECTS = [
    dict(name="Mult", buff=dict(duration=60000, main_stat_mult=0.75), **OGCD),
    dict(name="Pot", buff=dict(duration=60000, main_stat_add=262), **OGCD),
    dict(name="Up", buff=dict(duration=60000, crit_rate_add=0.1, dh_rate_add=0.2, damage_mult=1.06), **OGCD),
    dict(name="DMult", debuff=dict(duration=60000, main_stat_mult=0.9), **OGCD),
    dict(name="DUp", debuff=dict(duration=60000, crit_rate_add=0.1, dh_rate_add=0.05, damage_mult=1.1, main_stat_add=30), **OGCD),
]
COMBOS = [(), ("Mult",), ("Pot",), ("Up",), ("DMult",), ("DUp",), ("Mult", "Pot"), ("Mult", "DMult", "Pot"), ("Up", "DUp"),
          ("Mult", "Pot", "Up", "DMult", "DUp")]
POT = (0.5, 1, 10, 50, 97, 100, 170, 333, 1000)
FORCE = (("DEFAULT", "DEFAULT"), ("YES", "DEFAULT"), ("DEFAULT", "YES"), ("YES", "YES"), ("NO", "NO"))


def lib(job, classes=dmg.CLASSES, pots=POT, force=FORCE, trait=None, **kw):
    sk = list(EFFECTS)
    for c in classes:
        for p in pots:
            for i, (fc, fd) in enumerate(force):
                d = dict(potency=p, damage_class=c, guaranteed_crit=fc, guaranteed_dh=fd)
                sk.append(dict(name="%s %s %d" % (c, p, i), damage=d, **OGCD))
        sk.append(dict(name="%s zero" % c, damage=dict(potency=0, damage_class=c), **OGCD))
        sk.append(dict(name="%s half" % c, damage=dict(potency=220, damage_class=c, single_damage_mult=0.5), **OGCD))
        sk.append(dict(name="%s third" % c, damage=dict(potency=355.5, damage_class=c, single_damage_mult=1.3), **OGCD))
        sk.append(dict(name="%s speck" % c, damage=dict(potency=3, damage_class=c, single_damage_mult=0.02), **OGCD))
    if "PET" in classes:
        for i, (o, s) in enumerate(((100, 1.0), (None, 0.88), (115, 1.0485), (100, 0.9), (105, 1.0))):
            sk.append(dict(name="pet %d" % i, damage=dict(potency=200, damage_class="PET", pet_job_mod_override=o, pet_scalar=s), **OGCD))
    if trait == "gauge":
        kw["gauges"] = dict(Zz=dict(max_value=9))
    w = world([with_trait(x, trait) for x in sk] if trait else sk, job=job, **kw)
    w.label = "formula library of " + job + (" with " + trait if trait else "")
    return w


def all_pairs(w, combos=COMBOS, mod=None):
    names = [s["name"] for s in w.spec["skills"] if s.get("damage")]
    out = []
    for c in combos:
        h = [(0, e) for e in c] + [(100 + i, n, mod) if mod else (100 + i, n) for i, n in enumerate(names)]
        ps = dmg.pairs(w, dict(fight_start=0), h)
        if ps is None:
            play(base_rec(), w, dict(fight_start=0), h)
            return None, h
        out.append(ps)
    return out, None


def base_rec():
    from ..engine import Rec
    return Rec()


def check_base(rec, ps, s, st, what, last=None):
    """exact base damage of every instance; with `last`, also monotone. Returns the values."""
    vals = []
    direct = True
    for raw, inst in ps:
        x = dmg.i_base(raw, s)
        if x is None:
            direct = False
            break
        vals.append(float(x))
    if not direct:
        sim = dmg.i_sim([p[0] for p in ps], s)
        order = dmg.check_ranges(rec, sim, ps, st, what)
        vals = [0.0] * len(ps)
        for k, r in enumerate(sim.get_damage_ranges()):
            vals[order[k]] = r[1][2]
    else:
        for x, (raw, inst) in zip(vals, ps):
            if dmg.refdmg.forced("crit", dmg.spec(inst), inst.mod, inst.buffs, inst.debuffs) == "CONTRADICTION":
                continue
            want = dmg.m_base(st, inst)
            if not dmg.in_set(x, want):
                rec.fail("base damage of %s (%s) is %r, should be %s" % (inst.skill.name, inst.buffs.names + inst.debuffs.names, x,
                                                                       sorted(map(float, want))), dict(what, stats=st))
    rec.count(checks=len(ps))
    rec.transitions += len(ps)
    rec.state((tuple(vals), str(st)))
    if last is not None:
        for x, y, (raw, inst) in zip(vals, last, ps):
            if x < y:
                rec.fail("%s: damage drops from %r to %r" % (inst.skill.name, y, x), dict(what, stats=st))
    return vals


GRIDS = [dict(), dict(num_roles_in_party=0), dict(num_roles_in_party=3), dict(wd=118, main_stat=2000, det_stat=1000, crit_stat=1000, dh_stat=500),
         dict(main_stat=4999, det_stat=3001, speed_stat=1501, tenacity=1200, weapon_delay=2.0), dict(weapon_delay=3.43, speed_stat=420),
         dict(healer_or_caster_strength=351, num_roles_in_party=4), dict(main_stat=5813, det_stat=420, crit_stat=420, dh_stat=420),
         dict(wd=1, main_stat=390, det_stat=440, crit_stat=420, dh_stat=420, speed_stat=400, tenacity=390), dict(wd=20, main_stat=390, det_stat=440, crit_stat=420, dh_stat=420)]


def _grid(rec, job, configs, grids, classes=dmg.CLASSES):
    w = lib(job)
    sets, h = all_pairs(w)
    if sets is None:
        rec.fail("damage instances differ from the model", h)
    for v, lv in configs:
        for g in grids:
            s, st = dmg.stats(job, v, lv, **g)
            for c, ps in zip(COMBOS, sets):
                tick()
                check_base(rec, ps, s, st, dict(job=job, version=v, effects=c))
            rec.histories += 1
        # the same through the simulator's report
        s, st = dmg.stats(job, v, lv)
        for ps in sets[::3]:
            sim = dmg.i_sim([p[0] for p in ps], s)
            dmg.check_ranges(rec, sim, ps, st, dict(job=job, version=v, level=lv))


def _traits(rec, job, trait, mod, configs):
    """the damage of a hit does not depend on anything but its potency, type and the effects on it: every skill again with a trait the
    formulas do not mention, or pressed with a modifier"""
    w = lib(job, pots=(10, 333), force=FORCE[:1] if mod else FORCE, trait=trait)
    combos = ((), ("Mult", "Pot"), ("Up", "DUp"))
    sets, h = all_pairs(w, combos, mod)
    if sets is None:
        rec.fail("damage instances differ from the model", h)
    for v, lv in configs:
        for g in (GRIDS[0], GRIDS[2], GRIDS[6]):
            s, st = dmg.stats(job, v, lv, **g)
            for c, ps in zip(combos, sets):
                tick()
                check_base(rec, ps, s, st, dict(job=job, version=v, effects=c, trait=trait, mod=str(mod)))
                if g is GRIDS[0]:
                    dmg.check_ranges(rec, dmg.i_sim([p[0] for p in ps], s), ps, st, dict(job=job, version=v, trait=trait, mod=str(mod)))
            rec.histories += 1


SWEEPS = (("main_stat", 500, 6500), ("wd", 60, 220), ("det_stat", 390, 4000), ("dh_stat", 420, 4000), ("crit_stat", 420, 4000),
          ("speed_stat", 300, 3200), ("tenacity", 300, 3000), ("healer_or_caster_strength", 100, 600))


def _sweep(rec, job, v, lv, stat, lo, hi, step, pots=(1, 97, 220, 1180)):
    """every value of one stat: exact and never decreasing"""
    w = lib(job, pots=pots, force=FORCE[:4])
    sets, h = all_pairs(w, [(), ("Pot", "Up")] if stat != "main_stat" else [(), ("Mult", "Pot", "DUp")])
    if sets is None:
        rec.fail("damage instances differ from the model", h)
    last = [None] * len(sets)
    for x in range(lo, hi, step):
        tick()
        s, st = dmg.stats(job, v, lv, **{stat: x})
        for i, ps in enumerate(sets):
            last[i] = check_base(rec, ps, s, st, dict(job=job, version=v, sweep=stat), last[i])
        rec.histories += 1


def _potency(rec, job, v, lv, cls, lo, hi):
    """every potency"""
    w = lib(job, classes=(cls,), pots=range(lo, hi), force=FORCE[:1])
    sets, h = all_pairs(w, [(), ("Mult", "Pot")])
    if sets is None:
        rec.fail("damage instances differ from the model", h)
    s, st = dmg.stats(job, v, lv)
    for ps in sets:
        tick()
        ps = sorted((p for p in ps if dmg.spec(p[1]).single_damage_mult == 1 and "pet" not in p[1].skill.name),
                    key=lambda p: dmg.spec(p[1]).potency)
        vals = check_base(rec, ps, s, st, dict(job=job, potency=(lo, hi)))
        if vals != sorted(vals):
            rec.fail("more potency, less damage", dict(job=job, cls=cls))
        rec.histories += 1


def _tiers(rec, job, v, lv, lo, hi):
    """rates, critical bonus at every stat value, as reported by the simulator"""
    w = world([dict(name="X", damage=dict(potency=7000), **OGCD)], job=job)
    ps = dmg.pairs(w, dict(fight_start=0), [(0, "X")])
    for x in range(lo, hi):
        tick()
        for kw in (dict(crit_stat=x, dh_stat=x),):
            s, st = dmg.stats(job, v, lv, **kw)
            sim = dmg.i_sim([p[0] for p in ps], s)
            dmg.check_ranges(rec, sim, ps, st, dict(job=job, version=v, stats=kw))
            cr, dr = sim.get_crit_and_dh_rates()
            dr_, cr_, _ = dmg.m_rates(st, ps[0][1])
            if not (dmg.close(cr, cr_, 1e-12) and dmg.close(dr, dr_, 1e-12)):
                rec.fail("rates %r/%r, should be %s/%s" % (cr, dr, float(cr_), float(dr_)), dict(stats=st))
            rec.histories += 1
            rec.transitions += 1
            rec.state((lv, x))


BASES = (1500, 2000, 2300, 2500, 2800, 3000, 3500, 4000, 12000)


def _times(rec, job, v, lv, lo, hi, step=1):
    """cast and recast lengths at every speed value, seen in the press times of an ordered list"""
    sk = [dict(name="R%d" % b, damage=dict(potency=1), gcd=True, timing=dict(gcd_base_recast_time=b, animation_lock=0)) for b in BASES]
    sk += [dict(name="K%d" % b, damage=dict(potency=1), gcd=True, timing=dict(base_cast_time=b, gcd_base_recast_time=10, animation_lock=0))
           for b in BASES]
    h = [(None, s["name"]) for s in sk] + [(None, "R2500")]
    for x in range(lo, hi, step):
        w = world(sk, job=job, version=v, level=lv, speed_stat=x)
        w.label = "speed %d" % x
        play(rec, w, dict(fight_start=0), h, ("presses", "events"))
        for v2, lv2 in OTHERS[(v, lv)]:     # the same speed at another level and in another patch, straight after
            if x % 3 == 0:
                w = world(sk, job=job, version=v2, level=lv2, speed_stat=x)
                w.label = "speed %d %s/%d" % (x, v2, lv2)
                play(rec, w, dict(fight_start=0), h, ("presses", "events"))


OTHERS = {("7.1", 100): (("7.1", 90), ("7.0", 100)), ("6.55", 90): (("7.0", 90),)}


def units(tier):
    deep = tier == "thorough"
    out = []
    cfgs = CONFIGS if deep else (("6.55", 90), ("7.0", 100), ("7.1", 90), ("7.1", 100))
    for j in dmg.JOBS:
        if deep:
            for cfg in cfgs:
                out.append(Unit("grid %s %s %s" % (j, cfg[0], cfg[1]), _grid, j, [cfg] if cfg[0] != "6.55" or j not in ("VPR", "PCT") else [], GRIDS))
        else:
            for i in range(0, len(cfgs)):
                cs = [c for c in cfgs[i:i + 1] if not (c[0] == "6.55" and j in ("VPR", "PCT"))]
                out.append(Unit("grid %s %d" % (j, i), _grid, j, cs, GRIDS[:4] if i else GRIDS[4:]))
    for j in ("SAM", "WAR", "WHM", "SMN", "BRD"):
        cs = [("7.1", 100), ("6.55", 90)]
        for tr in TRAITS:
            out.append(Unit("trait %s %s" % (j, tr), _traits, j, tr, None, cs))
        for i, m in enumerate(MODS):
            out.append(Unit("modifier %s %d" % (j, i), _traits, j, None, m, cs))
    reps = ("SAM", "WAR", "WHM", "BLM", "BRD") + (("NIN", "PLD", "SCH", "PCT", "MCH", "MNK", "DRG", "GNB", "DNC", "SMN") if deep else ())
    for j in reps:
        for v, lv in (("7.1", 100), ("6.55", 90)):
            for stat, lo, hi in SWEEPS:
                if stat == "tenacity" and j not in refdmg.TANKS or stat == "healer_or_caster_strength" and j not in refdmg.HEALERS + refdmg.CASTERS:
                    continue
                if v == "6.55" and j in ("VPR", "PCT"):
                    continue
                n = 6 if deep else 2
                step = 1 if deep else max(1, (hi - lo) // 120)
                chunk = (hi - lo) // n + 1
                for k in range(n):
                    out.append(Unit("sweep %s %s %s %d" % (j, lv, stat, k), _sweep, j, v, lv, stat, lo + k * chunk, min(hi, lo + (k + 1) * chunk), step,
                                    (1, 97, 220, 1180) if deep else (97, 1180)))
            for cls in dmg.CLASSES:
                if j in reps[:5]:
                    for lo in range(1, 1500 if deep else 300, 300):
                        out.append(Unit("potency %s %s %s %d" % (j, lv, cls, lo), _potency, j, v, lv, cls, lo, lo + 300))
    for v, lv in (("7.1", 100), ("6.55", 90)):
        for lo in range(400 if lv == 90 else 420, 4400, 200):
            out.append(Unit("tiers %d %d" % (lv, lo), _tiers, "SAM", v, lv, lo, lo + 200))
        for lo in range(300, 3300, 150):
            out.append(Unit("times %d %d" % (lv, lo), _times, "BLM", v, lv, lo, lo + 150, 1 if deep else 5))
    return out


def bounds(tier):
    deep = tier == "thorough"
    return dict(traits="5 roles x 2 levels x 3 stat sets x 3 effect sets, with each of 12 irrelevant traits on every skill and each of 8 modifiers on every press", grid="21 jobs x %s x stat sets x 5 damage types x 8 potencies x 5 forced-hit settings x 10 effect sets" % (
                    "9 configurations x 8" if deep else "4 configurations x 4"),
                sweeps="%d jobs x 2 levels x %s values of main stat, weapon damage, determination, direct hit, critical, speed, tenacity, strength "
                       "over the attainable range, exact and monotone" % ((15, "all") if deep else (5, "about 120")),
                potency="every potency 1..%d x 5 roles x 5 damage types" % (1500 if deep else 300),
                tiers="every critical and direct-hit value 400..4400, 2 levels",
                times="%s speed value 300..3300 x 18 base times" % ("every" if deep else "every 5th"),
                arithmetic="exact fractions; where a floor argument is within 1e-9 of an integer both neighbours are admitted")
