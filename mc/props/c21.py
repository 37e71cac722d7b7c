"""Death, weakness and brink of death: the library's skills against their own description, in every history."""
from .. import adapt, dmg
from ..engine import tick
from .base import *  # noqa: F401,F403
from . import base
from .c20 import names, stateful, chunk

ID = "C21"
prepare = lambda tier: base.prepare(ID)
DEATHS = ("Death", "Weakness", "Brink of Death")


def death(name, mult=None, impl=None):
    """what dying means, written from the property"""
    f = [dict(skill=dict(name=name, buff=dict(clear_all_status_effects=True))),
         dict(skill=dict(name=name, combo=(dict(break_all_combos_only=True),))),
         dict(skill=dict(name=name, res=(dict(clear_all_resources_only=True),)))]
    if mult is not None:
        f.append(dict(skill=dict(name=name, buff=dict(duration=100000, main_stat_mult=mult))))
    d = dict(name=name, gcd=False, timing=dict(base_cast_time=0, animation_lock=0, application_delay=0), fups=tuple(f))
    if impl is not None:
        d["_impl"] = impl
    return d


MULT = {"Death": None, "Weakness": 0.75, "Brink of Death": 0.5}


def skills(version, level, job):
    lib = real_library(version, level)
    t = lambda d=0, c=0: dict(timing=dict(animation_lock=600, application_delay=d, base_cast_time=c), gcd=True)
    o = dict(timing=dict(animation_lock=300), gcd=False)
    hit = C({"": dict(potency=100), "Tag": dict(potency=300)})
    return [
        dict(name="Hit", damage=hit, **t()),
        dict(name="Late", damage=hit, **t(1500)),
        dict(name="Cast", damage=hit, **t(600, 2000)),
        dict(name="Up", buff=dict(duration=150000, damage_mult=1.1), **o),
        dict(name="Aeon", buff=dict(duration=5000000, max_duration=5000000, dh_rate_add=0.07), **o),
        dict(name="Tag", buff=dict(duration=20000, add_to_skill_modifier_condition=True, num_uses=3, max_num_uses=3,
                                   skill_allowlist=("Hit", "Late", "Cast", "S2", "Dot")), **o),
        dict(name="Haste", buff=dict(duration=20000, haste_time_reduction=0.25, auto_attack_delay_reduction=0.25), **o),
        dict(name="Vuln", debuff=dict(duration=20000, crit_rate_add=0.1), **o),
        dict(name="Gain", res=(dict(name="G", change=10),), **o),
        dict(name="Gain2", damage=dict(potency=1), res=(dict(name="H", change=1, duration=30000),), **t(900)),
        dict(name="Spend", damage=C({"": dict(potency=20), "10 G": dict(potency=300), "20 G": dict(potency=600), "1 H": dict(potency=70),
                                     "10 G, 1 H": dict(potency=900)}), res=(dict(name="G", change=-10),), **t()),
        dict(name="S1", damage=dict(potency=30), combo=(dict(),), **t()),
        dict(name="S2", damage=C({"": dict(potency=400), "No Combo": dict(potency=40)}), combo=(dict(combo_actions=("S1",)),),
             buff=C({"": dict(duration=9000, crit_rate_add=0.2), "No Combo": None}), **t(300)),
        dict(name="R1", damage=dict(potency=30), combo=(dict(combo_group=1),), **t()),
        dict(name="R2", damage=C({"": dict(potency=500), "No Combo": dict(potency=50)}), combo=(dict(combo_actions=("R1",), combo_group=1),), **t()),
        dict(name="Dot", damage=dict(potency=10), **t(), fups=(
            dict(skill=dict(name="tick", damage=dict(potency=7, damage_class="PHYSICAL_DOT")), dot=8000),
            dict(skill=dict(name="ground", damage=dict(potency=6, damage_class="MAGICAL_DOT")), dot=8000, buffs=False, debuffs=False))),
    ] + [death(n, MULT[n], lib.get_skill(n, job)) for n in DEATHS]


GAUGES = dict(G=dict(max_value=100, skill_allowlist=("Spend",)), H=dict(max_value=3, skill_allowlist=("Spend",)))


def the_world(version="7.1", level=100, job="SAM"):
    w = world(skills(version, level, job), gauges=GAUGES, job=job)
    w.unseen = DEATHS
    w.label = "deaths of %s/%d %s" % (version, level, job)
    return w


def _timed3(rec, w, a, deaths, gaps, lasts):
    for d in deaths:
        for g1 in gaps:
            for g2 in gaps:
                for b in lasts:
                    h = [(0,) + a, (g1, d), (g1 + g2,) + b]
                    rec.sample(h)
                    play(rec, w, dict(fight_start=0), h)


def _two(rec, w, a, a2, gaps, lasts):
    """two preparations, death, observation"""
    for d in DEATHS:
        for g in gaps:
            for b in lasts:
                play(rec, w, dict(fight_start=0), [(0,) + a, (700,) + a2, (700 + g, d), (1400 + g,) + b])


def _lives(rec, w, gaps):
    """deaths after deaths, with a hit after each and around the end of the weakness"""
    for n in (1, 2, 3):
        for ds in itertools.product(DEATHS, repeat=n):
            for gs in itertools.product(gaps, repeat=n):
                t, h = 0, [(-50, "Up"), (-20, "Gain")]
                for d, g in zip(ds, gs):
                    h += [(t, "Hit"), (t + 10, d), (t + 20, "Hit")]
                    t += g
                for x in (-40, -11, -10, 10, 11, 20):
                    h.append((t + x, "Hit"))
                h.append((t + 30, "Spend"))
                h = [(a, *r) for a, *r in sorted(h, key=lambda p: p[0])]
                play(rec, w, dict(fight_start=0), h)


def _numbers(rec, version, level, job):
    """the weakened main stat reaches the damage: 75 and 50 percent, for 100 s"""
    w = the_world(version, level, job)
    s, st = dmg.stats(job, version, level)
    for ds in [(d,) for d in DEATHS] + list(itertools.product(DEATHS, repeat=2)):
        h = [(-2000, "Up"), (0, "Hit")]
        t = 0
        for d in ds:
            h += [(t + 1000, d), (t + 1500, "Hit"), (t + 99000, "Hit")]
            t += 50000
        h += [(t + 60000, "Hit"), (t + 200000, "Late")]
        h.sort(key=lambda p: p[0])
        ps = dmg.pairs(w, dict(fight_start=0), h)
        rec.histories += 1
        if ps is None:
            play(rec, w, dict(fight_start=0), h)
            rec.fail("damage instances differ from the model", h)
        tick()
        sim = dmg.i_sim([p[0] for p in ps], s, 2)
        dmg.check_ranges(rec, sim, ps, st, dict(history=h, job=job))
        rec.transitions += len(ps)
        rec.state((job, ds))


def real_world(v, lv, job):
    w = RealWorld(v, lv, job, flags=dict(base.FLAGS))
    w.unseen = DEATHS
    for n in DEATHS:
        w.r_lib.skills[n] = adapt.r_skill(death(n, MULT[n]))
    return w


def observing(w, n):
    """skills whose damage can show what is active"""
    return n not in DEATHS and not n.startswith(("LB", "Grade"))


def _real(rec, v, lv, job, firsts, lasts, deaths):
    w = real_world(v, lv, job)
    for a in firsts:
        for d in deaths:
            for b in lasts:
                rec.sample((v, lv, job, a, d, b))
                play(rec, w, dict(fight_start=0), [(0, a), (1900, d), (2600, b)])


def _real_short(rec, v, lv, job):
    """every skill, dead, the same skill again; and a whole rotation around a death"""
    w = real_world(v, lv, job)
    ns = [n for n in names(w) if observing(w, n)]
    for n in ns:
        for d in DEATHS:
            play(rec, w, dict(), [(None, n), (None, d), (None, n)])
            play(rec, w, dict(fight_start=0, autos=True), [(0, n), (300, d), (700, n), (3000, n)])
    for k, d in enumerate(DEATHS):
        xs = ns[k::3]
        xs = [n for n in xs if not n.startswith("Automaton Queen")]
        h = [(700 * i, n) for i, n in enumerate(xs)]
        half = len(h) // 2
        play(rec, w, dict(fight_start=0), h[:half] + [(700 * half - 300, d)] + h[half:])


def units(tier):
    deep = tier == "thorough"
    w = the_world()
    ns = [s["name"] for s in w.spec["skills"]]
    o = [(n,) for n in ns] + [("Hit", dict(cond="Tag")), ("Hit", None, None, "A, B"), ("S2", dict(force_combo=True))]
    out = seq_tree("seq", w, [dict()], o, 4 if deep else 3)
    out += long_tree("walk", w, o, gaps=(900, 2500, 41000), length=60, step=1 if deep else 4)
    seen = [("Hit",), ("Late",), ("Spend",), ("S2",), ("R2",)]
    for i, a in enumerate(o):
        out.append(Unit("after long %d" % i, _timed3, w, a, DEATHS, (700, 29500, 99000, 100500, 650000, 3700000), seen))
    gaps = (0, 1, 500, 1500, 1501, 3000) if deep else (0, 500, 1500)
    for i, a in enumerate(o):
        out.append(Unit("timed %d" % i, _timed3, w, a, DEATHS, gaps, o))
    prep = [("Up",), ("Tag",), ("Gain",), ("Gain2",), ("S1",), ("S2",), ("R1",), ("Vuln",), ("Haste",), ("Dot",), ("Weakness",)]
    obs = [("Hit",), ("Spend",), ("S2",), ("R2",), ("Late",)]
    for a in prep:
        for a2 in prep:
            out.append(Unit("two %s %s" % (a + a2), _two, w, a, a2, (0, 650, 900, 2500) if deep else (0, 900), obs))
    out.append(Unit("lives", _lives, w, (1000, 50000, 99990, 99999, 100000, 100001) if deep else (1000, 99990, 100000)))
    for j in dmg.JOBS if deep else ("SAM", "WHM", "WAR", "BRD", "BLM"):
        out.append(Unit("numbers " + j, _numbers, "7.1", 100, j))
    for v, lv in CONFIGS:
        for job in jobs_of(real_library(v, lv)):
            if deep or (v, lv) in (("7.1", 100), ("6.55", 90)):
                out.append(Unit("real %s/%d %s" % (v, lv, job), _real_short, v, lv, job))
            if (v, lv) == ("7.1", 100) or deep and (v, lv) == ("6.55", 90):
                rw = RealWorld(v, lv, job)
                xs = [n for n in names(rw) if observing(rw, n)]
                sf = [n for n in xs if stateful(rw, n)]
                if deep:
                    for i, c in enumerate(chunk(sf, 4)):
                        out.append(Unit("real pairs %s/%d %s %d" % (v, lv, job, i), _real, v, lv, job, c, xs, DEATHS))
                elif job in ("SAM", "NIN", "MNK", "RPR", "BRD", "WAR"):
                    ls = [n for n in sf][:12]
                    out.append(Unit("real pairs %s/%d %s" % (v, lv, job), _real, v, lv, job, sf, ls, DEATHS[:1]))
    return out


def bounds(tier):
    deep = tier == "thorough"
    return dict(synthetic="the library's three death skills with 16 further skills (buffs, uses, haste, debuff, two gauges, two combos, casts, delays, DoTs): "
                          "all ordered lists up to %d, all (skill, death, skill) x %d gap pairs, all (skill, skill, death, observation)" % (
                              4 if deep else 3, 36 if deep else 9),
                long=LONG % ("" if deep else "4th") + "; (skill, death, observation) over gaps up to an hour",
                deaths="all sequences of up to 3 deaths around the 100 s boundary",
                real="every skill before and after every death in %s; pairs (effect-leaving skill, death, skill) of %s" % (
                    "all libraries" if deep else "7.1/100 and 6.55/90", "7.1/100 and 6.55/90, all jobs" if deep else "six jobs"))
