"""Multi-target skills: all target lists, all histories."""
from .. import adapt, dmg
from ..engine import tick
from .base import *  # noqa: F401,F403
from . import base

ID = "C16"
prepare = lambda tier: base.prepare(ID)
T10 = ["T%d" % i for i in range(1, 11)]


def skills(fall=0.6):
    t = lambda d=0, c=0: dict(timing=dict(animation_lock=600, application_delay=d, base_cast_time=c,
                                          affected_by_speed_stat=False), gcd=True)
    o = lambda d=0: dict(timing=dict(animation_lock=600, application_delay=d), gcd=False)
    f = dict(falloff=fall)
    return [
        dict(name="Cleave", damage=C({"": dict(potency=100), "Big": dict(potency=250), "Q": dict(potency=210), "Big, Q": dict(potency=290),
                                      "Q, Big, Wide": dict(potency=330)}), **dict(t(), **f)),
        dict(name="Late", damage=C({"": dict(potency=140)}), **dict(t(900), **f)),
        dict(name="Spell", damage=C({"": dict(potency=310)}), **dict(t(600, 2000), **f)),
        dict(name="Vuln", damage=C({"": dict(potency=90)}), debuff=dict(duration=4000, damage_mult=1.1), **dict(t(300), **f)),
        dict(name="Mark", debuff=dict(duration=3000, crit_rate_add=0.1, num_uses=2), **t(100)),
        dict(name="Tag", debuff=dict(duration=9000, add_to_skill_modifier_condition=True, skill_allowlist=("Tagged",)), **o()),
        dict(name="Tagged", damage=C({"": dict(potency=10), "Tag": dict(potency=500)}), **dict(t(200), **f)),
        dict(name="DotAll", damage=C({"": dict(potency=20)}), **dict(t(400), **f),
             fups=(dict(skill=dict(name="bleed", damage=dict(potency=7, damage_class="PHYSICAL_DOT")), dot=8000, primary_only=False),)),
        dict(name="DotOne", damage=dict(potency=20), **t(),
             fups=(dict(skill=dict(name="burn", damage=dict(potency=7, damage_class="MAGICAL_DOT")), dot=5000, buffs=False, debuffs=False),)),
        dict(name="Fu", **t(100), fups=(dict(skill=dict(name="splash", damage=C({"": dict(potency=80)}), falloff=0.5), delay=500, primary_only=False),
                                        dict(skill=dict(name="poke", damage=dict(potency=60)), delay=300),
                                        dict(skill=dict(name="curse", debuff=dict(duration=2000, dh_rate_add=0.3)), primary_only=False, delay=200,
                                             buffs=False, debuffs=False))),
        dict(name="Hype", damage=C({"": dict(potency=30)}), buff=dict(duration=5000, damage_mult=1.2, max_duration=10000), **dict(t(200), **f)),
        dict(name="Stack", damage=C({"": dict(potency=30)}), buff=dict(duration=9000, num_uses=1, max_num_uses=3, crit_rate_add=0.25,
                                                                      skill_allowlist=("Cleave", "Late")), **dict(t(), **f)),
        dict(name="Gain", damage=C({"": dict(potency=5)}), res=(dict(name="G", change=10),), **dict(t(), **f)),
        dict(name="GainL", damage=C({"": dict(potency=5)}), res=(dict(name="G", change=7),), **dict(t(800), **f)),
        dict(name="Spend", damage=C({"": dict(potency=20), "10 G": dict(potency=300), "20 G": dict(potency=600), "7 G": dict(potency=70)}),
             res=(dict(name="G", change=-10),), **dict(t(), **f)),
        dict(name="SpendL", damage=C({"": dict(potency=20), "10 G": dict(potency=300), "7 G": dict(potency=70)}), res_snap=False,
             res=(dict(name="G", change=-10),), **dict(t(500), **f)),
        dict(name="S1", damage=C({"": dict(potency=30)}), combo=(dict(),), **dict(t(), **f)),
        dict(name="S2", damage=C({"": dict(potency=400), "No Combo": dict(potency=40)}), combo=(dict(combo_actions=("S1",)),), **dict(t(300), **f)),
        dict(name="Own", damage=C({"": dict(potency=100), "Target 2": dict(potency=77), "Target 3": dict(potency=55)}), **t(100)),
        dict(name="Plain", damage=dict(potency=100), **t(100)),
        dict(name="End", damage=C({"": dict(potency=1)}), debuff=dict(duration=100, expires_status_effects=("Vuln", "Tag")), **dict(t(), **f)),
    ]


KW = dict(gauges={"G": dict(max_value=100, skill_allowlist=("Spend", "SpendL"))})
TG = (None, "A", "A, B", "B,A", "A, B, C")


def _hist(rec, w, options, gaps, depth, first, settings):
    for h in timed_histories(options, gaps, depth, [(0, first)]):
        for s in settings:
            rec.sample(h)
            play(rec, w, s, h)


def _seq(rec, w, options, depth, first):
    for h in seq_histories(options, depth, [first]):
        play(rec, w, dict(), h)


def _count(rec, w, name, mods):
    """1 to 10 targets, every order being the listed order; landing offsets; falloff; ranges of damage"""
    for k in range(1, 11):
        for lst in (T10[:k], T10[:k][::-1], [" %s " % x for x in T10[:k]]):
            for m in mods:
                for pre in ((), (("Vuln", "T2"),), (("Vuln", ",".join(T10[:k])), ("Mark", "T1,T3"))):
                    h = [(0, n, None, None, tg) for n, tg in pre] + [(1000, name, m, None, ",".join(lst)), (2600, "Plain", None, None, lst[-1].strip())]
                    play(rec, w, dict(fight_start=0), h)
                    play(rec, w, dict(), [(None,) + p[1:] for p in h])


def _order(rec, w, name):
    """one instance per target, in the listed order, 135 ms apart (seen on the code alone)"""
    for k in range(1, 11):
        for lst in (T10[:k], T10[:k][::-1]):
            tick()
            _, _, raw, _ = w.i_run(dict(fight_start=0), [(0, name, None, None, ", ".join(lst))])
            mine = [x for x in raw if x[1].name == name]
            rec.histories += 1
            rec.transitions += k
            rec.state((name, k, lst[0]))
            if [x[5] for x in mine] != lst:
                rec.fail("targets hit in order %r, listed %r" % ([x[5] for x in mine], lst), name)
            if any(x[0] - mine[0][0] != 135 * i for i, x in enumerate(mine)):
                rec.fail("hits land at %r" % ([x[0] for x in mine],), name)


def _single(rec, i):
    """single-target use is identical to the same skill without falloff"""
    tick()
    a = skills()[i]
    b = {k: v for k, v in a.items() if k != "falloff"}
    hits = [dict(name="H", damage=dict(potency=3), **GCD)]
    kw = dict(gauges={"G": dict(max_value=100, skill_allowlist=("Spend", "SpendL"))})
    wa, wb = world([a] + hits, **kw), world([b] + hits, **kw)
    for tg in (None, "A", " A "):
        for h in ([(0, a["name"], None, None, tg), (3000, "H")], [(0, a["name"], None, None, tg), (900, a["name"], None, None, "B"), (3000, "H")],
                  [(None, a["name"], None, None, tg), (None, "H")]):
            x, y = wa.i_run(dict(), h), wb.i_run(dict(), h)
            rec.histories += 2
            rec.transitions += len(x[0])
            rec.state((i, tg, len(h)))
            if (x[0], x[1], x[3]) != (y[0], y[1], y[3]):
                rec.fail("falloff changes single-target use of %s" % a["name"], h)


def _values(rec, fall):
    """falloff potency for every tenth percent, as damage"""
    for pot in (100, 130, 620, 1000):
        tick()
        w = world([dict(name="X", damage=C({"": dict(potency=pot), "Hi": dict(potency=2 * pot)}), falloff=fall, **GCD)])
        w.label = "falloff %s of %s" % (fall, pot)
        s, st = dmg.stats("SAM", "7.1", 100)
        for m in (None, dict(cond="Hi")):
            h = [(0, "X", m, None, "A,B,C")]
            play(rec, w, dict(), h)
            ps = dmg.pairs(w, dict(), h)
            if ps is None:
                rec.fail("instances differ", h)
            ps.sort(key=lambda p: p[0][0])
            dmg.check_ranges(rec, dmg.i_sim([p[0] for p in ps], s), ps, st, h)


def _shared(rec):
    """skills created from the same damage table do not influence each other"""
    tick()
    table = {"": adapt.DamageSpec(potency=100), "Big": adapt.DamageSpec(potency=300)}
    tim = adapt.TimingSpec(base_cast_time=0, animation_lock=650)
    first = adapt.Skill(name="one", damage_spec=table, timing_spec=tim, aoe_dropoff=0.5, is_GCD=True)
    second = adapt.Skill(name="two", damage_spec=table, timing_spec=tim, aoe_dropoff=0.5, is_GCD=True)
    third = adapt.Skill(name="three", damage_spec=table, timing_spec=tim, is_GCD=True)
    for sk, f in ((first, 0.5), (second, 0.5), (third, 0)):
        for c in ("", "Big"):
            for n in range(1, 11):
                m = adapt.SkillModifier(with_condition=", ".join(x for x in (c, "Target %d" % n if n > 1 else "") if x))
                want = (300 if c else 100) * (1 - f if n > 1 else 1)
                rec.count(checks=1)
                rec.transitions += 1
                got = sk.get_damage_spec(m).potency
                if abs(got - want) > 1e-9:
                    rec.fail("skill %s: potency %r at target %d, should be %r" % (sk.name, got, n, want))
    rec.histories += 3
    if set(table) != {"", "Big"} or table[""].potency != 100:
        rec.fail("the caller's damage table was altered: %r" % (sorted(table),))


def _real(rec, v, lv, job):
    """every real area skill on 1, 2, 3 and 10 targets, before and after a debuff"""
    w = RealWorld(v, lv, job, flags=dict(base.FLAGS))
    for n in w.names():
        if n.startswith("Wait"):
            continue
        sk = w.lib.get_skill(n, job)
        aoe = sk.has_aoe or sk.aoe_dropoff is not None
        for tg in ("A, B", "B, A, C", ",".join(T10)) if aoe else ("A, B",):
            play(rec, w, dict(), [(0, n, None, None, tg), (4000, n, None, None, tg)])
            play(rec, w, dict(), [(0, n, None, None, "B"), (2500, n, None, None, tg), (5000, n, None, None, "B")])


def units(tier):
    deep = tier == "thorough"
    w = world(skills(), **KW)
    w.label = "area skills"
    names = [s["name"] for s in w.spec["skills"]]
    o = [(n, None, None, tg) for n in names for tg in TG] + [("Cleave", dict(cond="Big"), None, "A, B"), ("Cleave", dict(cond="Q"), None, "A, B"), ("S2", dict(force_combo=True), None, "B, A")]
    out = []
    for i, f in enumerate(o):
        out.append(Unit("pairs %d" % i, _hist, w, o, (0, 350, 1500), 2, f, [dict(fight_start=0)] if not deep else [dict(fight_start=0), dict(autos=True)]))
        if deep:
            out.append(Unit("ordered %d" % i, _seq, w, o, 2, f))
    core = [(n, None, None, tg) for n in ("Cleave", "Vuln", "Mark", "Tag", "Tagged", "DotAll", "Hype", "Stack", "Gain", "GainL", "Spend", "S1", "S2", "Late", "End")
            for tg in ("A, B", "B")]
    for i, f in enumerate(core):
        for g in ((700,), (2100,)) if deep else ((700,),):
            for k, f2 in enumerate(core):
                if deep:
                    out.append(Unit("triples %d %d %s" % (i, k, g), _hist3, w, core, g, f, f2))
            if not deep:
                out.append(Unit("triples %d" % i, _hist, w, core, g, 3, f, [dict(fight_start=0)]))
    out += trait_tree("area", skills(), core, (700,), settings=(dict(fight_start=0),), **KW)
    for n in names:
        out.append(Unit("targets %s" % n, _count, w, n, [None, dict(cond="Big"), dict(cond="Q"), dict(cond="Q, Big"), dict(cond="Big, Wide"), dict(cond="Wide,Q,Big")] if n == "Cleave" else [None]))
        if n not in ("Mark", "Tag", "Fu"):
            out.append(Unit("order %s" % n, _order, w, n))
    for i in range(len(names)):
        out.append(Unit("single %d" % i, _single, i))
    for k in range(0, 11) if not deep else range(0, 101, 2):
        out.append(Unit("falloff %d" % k, _values, k / 10 if not deep else k / 100))
    mixed = [x for x in o if x[3] in ("A, B", "B,A", "A, B, C")]
    out += long_tree("walks", w, mixed, (None, 700), step=1 if deep else 9)
    out.append(Unit("shared table", _shared))
    for v, lv in (CONFIGS if deep else (("7.1", 100), ("6.55", 90))):
        for j in jobs_of(real_library(v, lv)):
            out.append(Unit("real %s %s %s" % (v, lv, j), _real, v, lv, j))
    return out


def _hist3(rec, w, core, g, f, f2):
    for h in timed_histories(core, g, 3, [(0, f), (g[0], f2)], 3):
        play(rec, w, dict(fight_start=0), h)


def bounds(tier):
    deep = tier == "thorough"
    return dict(traits=TRAITS_TEXT, histories="all pairs of 108 presses (21 skills: damage, casts, travel, debuffs, DoTs, follow-ups, buffs, gauges, combos x 5 target lists) x 3 gaps; all "
                          "triples of 30 presses x %d gaps" % (2 if deep else 1),
                targets="every skill on 1..10 targets x 3 listings x 3 debuff situations, timed and ordered",
                falloff="%d falloffs x 4 potencies, through damage ranges" % (51 if deep else 11),
                long=LONG % ("" if deep else "ninth"),
                real="every real skill on several targets, %s configurations" % ("all 9" if deep else "2"))
