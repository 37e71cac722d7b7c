from .base import *  # noqa: F401,F403
from . import base

ID = "C03"
prepare = lambda tier: base.prepare(ID)


def dot(name, dur, fl=(True, True), cls="PHYSICAL_DOT"):
    return dict(skill=dict(name=name, damage=dict(potency=30, damage_class=cls)), dot=dur, buffs=fl[0], debuffs=fl[1],
                primary_only=False)


def skills():
    t = lambda d, c=0: dict(timing=dict(animation_lock=600, application_delay=d, base_cast_time=c), gcd=True)
    return [
        dict(name="D9", fups=(dot("d9", 9000),), **t(0)),
        dict(name="D9s", damage=dict(potency=100), fups=(dot("d9", 9000),), **t(700)),          # same effect, other button
        dict(name="D10", damage=dict(potency=60), fups=(dot("d10", 10000, cls="MAGICAL_DOT"),), **t(440)),
        dict(name="Ground", fups=(dot("g", 6000, (False, False)),), **t(300)),
        dict(name="Half", fups=(dot("h", 6001, (True, False)),), **t(0, 2000)),
        dict(name="Two", fups=(dot("t1", 3000), dot("t2", 8999, (False, True)),), **t(100)),
        dict(name="B", buff=dict(duration=5000, damage_mult=1.1), timing=dict(animation_lock=600), gcd=False),
        dict(name="V", debuff=dict(duration=5000, crit_rate_add=0.1), timing=dict(animation_lock=600), gcd=False),
        dict(name="H", damage=dict(potency=100), **t(530)),
        dict(name="Var", gcd=True, timing=dict(animation_lock=600),
             fups=C({"": (dot("v", 6000),), "Long": (dot("v", 12000),)})),
    ]


SETTINGS = [dict(ignore_trailing=it, snap_dots=sd, fight_start=fs)
            for it in (False, True) for sd in (None, 0, 1.25) for fs in (None, 0)]
GAPS = (0, 1, 2500, 2999, 3000, 3001, 9000, 9001)


def lone(rec, dur, sd):
    """a single DoT (and one refresh at every multiple of `step` ms) for one duration"""
    w = world([dict(name="D", fups=(dot("d", dur),), timing=dict(animation_lock=600, application_delay=250), gcd=True),
               dict(name="H", damage=dict(potency=10), **GCD)])
    w.label = "dot of %d ms" % dur
    for it in (False, True):
        s = dict(snap_dots=sd, ignore_trailing=it, fight_start=0)
        for re in list(range(0, dur + 3200, 250)) + [dur - 1, dur + 1, 2999, 3001]:
            play(rec, w, s, [(0, "D"), (max(re, 0), "D"), (dur + 500, "H")])
            play(rec, w, s, [(0, "D"), (max(re, 0), "H")])


def alignments(rec, lo, hi):
    """server-tick alignment: every landing millisecond residue modulo the tick"""
    w = world([dict(name="D", fups=(dot("d", 7000),), timing=dict(animation_lock=600), gcd=True)])
    for ms in range(lo, hi):
        for sd in (0, 0.001, 0.5, 2.999, -1.3, 1.001, 2.018, 2.007):
            play(rec, w, dict(snap_dots=sd, fight_start=0), [(ms, "D")], ("events",))


def long(rec, dur):
    """long effects: every tick up to the end, alone, refreshed early, late and after the end, on two targets"""
    w = world([dict(name="D", fups=(dot("d", dur),), timing=dict(animation_lock=600, application_delay=250), gcd=True),
               dict(name="H", damage=dict(potency=10), **GCD)])
    w.label = "dot of %d ms" % dur
    for s in (dict(fight_start=0), dict(snap_dots=0.75), dict(ignore_trailing=True)):
        play(rec, w, s, [(0, "D")])
        for re in (3001, dur // 2, dur - 1, dur, dur + 1, dur + 5000):
            play(rec, w, s, [(0, "D", None, None, "A, B"), (re, "D", None, None, "B"), (dur + 500, "H")])


def often(rec, n):
    """many applications in one fight: every gap between the next two is used in turn"""
    w = world([dict(name="D", fups=(dot("d", 7000),), timing=dict(animation_lock=600, application_delay=250), gcd=True),
               dict(name="E", fups=(dot("e", 30000),), timing=dict(animation_lock=600), gcd=True),
               dict(name="H", damage=dict(potency=10), **GCD)])
    w.label = "%d applications" % n
    for gaps in ((2500,), (3000, 7000), (7001, 6999, 1), (0, 12000, 2999)):
        for s in (dict(fight_start=0), dict(snap_dots=0.75), dict(ignore_trailing=True)):
            for start in (-40003, 0):
                t, h = start, []
                for i in range(n):
                    h.append((t, "DE"[i % 3 == 2], None, None, (None, "A, B", "B")[i % 3] if n % 2 else None))
                    t += gaps[i % len(gaps)]
                play(rec, w, s, h)
                play(rec, w, s, h + [(t, "H")])


def early(rec, sd):
    """effects put up before the start of the fight"""
    w = world([dict(name="D", fups=(dot("d", 7000),), timing=dict(animation_lock=600), gcd=True),
               dict(name="Dd", fups=(dot("f", 9001),), timing=dict(animation_lock=600, application_delay=1100), gcd=True),
               dict(name="B", buff=dict(duration=3000, damage_mult=1.1), **OGCD),
               dict(name="H", damage=dict(potency=10), **GCD)])
    w.label = "before the fight"
    for a, b in itertools.product((-9000, -8999, -7000, -5001, -3000, -1100, -1, 0), repeat=2):
        for p, q in itertools.product(("D", "Dd", "B", "H"), repeat=2):
            for s in (dict(snap_dots=sd, fight_start=0), dict(snap_dots=sd, fight_start=0, ignore_trailing=True)):
                play(rec, w, s, [(a, p), (b, q)])


def crossing(rec, d1, d2, deep):
    """the same effect from buttons with travel times d1, d2: snapshots and landings in every relative order"""
    t = lambda d, c=0: dict(timing=dict(animation_lock=600, application_delay=d, base_cast_time=c, affected_by_speed_stat=False), gcd=True)
    w = world([dict(name="P", fups=(dot("d", 12000),), **t(d1)), dict(name="Q", fups=(dot("d", 12000),), **t(d2)),
               dict(name="C", fups=(dot("d", 7500),), **t(d1, 2000)),
               dict(name="B", buff=dict(duration=2000, damage_mult=1.1), timing=dict(animation_lock=100), gcd=False)])
    w.label = "one DoT from buttons with travel %d, %d" % (d1, d2)
    o = [(n, None, None, tg) for n in "PQC" for tg in ("A", "A, B")] + [("B", None, None, None)]
    for s in (dict(fight_start=0), dict(snap_dots=0.5), dict(fight_start=0, ignore_trailing=True)):
        for h in timed_histories(o, (1, 400, 1500, 3100) if not deep else (0, 1, 400, 999, 1500, 3100, 5000), 2):
            play(rec, w, s, h)
        for h in timed_histories(o[:1] + o[2:3] + o[4:], (400, 1500), 3 if not deep else 4):
            play(rec, w, s, h)


def units(tier):
    deep = tier == "thorough"
    out = []
    for d1, d2 in ((4000, 0), (0, 4000), (1000, 1000), (2600, 650), (9000, 200)):
        out.append(Unit("crossing %d %d" % (d1, d2), crossing, d1, d2, deep))
    w = world(skills())
    names = [s["name"] for s in skills()]
    alpha = (opts([n for n in names if n != "D9"]) +
             [("D9", None, None, "A"), ("D9", None, None, "B"), ("D9", None, None, "A, B"),
              ("Var", dict(cond="Long"), None, None), ("Ground", None, None, "A,B")])
    out += timed_tree("pairs", w, SETTINGS, alpha, GAPS, 2)
    small = [("D9", None, None, "A"), ("D9s", None, None, "A, B"), ("D9", None, None, "B"),
             ("D10", None, None, "A"), ("Ground", None, None, "A"), ("B", None, None, None), ("V", None, None, "A"),
             ("H", None, None, "A")]
    out += timed_tree("deep", w, [SETTINGS[0], SETTINGS[8]], small, (2500, 3000, 6001) if deep else (2500, 6000),
                      4 if deep else 3)
    out += seq_tree("seq", w, [SETTINGS[0], SETTINGS[6], SETTINGS[8]], alpha, 4 if deep else 3)
    for dur in (1, 2999, 3000, 3001, 6000, 7500, 9000, 15000) if deep else (2999, 3000, 3001, 9000):
        for sd in (None, 0, 0.75):
            out.append(Unit("lone %d %s" % (dur, sd), lone, dur, sd))
    out += trait_tree("pairs", skills(), alpha, (2500,), settings=(SETTINGS[0], SETTINGS[8]))
    for dur in (30000, 90001, 123000, 600000):
        out.append(Unit("long %d" % dur, long, dur))
    for n in (13, 30, 61) if not deep else (13, 20, 30, 61, 101, 200):
        out.append(Unit("often %d" % n, often, n))
    for sd in (None, 0, 0.75, -1.3):
        out.append(Unit("early %s" % sd, early, sd))
    out += long_tree("pairs", w, alpha, (None, 1700), SETTINGS[:1] + SETTINGS[6:7], step=1 if deep else 3)
    step = 60
    for lo in range(0, 3000, step) if deep else range(0, 3000, 300):
        out.append(Unit("align %d" % lo, alignments, lo, lo + (step if deep else 20)))
    return out


def bounds(tier):
    deep = tier == "thorough"
    return dict(traits=TRAITS_TEXT, pairs="15 presses (6 DoT kinds, same effect from two buttons, 1-2 targets, condition-dependent, buff, debuff, hit) "
                      "x 8 gaps (around tick and duration ends) x 12 settings (trailing, alignment, start), length 2",
                crossing="one effect from 3 buttons with 5 travel-time pairs (snapshot and landing orders differ), 7 presses, length %d" % (
                    4 if deep else 3),
                deep="8 presses x %d gaps, length %d, 2 settings; ordered lists of length %d" % (
                    (3, 4, 4) if deep else (2, 3, 3)),
                often="13 to %d applications in one fight x 4 gap patterns x 3 settings" % (200 if deep else 61),
                early="pairs of 4 presses at 8 moments up to 9 s before the fight x 4 alignments x 2 settings",
                walks=LONG % ("" if deep else "third"),
                long="effects of 30 s to 10 min x 6 refreshes x 3 settings",
                alignment="landing residues modulo the 3 s tick: %s x 8 alignments" % ("all 3000" if deep else "200 of 3000"))
