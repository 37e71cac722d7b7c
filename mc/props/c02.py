from .base import *  # noqa: F401,F403
from . import base

ID = "C02"
prepare = lambda tier: base.prepare(ID)

CASTS = (0, 300, 500, 510, 2000)
DELAYS = (0, 300, 500, 700, 1340)
FLAGPAIRS = ((True, True), (True, False), (False, True), (False, False))
MODS = (None, dict(no_cast=True), dict(no_delay=True), dict(no_cast=True, no_delay=True))
TARGETS = (None, "A, B", "B,A ,C")


def fup(k, delay, flags, primary, dot=None, kind="damage"):
    body = {"damage": dict(damage=dict(potency=40 + k)), "buff": dict(buff=dict(duration=4000, damage_mult=1.05)),
            "debuff": dict(debuff=dict(duration=4000, damage_mult=1.03)),
            "none": dict()}[kind]
    return dict(skill=dict(name="f%d" % k, **body), delay=delay, buffs=flags[0], debuffs=flags[1],
                primary_only=primary, dot=dot)


def fup_sets():
    yield ()
    for delay in (0, 450):
        for fl in FLAGPAIRS:
            for prim in (True, False):
                yield (fup(1, delay, fl, prim),)
    for kind in ("buff", "debuff", "none"):
        yield (fup(1, 0, (True, True), True, kind=kind), fup(2, 500, (True, True), False))
        yield (fup(1, 700, (False, False), False, kind=kind), fup(2, 0, (False, True), True))
    for fl in FLAGPAIRS:
        yield (fup(1, 0, fl, True, dot=7000), fup(2, 300, (True, True), True))
        yield (fup(1, 300, fl, False, dot=6000),)


def one(rec, cast, delay):
    for i, fs in enumerate(fup_sets()):
        for dmg in (dict(potency=200), None):
            sk = dict(name="P", timing=dict(base_cast_time=cast, animation_lock=600, application_delay=delay),
                      fups=fs, gcd=True, damage=dmg)
            w = world([sk, dict(name="H", damage=dict(potency=10), **GCD)], speed_stat=500)
            w.label = "cast %d delay %d follow-ups #%d damage %s" % (cast, delay, i, dmg)
            for m in MODS:
                for tg in TARGETS:
                    play(rec, w, dict(fight_start=0), [(1000, "P", m, None, tg)])
                    play(rec, w, dict(), [(None, "P", m, None, tg), (None, "H")])
                    rec.sample([w.label, m, tg])
            play(rec, w, dict(), [(None, "P"), (None, "P", None, None, "A, B"), (None, "H")])


def odd(rec, cast):
    """travel times and follow-up delays of 1 ms to 40 s, and ten follow-ups"""
    many = tuple(fup(k, 130 * (k % 4), FLAGPAIRS[k % 4], k % 3 > 0) for k in range(1, 13))
    for delay in (0, 1, 2, 499, 501, 10001, 40000):
        for i, fs in enumerate(((), many, (fup(1, 1, (True, True), False), fup(2, 1, (False, True), True), fup(3, 1, (False, False), True)),
                                (fup(1, 60000, (True, False), False), fup(2, 30001, (False, False), True)),
                                (fup(1, 1, (True, True), True, dot=30001),))):
            for dmg in (dict(potency=200), None):
                sk = dict(name="P", timing=dict(base_cast_time=cast, animation_lock=600, application_delay=delay, affected_by_speed_stat=False),
                          fups=fs, gcd=True, damage=dmg)
                w = world([sk, dict(name="H", damage=dict(potency=10), **GCD)])
                w.label = "cast %d delay %d odd follow-ups #%d damage %s" % (cast, delay, i, dmg)
                for m in MODS:
                    for tg in TARGETS + ("Boss, ABCDEFGHIJK, C, DD, E, F, GGGG, H, I, J",):
                        play(rec, w, dict(fight_start=0), [(-5000, "P", m, None, tg), (4000007, "P", m, None, tg)])
                        play(rec, w, dict(), [(0, "H"), (1000, "P", m, None, tg)])


def real(rec, v, lv, job):
    """every real skill of one job, pressed with each waiving modifier"""
    w = RealWorld(v, lv, job, flags=dict(base.FLAGS))
    for n in w.names():
        if n.startswith("Wait"):
            continue
        for m in MODS:
            play(rec, w, dict(fight_start=0), [(1000, n, m, None, "A, B")])


def tree_skills():
    F = fup
    return [
        dict(name="I", damage=dict(potency=100), timing=dict(animation_lock=600, application_delay=710), gcd=True),
        dict(name="K", damage=dict(potency=100), timing=dict(base_cast_time=1500, animation_lock=100,
                                                            application_delay=900), gcd=True),
        dict(name="T", damage=dict(potency=100), timing=dict(base_cast_time=400, animation_lock=300,
                                                            application_delay=200), gcd=True),
        dict(name="M", damage=dict(potency=100), gcd=True,
             timing=dict(base_cast_time=1000, animation_lock=600, application_delay=600),
             fups=(F(1, 0, (True, True), True), F(2, 400, (False, False), False), F(3, 0, (True, False), True, 6000))),
        dict(name="Y", gcd=True, timing=dict(animation_lock=600, application_delay=300),
             fups=C({"": (F(4, 100, (True, True), True),), "Alt": (F(5, 100, (False, True), False),
                                                                  F(6, 0, (True, True), False))})),
        dict(name="Sw", buff=dict(duration=8000, flat_cast_time_reduction=1200, num_uses=2, max_num_uses=2),
             timing=dict(animation_lock=500), gcd=False),
        dict(name="Ha", buff=dict(duration=8000, haste_time_reduction=0.25), timing=dict(animation_lock=500),
             gcd=False),
        dict(name="X", damage=dict(potency=9), gcd=False,
             timing=C({"": dict(animation_lock=500, application_delay=100),
                       "Alt": dict(base_cast_time=900, animation_lock=200, application_delay=1000)})),
    ]


def units(tier):
    out = [Unit("grid cast %d delay %d" % (c, d), one, c, d) for c in CASTS for d in DELAYS]
    out += [Unit("odd cast %d" % c, odd, c) for c in (0, 1, 10, 60, 400, 499, 500, 501, 9000, 30000)]
    w = world(tree_skills(), speed_stat=700)
    alpha = opts([s["name"] for s in tree_skills()]) + [("Y", dict(cond="Alt"), None, "A, B"),
                                                        ("X", dict(cond="Alt", no_delay=True), None, None),
                                                        ("K", dict(no_cast=True), None, None)]
    deep = tier == "thorough"
    out += seq_tree("tree", w, [dict(), dict(fight_start=100)], alpha, 4 if deep else 3)
    out += timed_tree("timed", w, [dict()], alpha, (0, 700, 1500), 3 if deep else 2)
    out += long_tree("timed", w, alpha, (None, 900), step=1 if deep else 3)
    out += trait_tree("timed", tree_skills(), alpha, (700,), settings=(dict(autos=True),), speed_stat=700)
    cfgs = CONFIGS if deep else (("6.55", 90), ("7.1", 100))
    for v, lv in cfgs:
        for j in jobs_of(real_library(v, lv)):
            out.append(Unit("real %s %d %s" % (v, lv, j), real, v, lv, j))
    return out


def bounds(tier):
    return dict(traits=TRAITS_TEXT, grid="5 cast times x 5 travel delays x 32 follow-up sets (delay, snapshot flags, primary-only, DoT, kind) "
                     "x with/without own damage x 4 waiving modifiers x 1..3 targets, alone and followed by a hit",
                odd="10 cast times (1 ms to 30 s) x 7 travel delays (1 ms to 40 s) x 5 follow-up sets (up to 12, delays 1 ms to 60 s) x 4 "
                    "modifiers x 1..10 targets, before the fight, and after an hour",
                tree="all ordered lists over 11 presses up to length %d; timed presses up to length %d" % (
                    (4, 3) if tier == "thorough" else (3, 2)),
                long=LONG % ("" if tier == "thorough" else "third"),
                real="every skill of every job in %s patch/level settings x 4 modifiers" % (
                    "9" if tier == "thorough" else "2"))
