from .base import *  # noqa: F401,F403
from . import base

ID = "C04"
prepare = lambda tier: base.prepare(ID)


def skills():
    t = lambda d=0, c=0: dict(timing=dict(animation_lock=600, application_delay=d, base_cast_time=c,
                                          affected_by_speed_stat=False), gcd=True)
    o = lambda d=0: dict(timing=dict(animation_lock=600, application_delay=d), gcd=False)
    f = lambda n, fl, delay, **k: dict(skill=dict(name=n, **k), buffs=fl[0], debuffs=fl[1], delay=delay,
                                       primary_only=k.pop("prim", True))
    dmg = lambda p: dict(damage=dict(potency=p))
    dot = lambda n, fl: dict(skill=dict(name=n, damage=dict(potency=20, damage_class="PHYSICAL_DOT")), buffs=fl[0],
                             debuffs=fl[1], dot=6000)
    return [
        dict(name="B", buff=dict(duration=1500, damage_mult=1.1), **o()),
        dict(name="Bd", buff=dict(duration=4000, crit_rate_add=0.1), **o(800)),
        dict(name="V", debuff=dict(duration=1500, damage_mult=1.2), **o()),
        dict(name="Vd", debuff=dict(duration=4000, dh_rate_add=0.2), **o(800)),
        dict(name="I", damage=dict(potency=100), **t()),
        dict(name="S", damage=dict(potency=110), **t(1200)),
        dict(name="K", damage=dict(potency=120), **t(700, 2500)),
        dict(name="Own", damage=dict(potency=130), buff=dict(duration=3000, damage_mult=1.3),
             debuff=dict(duration=3000, crit_rate_add=0.05), **t(500)),
        dict(name="OwnI", damage=dict(potency=140), buff=dict(duration=2000, main_stat_add=50), **t()),
        dict(name="OwnU", damage=dict(potency=150), buff=dict(duration=6000, num_uses=1, max_num_uses=9, skill_allowlist=("S", "I"),
                                                              damage_mult=1.06), **t(400)),
        dict(name="PTT", damage=dict(potency=10), fups=(f("tt", (True, True), 900, **dmg(11)),), **t(600)),
        dict(name="PTF", fups=(f("tf", (True, False), 900, **dmg(12)),), **t(600)),
        dict(name="PFT", fups=(f("ft", (False, True), 900, **dmg(13)),), **t(600)),
        dict(name="PFF", fups=(f("ff", (False, False), 900, **dmg(14)),), **t(600)),
        dict(name="PB", damage=dict(potency=15), fups=(f("pb", (True, True), 0, buff=dict(duration=2500, damage_mult=1.4)),
                                                      f("pd", (False, False), 300, **dmg(16))), **t(0)),
        dict(name="PZA", fups=(f("zz", (False, True), 0, buff=dict(duration=2500, damage_mult=1.45)),
                               f("aa", (False, True), 0, **dmg(17))), **t(600)),
        dict(name="PZD", fups=(f("yy", (True, False), 0, debuff=dict(duration=2500, damage_mult=1.45)),
                               f("bb", (True, False), 0, **dmg(18))), **t(600)),
        dict(name="Dot", fups=(dot("dt", (True, True)),), **t(300)),
        dict(name="Gnd", fups=(dot("gd", (False, False)), dot("gh", (True, False))), **t(300)),
        dict(name="End", buff=dict(duration=5000, damage_mult=1.01, expires_status_effects=("Bd", "Own", "V")), **o()),
        dict(name="Six", fups=(f("z6", (True, True), 0, **dmg(21)), f("y6", (True, True), 0, buff=dict(duration=2500, damage_mult=1.03)),
                               f("x6", (True, True), 0, **dmg(22)), f("w6", (True, True), 0, debuff=dict(duration=2500, damage_mult=1.04)),
                               f("v6", (True, True), 0, **dmg(23)), f("u6", (True, True), 0, buff=dict(duration=2500, crit_rate_add=0.02)),
                               f("t6", (True, True), 0, **dmg(24))), **t()),
        dict(name="Use", buff=dict(duration=9000, num_uses=1, max_num_uses=1, guaranteed_crit="YES"), **o()),
    ]


def many_ticks(rec, deep):
    """DoTs of up to 20 (60) ticks: every tick keeps the snapshot of its application, whatever happens a moment later"""
    sk = [dict(name="B", buff=dict(duration=1000, damage_mult=1.1), **OGCD),
          dict(name="V", debuff=dict(duration=1000, damage_mult=1.2), **OGCD),
          dict(name="I", damage=dict(potency=5), **OGCD)]
    for n in (1, 10, 20) if not deep else (1, 2, 5, 9, 10, 11, 20, 40, 60):
        sk.append(dict(name="D%d" % n, gcd=True, timing=dict(animation_lock=0), fups=(
            dict(skill=dict(name="t%d" % n, damage=dict(potency=7, damage_class="PHYSICAL_DOT")), dot=3000 * n),)))
    w = world(sk)
    w.label = "many ticks"
    for d in [s["name"] for s in sk[3:]]:
        for a in ("B", "V"):
            for t in (0, 999, 1000, 1001):
                for u in (0, 1, 2, 10, 50):
                    for z in ("B", "V", "I"):
                        play(rec, w, dict(fight_start=0), [(0, a), (t, d), (t + u, z)])


def after_many(rec, w, options, n):
    """the same after many earlier events"""
    pre = [(i, "I") for i in range(n)]
    for o in options:
        for g in (1, 600, 2001, 2136):
            play(rec, w, dict(fight_start=0), pre + [(n + 5000,) + o, (n + 5000 + g, "I"), (n + 5000 + g + 400, "S", None, None, "B, Default Target, C"), (n + 5000 + g + 500, "I")])


def neighbours(rec, w, a, b):
    """hits on several targets next to other hits: listed in order of landing, whatever the gap in ms"""
    for base_gap in (0, 135, 270):
        for d in range(-12, 13):
            for tg in ("A, B, C", "B, C", None):
                play(rec, w, dict(fight_start=0), [(1000, a, None, None, tg), (1000 + base_gap + d, b), (1000 + base_gap + d + 3, a)])


def wide(rec, w, options):
    """ten targets, with debuffs on some of them"""
    t10 = ", ".join("T%d" % i for i in range(1, 11))
    for o in options:
        for tg in (t10, "T10, T9, T8, T7, T6, T5, T4, T3, T2, T1", "T9, T10"):
            for v in ("V", "Vd"):
                for t in (0, 800, 1600):
                    play(rec, w, dict(fight_start=0), [(0, v, None, None, t10), (1, v, None, None, "T10"), (t, o[0], o[1], o[2], tg)])


def units(tier):
    deep = tier == "thorough"
    sk = skills()
    names = [s["name"] for s in sk]
    w = world(sk)
    out = []
    a1 = opts(names) + [("V", None, None, "B"), ("K", None, None, "Default Target, B"), ("Own", None, None, "B, C"),
                        ("Dot", None, None, "Default Target, B"),
                        ("I", None, None, "Default Target, B"), ("I", None, None, "C, B"), ("PFT", None, None, "B, Default Target"),
                        ("S", None, None, "B, Default Target"), ("OwnI", None, None, "Default Target, C, B"), ("Vd", None, None, "B, C"), ("OwnU", None, None, "C, Default Target, B"),
                        ("PTF", None, None, "B"), ("PFF", None, None, "B"), ("Gnd", None, None, "B"), ("I", None, None, "B")]
    out += timed_tree("pairs", w, [dict(), dict(autos=True)], a1, (0, 1, 499, 600, 800, 1200, 1500, 1501, 3000), 2)
    out += timed_tree("triples", w, [dict()], a1 if deep else opts(
        ["B", "Bd", "V", "Vd", "S", "K", "Own", "PFT", "PTF", "PB", "Gnd", "End", "Use"]),
        (500, 1200) if not deep else (0, 500, 1200), 3)
    out += seq_tree("seq", w, [dict()], opts(names), 4 if deep else 3)
    out += trait_tree("pairs", sk, a1, (600, 1500))
    out.append(Unit("many ticks", many_ticks, deep))
    for n in (60, 300) if not deep else (60, 300, 1200):
        for i in range(0, len(a1), 4):
            out.append(Unit("after %d %d" % (n, i), after_many, w, a1[i:i + 4], n))
    for a in ("I", "S", "K", "PFF", "Own"):
        for b in ("I", "S", "PTT"):
            out.append(Unit("neighbours %s %s" % (a, b), neighbours, w, a, b))
    for i in range(0, len(sk), 3):
        out.append(Unit("wide %d" % i, wide, w, opts(names[i:i + 3])))
    out += far_tree("pairs", w, a1, (1500, 1501))
    out += long_tree("pairs", w, a1, (None, 1500), step=1 if deep else 5)
    if deep:
        out += timed_tree("quads", w, [dict()], opts(["B", "V", "S", "K", "Own", "PFT", "PB", "Gnd", "Use"]),
                          (600, 1500), 4)
    return out


def bounds(tier):
    deep = tier == "thorough"
    return dict(traits=TRAITS_TEXT, alphabet="37 presses: instant/delayed buffs and debuffs (1.5 s and 4 s), instant/travelling/cast hits, hits with "
                         "own effects, follow-ups with all four snapshot declarations, follow-up effects in both name orders, parent- and "
                         "landing-snapshot DoTs, ended and single-use effects, one to three targets",
                pairs="all pairs x 9 gaps around cast, travel and duration ends x autos on/off",
                triples="all triples over %d presses x %d gaps" % ((37, 3) if deep else (13, 2)),
                far=FAR, wide="every press on ten targets x 2 debuffs x 3 moments", neighbours="5 x 3 hits x 75 gaps around the "
                "moments at which later targets are hit",
                after="every press after 60 and 300 earlier events",
                long=LONG % ("" if deep else "fifth"),
                seq="all ordered lists up to length %d" % (4 if deep else 3))
