from .base import *  # noqa: F401,F403
from . import base

ID = "C08"
prepare = lambda tier: base.prepare(ID)


def skills():
    o = lambda d=0: dict(timing=dict(animation_lock=600, application_delay=d), gcd=False)
    t = lambda d=0, c=0: dict(timing=dict(animation_lock=600, application_delay=d, base_cast_time=c,
                                          affected_by_speed_stat=False), gcd=True)
    return [
        dict(name="H", damage=dict(potency=100), **t()),
        dict(name="Hd", damage=dict(potency=100), **t(1200)),
        dict(name="K", damage=dict(potency=100), **t(300, 2500)),
        dict(name="Kq", damage=dict(potency=100), **t(0, 400)),
        dict(name="Long", damage=dict(potency=100), **t(0, 6000)),
        dict(name="Ch", chan=dict(duration=5000, skill_allowlist=("Ok",)), **o()),
        dict(name="Ch2", damage=dict(potency=5), chan=dict(duration=9000, skill_allowlist=("Ok",), num_uses=2), **o()),
        dict(name="Ok", damage=dict(potency=7), **o()),
        dict(name="Wait 1.00s", timing=dict(animation_lock=1000), gcd=False),
        dict(name="Wait 12.50s", timing=dict(animation_lock=12500), gcd=False),
        dict(name="Wait 0.05s", timing=dict(animation_lock=50), gcd=False),
        dict(name="Fast", buff=dict(duration=6000, auto_attack_delay_reduction=0.25), **o()),
        dict(name="Faster", buff=dict(duration=4000, auto_attack_delay_reduction=0.13, damage_mult=1.1), **o(700)),
        dict(name="NoAuto", buff=dict(duration=9000, auto_attack_delay_reduction=0.5, skill_allowlist=("H",)), **o()),
        dict(name="Drag", debuff=dict(duration=5000, auto_attack_delay_reduction=0.1), **o()),
        dict(name="Stop", buff=dict(duration=1000, expires_status_effects=("Fast", "Drag")), **o()),
        dict(name="Swift", buff=dict(duration=9000, num_uses=1, flat_cast_time_reduction=9000,
                                     skill_allowlist=("K", "Long")), **o()),
        dict(name="Dot", fups=(dict(skill=dict(name="dt", damage=dict(potency=1, damage_class="PHYSICAL_DOT")), dot=9000),),
             **t(200)),
        dict(name="Alt", damage=dict(potency=3), chan=C({"": dict(duration=3000), "Short": dict(duration=800), "No": None}),
             **o()),
        dict(name="FastF", fups=(dict(skill=dict(name="ff", buff=dict(duration=3000, auto_attack_delay_reduction=0.2)),
                                      delay=1500),), **o()),
    ]


OTHER = {"DNC": [dict(name="Party", buff=dict(duration=5000, auto_attack_delay_reduction=0.05), **OGCD),
                 dict(name="OK", damage=dict(potency=1), timing=dict(base_cast_time=4000, animation_lock=600), gcd=True),
                 dict(name="OCh", chan=dict(duration=7000), **OGCD)]}
END = [(9000, ("H", None, None, None))]
END2 = [(4000, ("H", None, None, "B")), (4000, ("Hd", None, None, "Default Target"))]


def unchanged(rec, w, hist):
    """enabling auto-attacks never changes any other event"""
    from ..engine import tick
    tick()
    ev0 = w.i_run(dict(), hist)[0]
    ev1 = [e for e in w.i_run(dict(autos=True), hist)[0] if e[2] != "Auto"]
    rec.count(checks=1)
    if ev0 != ev1:
        rec.fail("enabling auto-attacks changed other events: %r" % ([e for e in ev1 if e not in ev0][:2],), dict(presses=hist))


def keep(rec, w, options, gaps, depth, first):
    for h in timed_histories(options, gaps, depth, first, suffix=END):
        unchanged(rec, w, h)


def rhythm(rec, job, version, level, delays):
    """weapon delay x trait x reductions: the whole rhythm over a long fight"""
    for wd in delays:
        w = world(skills(), job=job, version=version, level=level, weapon_delay=wd, others=OTHER)
        w.label = "rhythm %s %s delay %s" % (job, version, wd)
        for mid in ([], ["Fast"], ["Faster"], ["Fast", "Faster"], ["Drag", "Fast"], ["NoAuto"], ["FastF", "Drag"]):
            h = [(0, "H")] + [(1500 + 700 * i, n) for i, n in enumerate(mid)] + [(30000, "H")]
            play(rec, w, dict(autos=True), h)
            play(rec, w, dict(autos=True, fight_start=0), h)


def ends(rec, w, lo, hi):
    """the last event at every millisecond around a swing"""
    for ms in range(lo, hi):
        play(rec, w, dict(autos=True), [(0, "H"), (ms, "H")], ("events",))
        play(rec, w, dict(autos=True, ignore_trailing=True), [(0, "H"), (100, "Dot"), (ms, "H")], ("events",))


def windows(rec, w, target, cls):
    h = [(0, "H"), (2000, "H", None, None, "B"), (5000, "K"), (9000, "H"), (15000, "H")]
    grid = [0, 0.5, 2.64, 2.641, 5.2, 5.28, 7.5, 7.92, 9, 12.3]
    for i, a in enumerate(grid):
        for b in grid[i + 1:]:
            ws = ((a, b) + ((cls,) if cls else ()),)
            for s in (dict(), dict(fight_start=0), dict(fight_start=2300)):
                play(rec, w, dict(s, autos=True, downtime={target: ws} if target else ws), h)
                play(rec, w, dict(s, autos=True, downtime={target: ws + ((round(b + 1, 3), round(b + 3, 3)),)} if target else
                                  ws + ((round(b + 1, 3), round(b + 3, 3)),)), [(p[0] + 700,) + p[1:] for p in h[1:]])
            # two windows that adjoin, overlap, contain one another, or come in the other order
            for c, d in ((b, round(b + 0.7, 3)), (round((a + b) / 2, 3), round(b + 0.9, 3)), (a, round((a + b) / 2, 3)), (round(b + 0.1, 3), round(b + 1, 3))):
                two = ws + ((c, d),)
                three = ((d, round(d + 0.4, 3)),) + two[::-1]
                for x in (two, two[::-1], three):
                    play(rec, w, dict(autos=True, downtime={target: x} if target else x), h)


def swaps(rec, w, first):
    """fights of 9 target changes, at even and odd moments around the swings: who is hit by each swing"""
    tg = ["T%d" % i for i in range(10)]
    for second in tg:
        for gap in (700, 1340, 2640, 2641):
            order = [first, second] + [t for t in tg if t not in (first, second)]
            h = [(gap * i, "H", None, None, t) for i, t in enumerate(order)] + [(gap * 10 + 5000, "Ok", None, None, "T3"), (gap * 10 + 9000, "H")]
            play(rec, w, dict(autos=True), h)
            play(rec, w, dict(autos=True, fight_start=0, downtime={second: ((gap * 2 / 1000, gap * 4 / 1000),)}), [(x[0] - 1500,) + x[1:] for x in h])


def shorts(rec, w, lo, hi):
    """a cast shorter than its snapshot lead started at every 20 ms around a swing: the swing waits for it or not"""
    for ms in range(lo, hi, 20):
        play(rec, w, dict(autos=True), [(0, "H"), (ms, "Kq"), (ms + 9000, "H")], ("events",))
        play(rec, w, dict(autos=True), [(0, "H"), (ms, "Kq"), (ms + 400, "Kq"), (ms + 9000, "H")], ("events",))


def units(tier):
    deep = tier == "thorough"
    sk = skills()
    w = world(sk, others=OTHER)
    A = [dict(autos=True)]
    alpha = opts([s["name"] for s in sk]) + [("H", None, None, "B"), ("Party", None, "DNC", None), ("OK", None, "DNC", None),
                                             ("OCh", None, "DNC", None), ("Alt", dict(cond="Short"), None, None),
                                             ("Alt", dict(cond="No"), None, "B"), ("K", dict(no_cast=True), None, None)]
    out = []
    out += timed_tree("pairs", w, A, alpha, (0, 500, 1340, 2640, 3000, 5000), 2, [END, END2])
    core = opts(["H", "K", "Long", "Ch", "Ch2", "Ok", "Fast", "Faster", "Stop", "Swift", "Drag"])
    out += timed_tree("triples", w, A, alpha if deep else core, (700, 2640, 4100) if deep else (900, 2640), 3, [END])
    if deep:
        out += timed_tree("quads", w, A, core, (1400, 2640), 4, [END])
    out += seq_tree("seq", w, A, alpha, 3)
    for i, o in enumerate(alpha):
        out.append(Unit("unchanged %d" % i, keep, w, alpha, (900,) if not deep else (900, 2640), 2 if not deep else 3, [(0, o)]))
    for job, v, lv in (("SAM", "7.1", 100), ("MNK", "7.1", 100), ("NIN", "7.05", 100), ("NIN", "7.0", 90), ("MNK", "6.55", 90)):
        ds = [2.0, 2.24, 2.56, 2.64, 2.8, 2.96, 3.04, 3.12, 3.2, 3.28, 3.36, 3.44, 2.111, 2.01, 1.001] if deep else [2.56, 2.64, 3.44, 2.01, 1.001]
        for d in ds:
            out.append(Unit("rhythm %s %s %d %s" % (job, v, lv, d), rhythm, job, v, lv, [d]))
    for lo in range(500, 9000, 250) if deep else (500, 3100, 5750):
        out.append(Unit("end %d" % lo, ends, w, lo, lo + (250 if deep else 120)))
    for lo in range(1800, 6000, 350):
        out.append(Unit("short %d" % lo, shorts, w, lo, lo + 350))
    for t in range(10):
        out.append(Unit("swaps %d" % t, swaps, w, "T%d" % t))
    out += long_tree("pairs", w, alpha, (None, 1700), [dict(autos=True)], step=1 if deep else 5)
    out += trait_tree("pairs", sk, alpha, (2640,), [END], A, others=OTHER)
    out += far_tree("pairs", w, alpha, (2640,), [END], settings=(dict(autos=True, fight_start=0),))
    for tg in (None, "Default Target", "B"):
        for cls in (None, "AUTO", "DIRECT"):
            out.append(Unit("downtime %s %s" % (tg, cls), windows, w, tg, cls))
    return out


def bounds(tier):
    deep = tier == "thorough"
    return dict(traits=TRAITS_TEXT, alphabet="27 presses: hits, casts, channels (allow list, limited uses, condition-dependent), waits, auto-speed buffs and "
                         "debuffs (delayed, restricted, ended early, by follow-up), casts made instant, DoT, other players' casts/"
                         "channels/buffs, target changes",
                depth="pairs x 6 gaps x 2 endings; triples x %s; ordered lists up to 3" % ("3 gaps; quads of 11" if deep else "2 gaps (11 presses)"),
                rhythm="weapon delays x 5 jobs/traits x 7 effect sets over 30 s; last event at every ms of %s" % (
                    "8.5 s" if deep else "0.36 s"),
                swaps="fights of 9 target changes, 100 beginnings x 4 spacings", far=FAR, long=LONG % ("" if deep else "fifth"),
                downtime="45 windows x 3 target forms x 3 damage types; pairs and triples of windows that adjoin, overlap, nest, in either order")
