from .base import *  # noqa: F401,F403
from . import base

ID = "C09"
prepare = lambda tier: base.prepare(ID)


def skills():
    t = lambda d=0, c=0: dict(timing=dict(animation_lock=600, application_delay=d, base_cast_time=c,
                                          affected_by_speed_stat=False), gcd=True)
    dot = lambda n, cls, dur=9000, fl=(True, True): dict(skill=dict(name=n, damage=dict(potency=9, damage_class=cls)), dot=dur,
                                                         buffs=fl[0], debuffs=fl[1])
    return [
        dict(name="Hit", damage=dict(potency=100), **t()),
        dict(name="Slow", damage=dict(potency=100), **t(1340)),
        dict(name="Cast", damage=dict(potency=100), **t(900, 2000)),
        dict(name="Dot", damage=dict(potency=50), fups=(dot("dotP", "PHYSICAL_DOT"),), **t(400)),
        dict(name="Dot2", fups=(dot("dotM", "MAGICAL_DOT", 7000, (False, False)),), **t()),
        dict(name="Pet", fups=(dict(skill=dict(name="petHit", damage=dict(potency=80, damage_class="PET")), delay=2000,
                                    buffs=False, debuffs=False),), **t(300)),
        dict(name="Buff", buff=dict(duration=20000, damage_mult=1.1), **t(700)),
        dict(name="Debuff", damage=dict(potency=10), debuff=dict(duration=20000, damage_mult=1.05), **t(700)),
        dict(name="Gain", damage=dict(potency=10), res=(dict(name="G", change=10),), **t()),
        dict(name="Spend", damage=C({"": dict(potency=20), "10 G": dict(potency=300)}), res=(dict(name="G", change=-10),), **t()),
        dict(name="Opt", damage=C({"": dict(potency=20), "Soft": None, "Pet": dict(potency=5, damage_class="PET")}),
             buff=dict(duration=5000, crit_rate_add=0.1), **t(300)),
        dict(name="Step1", damage=dict(potency=30), combo=(dict(),), **t()),
        dict(name="Step2", damage=C({"": dict(potency=400), "No Combo": dict(potency=40)}),
             combo=(dict(combo_actions=("Step1",)),), **t(500)),
        dict(name="Aoe", damage=C({"": dict(potency=100)}), falloff=0.5, debuff=dict(duration=9000, crit_rate_add=0.1),
             fups=(dot("dotA", "PHYSICAL_DOT", 6000),), **t(600)),
        dict(name="Zero", damage=dict(potency=0), timing=dict(animation_lock=600, application_delay=800), gcd=False),
        dict(name="Weave", damage=dict(potency=40), timing=dict(animation_lock=600, application_delay=900), gcd=False),
    ]


WKW = dict(gauges={"G": dict(max_value=100, skill_allowlist=("Spend",))})
D = "Default Target"
ROTATIONS = [
    [(0, "Buff"), (700, "Hit"), (2000, "Slow"), (4000, "Cast"), (7000, "Hit", None, None, "B")],
    [(0, "Dot"), (2500, "Dot2", None, None, "B"), (5000, "Dot"), (7500, "Pet", None, None, "A, B")],
    [(0, "Gain"), (1500, "Spend"), (3000, "Spend"), (4500, "Debuff"), (6000, "Hit")],
    [(0, "Step1"), (1500, "Step2"), (3000, "Step2"), (4500, "Opt"), (6000, "Opt", dict(cond="Soft")),
     (7500, "Opt", dict(cond="Pet"))],
    [(0, "Aoe", None, None, "A, B, C"), (2500, "Aoe", None, None, "B"), (5000, "Slow", None, None, "B, A"), (7000, "Debuff", None, None, "A")],
    [(0, "Debuff", None, None, "A, B"), (1500, "Slow", None, None, "B,A"), (3000, "Dot", None, None, "A,B"), (6500, "Hit", None, None, "B")],
    [(0, "Zero"), (700, "Weave"), (2000, "Hit"), (3000, "Zero", None, None, "B, A"), (4100, "Weave", None, None, "A, B"), (6000, "Hit")],
    [(None, "Buff"), (None, "Cast"), (None, "Dot"), (None, "Slow"), (None, "Aoe", None, None, "A,B"), (None, "Pet")],
]
FORMS = (None, D, "A", "B")
CLASSES = (None, "DIRECT", "AUTO", "PHYSICAL_DOT", "MAGICAL_DOT", "PET")


def _rot(rec, w, i, settings, form, cls, deep):
    """every window over the moments at which something snapshots or lands, and 1 ms around them"""
    h = ROTATIONS[i]
    ev = w.r_run(settings, h)[0]
    pts = set()
    for e in ev:
        for t in e[:2]:
            if t is not None:
                pts |= {t, t + 1, t - 1} if deep else {t, t + 1}
    pts = sorted(pts)
    for x, a in enumerate(pts):
        for b in pts[x + 1:]:
            win = ((a / 1000, b / 1000) + ((cls,) if cls else ()),)
            s = dict(settings, downtime=win if form is None else {form: win})
            rec.sample([i, s])
            play(rec, w, s, h)


def _two(rec, w, i, deep):
    """two windows, each with its own target and damage type"""
    h = ROTATIONS[i]
    grid = [0, 0.6, 1.3, 2.0, 3.34, 4.9, 7.5] if not deep else [-1, 0, 0.6, 0.735, 1.3, 2.0, 2.84, 3.34, 4.9, 6.4, 7.5]
    for a1, b1 in itertools.combinations(grid, 2):
        for a2, b2 in itertools.combinations([g for g in grid if g >= b1], 2):
            for c1, c2 in ((None, None), ("DIRECT", None), ("PHYSICAL_DOT", "DIRECT")):
                w1, w2 = (a1, b1) + ((c1,) if c1 else ()), (a2, b2) + ((c2,) if c2 else ())
                for dt in ((w1, w2), {"A": (w1, w2)}, {"A": (w1,), "B": (w2,)}, {D: (w2,), "B": (w1,)}):
                    play(rec, w, dict(downtime=dt), h)


def _overlap(rec, w, i, deep):
    """two windows covering common moments, in either order, each with its own damage type"""
    h = ROTATIONS[i]
    grid = [0, 1.3, 3.34, 4.9, 9] if not deep else [-1, 0, 0.735, 1.3, 2.84, 3.34, 4.9, 6.4, 9]
    spans = list(itertools.combinations(grid, 2))
    types = (None, "DIRECT", "AUTO", "PHYSICAL_DOT")
    for x, y in itertools.product(spans, spans):
        if max(x[0], y[0]) >= min(x[1], y[1]):
            continue
        for c1, c2 in itertools.product(types, types):
            if c1 is None and c2 is None and not deep:
                continue
            w1, w2 = x + ((c1,) if c1 else ()), y + ((c2,) if c2 else ())
            for dt in ((w1, w2), {"A": (w1, w2), D: (w2, w1)}):
                play(rec, w, dict(downtime=dt), h)


def _ms(rec, w, lo, hi):
    """window ends at every millisecond, written in seconds"""
    h = [(0, "Hit"), (lo, "Hit"), (hi, "Hit")]
    for ms in range(lo, hi):
        h = [(0, "Hit"), (ms, "Hit"), (ms + 1, "Slow")]
        play(rec, w, dict(downtime=((ms / 1000, 60.0),)), h)
        play(rec, w, dict(downtime={D: ((0.001, ms / 1000),)}), h)


def _hist(rec, w, names, gap, depth, first):
    """every sequence of skills with a window in the middle: events without damage, gauge, combo and effect bookkeeping"""
    o = [(n, None, None, tg) for n in names for tg in (None, "A, B")]
    for h in timed_histories(o, (gap,), depth, [(0, first)]):
        for dt in (((0.1, 1.6),), {D: ((0.0, 1.3),)}, {"B": ((0, 9),)}, ((1.3, 3.0, "DIRECT"),)):
            play(rec, w, dict(downtime=dt), h)


def _many(rec, w, i, form):
    """combs of up to 24 windows, of every phase"""
    h = ROTATIONS[i]
    for n in (7, 12, 24):
        step = 9.6 / n
        for ph in range(8):
            a = [round(-0.4 + ph * step / 8 + k * step, 3) for k in range(n)]
            ws = tuple((x, round(x + step / 2, 3)) + (("DIRECT",) if k % 5 == 4 else ()) for k, x in enumerate(a))
            for order in (ws, ws[::-1]):
                play(rec, w, dict(downtime=order if form is None else {form: order}), h)
                play(rec, w, dict(downtime=order if form is None else {form: order}, fight_start=700), h)


def units(tier):
    deep = tier == "thorough"
    w = world(skills(), **WKW)
    w.label = "downtime library"
    out = []
    for i in range(len(ROTATIONS)):
        for form in FORMS:
            for cls in CLASSES if deep else CLASSES[:4] + ("PET",):
                sets = [dict()] if not deep else [dict(), dict(fight_start=0), dict(snap_dots=0)]
                if cls == "PET" and not deep and i != 1:
                    continue
                for s in sets:
                    out.append(Unit("rotation %d %s %s %s" % (i, form, cls, s), _rot, w, i, s, form, cls, deep))
        out.append(Unit("two windows %d" % i, _two, w, i, deep))
        out.append(Unit("overlapping windows %d" % i, _overlap, w, i, deep))
        for form in FORMS:
            out.append(Unit("many windows %d %s" % (i, form), _many, w, i, form))
    for lo in range(1, 6000 if deep else 1000, 125):
        out.append(Unit("ms %d" % lo, _ms, w, lo, lo + 125))
    names = [s["name"] for s in w.spec["skills"]]
    o = [(n, None, None, tg) for n in names for tg in (None, "A, B")]
    out += trait_tree("windows", skills(), o, (1300,), settings=[dict(downtime=((0, 0.7), (1.2, 2.0, "DIRECT"), (3, 5))), dict(downtime={"B": ((0.3, 3.5),)})], **WKW)
    out += long_tree("walks", w, o, (None, 1300), [dict(downtime=((5.5, 20.1), (60.0, 61.3, "DIRECT"), (70, 90))), dict(downtime={"B": ((3, 40),), D: ((20, 30.5), (50.5, 70, "PHYSICAL_DOT"))})],
                     step=1 if deep else 8)
    for n in names:
        for tg in (None, "A, B"):
            out.append(Unit("history %s %s" % (n, tg), _hist, w, names, 1300, 3 if deep else 2, (n, None, None, tg)))
    return out


def bounds(tier):
    deep = tier == "thorough"
    return dict(traits=TRAITS_TEXT, windows="8 rotations (casts, travel, DoTs, follow-ups, buffs, gauges, combos, multi-target, conditional damage) x all "
                        "windows [a,b) with ends at every snapshot/landing moment and %s x every/one target x damage types" % (
                            "+-1 ms" if deep else "+1 ms"),
                pairs="all ordered pairs of windows over a grid of %d moments x 3 type pairs x 4 target forms" % (11 if deep else 7),
                overlaps="all pairs of overlapping/nested windows over a grid of %d moments x 16 type pairs x 2 target forms" % (9 if deep else 5),
                combs="7, 12 and 24 windows in 8 phases, both orders x 4 target forms",
                long=(LONG % ("" if deep else "eighth")) + " x 2 sets of windows",
                ms="window starting/ending at every ms of %s s" % (6 if deep else 1),
                histories="all sequences of 28 presses up to depth %d with 4 fixed windows" % (3 if deep else 2))
