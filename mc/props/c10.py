from ..engine import tick
from .base import *  # noqa: F401,F403
from . import base
from . import c08, c09

ID = "C10"
prepare = lambda tier: base.prepare(ID)

EXTRA = [dict(name="Early", timing=dict(animation_lock=600), gcd=False,
              fups=(dict(skill=dict(name="late hit", damage=dict(potency=5)), delay=4000),)),
         dict(name="Nop", timing=dict(animation_lock=600), gcd=False),
         dict(name="Fast", buff=dict(duration=6000, auto_attack_delay_reduction=0.25), **OGCD),
         dict(name="PreDot", timing=dict(animation_lock=600), gcd=True,
              fups=(dict(skill=dict(name="pre", damage=dict(potency=1, damage_class="PHYSICAL_DOT")), dot=9000),)),
         dict(name="Ch", chan=dict(duration=3000), damage=dict(potency=9), **OGCD)]


def shifted(h, d):
    return [(p[0] + d,) + tuple(p[1:]) for p in h]


def _same(rec, w, settings, h, deltas):
    """the implementation's own answers for the rotation and for the shifted rotation coincide"""
    tick()
    base_ = w.i_run(settings, h)
    rec.histories += 1
    if w.r_build(dict(settings, downtime=()), h).timeline()._first_damage() is None:
        deltas = ()          # without damage a rotation is left as it is
    for d in deltas:
        got = w.i_run(settings, shifted(h, d))
        rec.count(checks=1)
        rec.histories += 1
        for a, b, what in zip(base_, got, ("events", "presses", None, "damage instances")):
            if what and a != b:
                rec.fail("%s change when all presses move by %s ms: %r vs %r" % (
                    what, d, [x for x in a if x not in b][:2], [x for x in b if x not in a][:2]),
                    dict(settings=settings, presses=h, delta=d))
    rec.transitions += len(base_[0])
    rec.state(tuple(base_[0]))
    if "fight_start" not in settings:
        # first damage at zero
        times = [x[0] for x in base_[2]]
        if times and not settings.get("downtime") and min(times) != 0:
            rec.fail("first damage lands at %r" % min(times), dict(settings=settings, presses=h))


def _meta(rec, w, settings, options, gaps, depth, first, deltas):
    for h in timed_histories(options, gaps, depth, first):
        for s in settings:
            rec.sample([s, h])
            dd = deltas if s.get("snap_dots") is None else tuple(d * 3000 for d in (-2, 1, 7))
            _same(rec, w, s, h, dd)


def _model(rec, w, settings, options, gaps, depth, first):
    for h in timed_histories(options, gaps, depth, first):
        for s in settings:
            play(rec, w, s, h)


def _start(rec, w, options, depth, first):
    """with a start time: nothing moves; ordered lists start there"""
    for n in range(1, depth + 1):
        for rest in itertools.product(options, repeat=n - 1):
            hs = [first] + list(rest)
            seq = [(None,) + o for o in hs]
            for fs in (0, 1000, -500):
                play(rec, w, dict(fight_start=fs), seq)
            play(rec, w, dict(), seq)
            timed = [(700 * i - 900,) + o for i, o in enumerate(hs)]
            play(rec, w, dict(fight_start=0), timed)
            play(rec, w, dict(fight_start=0, autos=True), timed)
            play(rec, w, dict(), timed + [(None,) + first])


def _walk(rec, w, options, stride, length, gap, step):
    """long rotations and their shifted copies"""
    n = len(options)
    for start in range(0, n, step):
        h = [(gap * k,) + options[(start + stride * k) % n] for k in range(length)]
        for s in (dict(), dict(autos=True)):
            play(rec, w, s, h)
            _same(rec, w, s, h, (-7654321, 7 * 10 ** 6))


def units(tier):
    deep = tier == "thorough"
    w = world(c09.skills() + EXTRA, **c09.WKW)
    w.label = "downtime library + pre-pull skills"
    names = [s["name"] for s in w.spec["skills"]]
    o = opts(names) + [("Aoe", None, None, "A, B"), ("Aoe", None, None, "A,B,C,D,E,F,G,H,I,J,K,L"), ("Opt", dict(cond="Soft"), None, None), ("Cast", dict(no_cast=True), None, None)]
    sets = [dict(), dict(autos=True), dict(snap_dots=0), dict(ignore_trailing=True, autos=True),
            dict(downtime=((0.5, 1.7), (3.0, 3.6, "DIRECT")), autos=True), dict(downtime={"A": ((0, 2),)}),
            dict(snap_dots=1.3)]
    deltas = (-4000011, -45678, -12345, -1, 1, 10, 999, 3000, 100000, 1234567) if deep else (-12345, -1, 10, 999, -45678, 1234567)
    out = []
    for i, f in enumerate(o):
        out.append(Unit("shift/%d" % i, _meta, w, sets if deep else sets[:6], o, (0, 700, 2647) if deep else (0, 1303), 2, [(0, f)], deltas))
        out.append(Unit("model/%d" % i, _model, w, sets, o, (0, 700, 1340, 4000), 2, [(0, f)]))
        out.append(Unit("start/%d" % i, _start, w, o, 3 if deep else 2, f))
    for i, f in enumerate(o):
        out.append(Unit("far/%d" % i, _model, w, [dict(), dict(fight_start=0)], o, (31000, 3600500), 2, [(0, f)]))
    out += trait_tree("model", w.spec["skills"], o, (1303,), settings=(dict(autos=True),), **c09.WKW)
    for st in range(1, len(o)):
        out.append(Unit("walk/%d" % st, _walk, w, o, st, 50, 900 if st % 2 else 2500, 3 if deep else 12))
    core = opts(["Buff", "Slow", "Cast", "Dot", "Pet", "Early", "Spend", "Gain", "Nop"])
    for i, f in enumerate(core):
        out.append(Unit("shift3/%d" % i, _meta, w, [dict(autos=True), dict()], core, (503, 2000) if deep else (707,), 3,
                        [(0, f)], (-777, -98765, 10 ** 7)))
    return out


def bounds(tier):
    deep = tier == "thorough"
    return dict(traits=TRAITS_TEXT, metamorphic="all rotations of 25 presses up to depth 2 (9 presses: 3) x %d gaps x %d settings (autos, server ticks, trailing, "
                            "downtime), each against %d shifted copies (3 multiples of the tick with server ticks)" % (
                                3 if deep else 2, 7 if deep else 6, 10 if deep else 6),
                walks="rotations of 50 presses with every stride from every %s start, against the model and two shifted copies" % ("3rd" if deep else "12th"),
                model="the same alphabet x 4 gaps x 7 settings, and gaps of 31 s and 1 h, against the model; ordered lists with start times 0, 1 s, -0.5 s up to depth %d" % (
                    3 if deep else 2))
