"""Shared by all property modules: probes, enumeration helpers."""
import itertools

from .. import findings
from ..engine import Unit
from ..world import C, RealWorld, World, conform, full, CONFIGS, real_library, jobs_of

FLAGS = {}
GCD = dict(timing=dict(animation_lock=650), gcd=True)
OGCD = dict(timing=dict(animation_lock=650), gcd=False)


def prepare(pid):
    flags, known, broken = findings.probe_all()
    FLAGS.clear()
    FLAGS.update(flags)
    return known.get(pid, []), broken.get(pid)


def world(skills, **kw):
    return World(skills, flags=dict(FLAGS), **kw)


def play(rec, w, settings, presses, parts=("events", "presses", "instances"), label=None):
    bad = conform(w, settings, presses, rec, parts)
    if bad:
        rec.fail(bad, dict(world=label or getattr(w, "label", None) or [s["name"] for s in w.spec["skills"]]
                           if hasattr(w, "spec") else (w.version, w.level, w.job),
                           settings=settings, presses=presses))


def opts(names, mods=(None,), jobs=(None,), targets=(None,)):
    """press options without a time"""
    return [(n, m, j, t) for n in names for m in mods for j in jobs for t in targets]


def seq_histories(options, depth, first=None, shortest=1):
    """all ordered-list histories of length shortest..depth (optionally with a fixed prefix)"""
    first = first or []
    for n in range(max(shortest, len(first)), depth + 1):
        for rest in itertools.product(options, repeat=n - len(first)):
            yield [(None,) + o for o in list(first) + list(rest)]


def timed_histories(options, gaps, depth, first=None, shortest=1, start=0, suffix=()):
    """all histories of presses at given times; a step is (gap, option); the first press is at `start`;
    `suffix` is a fixed observation appended to each"""
    steps = [(g, o) for g in gaps for o in options]
    first = first or []
    for n in range(max(shortest, len(first)), depth + 1):
        for rest in itertools.product(steps, repeat=n - len(first)):
            t, out = start, []
            for i, (g, o) in enumerate(list(first) + list(rest) + list(suffix)):
                t += g if i else 0
                out.append((t,) + o)
            yield out


def _seq(rec, w, settings, options, depth, first, shortest):
    for h in seq_histories(options, depth, first, shortest):
        for s in settings:
            rec.sample([s, h])
            play(rec, w, s, h)


def _timed(rec, w, settings, options, gaps, depth, first, shortest, suffixes=((),)):
    for suffix in suffixes:
        for h in timed_histories(options, gaps, depth, first, shortest, suffix=suffix):
            for s in settings:
                rec.sample([s, h])
                play(rec, w, s, h)


def seq_tree(name, w, settings, options, depth):
    """units covering every ordered-list history up to depth, split by the first two presses"""
    w.label = name
    out = []
    split = 1 if depth <= 2 or len(options) ** depth < 3000 else 2
    if split == 2:
        out.append(Unit("%s/1" % name, _seq, w, settings, options, 1, None, 1))
    for i, f in enumerate(itertools.product(options, repeat=split)):
        out.append(Unit("%s/%s" % (name, i), _seq, w, settings, options, depth, list(f), split))
    return out


def timed_tree(name, w, settings, options, gaps, depth, suffixes=((),)):
    w.label = name
    steps = [(g, o) for g in gaps for o in options]
    out = []
    for i, o in enumerate(options):
        f = [(0, o)]
        if depth <= 2 or len(steps) ** (depth - 1) < 1500:
            out.append(Unit("%s/%d" % (name, i), _timed, w, settings, options, gaps, depth, f, 1, suffixes))
        else:
            out.append(Unit("%s/%d" % (name, i), _timed, w, settings, options, gaps, 1, f, 1, suffixes))
            for k, s in enumerate(steps):
                out.append(Unit("%s/%d.%d" % (name, i, k), _timed, w, settings, options, gaps, depth, f + [s], 2,
                                suffixes))
    return out


def _far(rec, w, settings, options, gaps, first, start, suffixes):
    for suffix in suffixes:
        for h in timed_histories(options, gaps, 2, [(0, first)], 1, start, suffix):
            for s in settings:
                rec.sample([s, h])
                play(rec, w, s, h)


STARTS = (-7003, 4000003)
FAR = "pairs again from -7 s (before the start of the fight) and from 4000 s, without normalisation"


def far_tree(name, w, options, gaps, suffixes=((),), starts=STARTS, settings=(dict(fight_start=0),)):
    """the pairs again, before the start of the fight and after more than an hour (no normalisation)"""
    w.label = w.__dict__.get("label") or name
    return [Unit("%s/far %d %d" % (name, st, i), _far, w, list(settings), options, gaps, o, st, suffixes)
            for st in starts for i, o in enumerate(options)]


def _long(rec, w, settings, options, stride, length, gaps, step):
    n = len(options)
    for start in range(0, n, step):
        seq = [options[(start + stride * k) % n] for k in range(length)]
        for g in gaps:
            h = [(None if g is None else g * k,) + o for k, o in enumerate(seq)]
            for s in settings:
                rec.sample([s, h])
                play(rec, w, s, h)


LONG = "walks of 70 presses through the alphabet with every stride from every %s start"


def long_tree(name, w, options, gaps=(900, 2500), settings=(dict(fight_start=0),), length=70, step=5):
    """long histories: walks through the alphabet with every stride (so that every press is followed by every other one)"""
    w.label = w.__dict__.get("label") or name
    return [Unit("%s/long %d" % (name, st), _long, w, list(settings), options, st, length, gaps, step) for st in range(1, len(options))]


# ---- traits that should not matter: every skill of a library gets one, every pair of presses is played again
TRAITS = ("area", "deny list", "gauge", "combo", "channel", "choices", "cooldown", "follow-up", "buff", "debuff", "gauge on landing", "party")
MODS = (dict(cond="Zz"), dict(bonus=37), dict(crit="YES"), dict(dh="NO"), dict(no_cast=True), dict(no_delay=True), dict(force_combo=True),
        dict(cond="Zz, Yy", dh="YES", crit="NO"))
TRAITS_TEXT = "pairs again with each of 12 traits added to every skill and each of 8 modifiers to every press"


def _choice(v, other):
    return v if v is None or isinstance(v, C) else C({"": v, "Nowhere": other})


def with_trait(sk, trait, nested=False):
    s = dict(sk)
    if trait == "area":
        s["aoe"] = True
    elif trait == "deny list":
        s["deny"] = tuple(s.get("deny", ())) + ("Nothing",)
    elif trait == "gauge":
        if not s.get("res"):
            s["res"] = (dict(name="Zz", change=1),)
    elif trait == "combo":
        if not s.get("combo"):
            s["combo"] = (dict(combo_group=77),)
    elif trait == "channel":
        if s.get("chan") is None and not nested:
            s["chan"] = dict(duration=200)
    elif trait == "choices":
        for k, o in (("damage", dict(potency=1)), ("timing", dict(animation_lock=1)), ("buff", None), ("debuff", None)):
            if s.get(k) is not None and not (k == "damage" and s.get("falloff") is not None):
                s[k] = _choice(s[k], o)
    elif trait == "cooldown":
        s["gcd"] = not s.get("gcd", True)
    elif trait == "follow-up":
        if not nested and not isinstance(s.get("fups"), C):
            s["fups"] = tuple(s.get("fups") or ()) + (dict(skill=dict(name="zf"), delay=50),)
    elif trait in ("buff", "debuff"):
        if s.get(trait) is None:
            s[trait] = dict(duration=300, damage_mult=1.01)
    elif trait == "gauge on landing":
        s["res_snap"] = not s.get("res_snap", True)
    elif trait == "party":
        for k in ("buff", "debuff"):
            v = s.get(k)
            if v is not None:
                s[k] = C({c: None if x is None else dict(x, is_party_effect=True) for c, x in v.items()}) if isinstance(v, C) else \
                    dict(v, is_party_effect=True)
    if s.get("fups"):           # (which of two simultaneous ticks with effects of their own is first is not stated)
        f = lambda fs: tuple(dict(x, skill=with_trait(x["skill"], trait, True))
                             if x.get("dot") is None or trait not in ("buff", "debuff") else x for x in fs)
        s["fups"] = C({c: f(x) for c, x in s["fups"].items()}) if isinstance(s["fups"], C) else f(s["fups"])
    return s


def _pairs(name, w, settings, options, gaps, first, suffixes):
    if gaps is None:            # ordered list
        return Unit(name, _seq, w, settings, options, 2, [first], 1)
    return Unit(name, _timed, w, settings, options, gaps, 2, [(0, first)], 1, suffixes)


def trait_tree(name, sk, options, gaps, suffixes=((),), settings=(dict(),), traits=TRAITS, mods=MODS, **kw):
    out = []
    for tr in traits:
        k = dict(kw)
        if tr == "gauge":
            k["gauges"] = dict(kw.get("gauges") or {}, Zz=dict(max_value=9))
        w = world([with_trait(x, tr) for x in sk], **k)
        w.label = "%s, every skill with %s" % (name, tr)
        for i, o in enumerate(options):
            out.append(_pairs("%s/with %s %d" % (name, tr, i), w, list(settings), options, gaps, o, suffixes))
    w = world(sk, **kw)
    w.label = name
    for n, m in enumerate(mods):
        oo = [(o[0], dict(o[1] or {}, **{k: v for k, v in m.items() if k not in (o[1] or {})})) + tuple(o[2:]) for o in options]
        for i, o in enumerate(oo):
            out.append(_pairs("%s/modifier %d %d" % (name, n, i), w, list(settings), oo, gaps, o, suffixes))
    return out


def size_seq(k, depth):
    return sum(k ** n for n in range(1, depth + 1))


def size_timed(k, g, depth):
    return sum(k * (k * g) ** (n - 1) for n in range(1, depth + 1))


__all__ = [n for n in dir() if not n.startswith("_")]
