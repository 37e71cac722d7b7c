"""has_buff / has_debuff / has_party_buff / has_party_debuff: every placement of effects, every skill of every library."""
from .. import adapt
from ..engine import tick
from .base import *  # noqa: F401,F403
from . import base
from .c20 import chunk

ID = "C25"
prepare = lambda tier: base.prepare(ID)
FLAGS4 = ("has_buff", "has_debuff", "has_party_buff", "has_party_debuff")
OWN, PARTY = dict(duration=1000, damage_mult=1.1), dict(duration=1000, damage_mult=1.1, is_party_effect=True)
# what can stand where an effect stands: nothing, one effect, or a choice by condition
SLOTS = (None, OWN, PARTY, C({"": None}), C({"": OWN, "X": None}), C({"": None, "X": PARTY}), C({"": PARTY, "X": OWN}), C({"": OWN, "X": OWN}))
CLEAR, ZERO, BARE = dict(duration=0, clear_all_status_effects=True), dict(duration=0), dict()
EDGE = (None, OWN, CLEAR, ZERO, BARE, C({"": CLEAR}), dict(BARE, is_party_effect=True), C({"": None, "X": ZERO}))
LONG = (None, PARTY, C({"": None, "X": None, "Y": None, "X, Y": OWN, "Z": None}), C({"": OWN, "X": None, "Y": OWN, "X, Y": OWN, "Z": PARTY}))
SHORT = (None, OWN, PARTY, C({"": None, "X": PARTY}))


def variants(slot):
    return [x for x in (slot.values() if isinstance(slot, C) else [slot]) if x is not None]


def gives(s):
    """own computation: [buff, debuff, party buff, party debuff] of a neutral skill"""
    out = []
    f = s.get("fups") or ()
    fups = [x["skill"] for alt in (f.values() if isinstance(f, C) else [f]) for x in alt]
    for party in (False, True):
        for k in ("buff", "debuff"):
            es = [e for x in [s] + fups for e in variants(x.get(k))]
            out.append(any(e.get("is_party_effect", False) or not party for e in es))
    return tuple(out)


def check(rec, s):
    sk = adapt.i_skill(s)
    got = tuple(getattr(sk, f) for f in FLAGS4)
    want = gives(s)
    rec.histories += 1
    rec.transitions += 4
    rec.state((want, len(rec.seen) % 64))
    if tuple(map(bool, got)) != want or not all(isinstance(g, bool) for g in got):
        bad = [(f, g) for f, g, w in zip(FLAGS4, got, want) if g != w]
        rec.fail("skill reports %r" % (bad,), s)


def mk(name, b, d):
    x = dict(name=name, timing=dict(animation_lock=100))
    if b is not None:
        x["buff"] = b
    if d is not None:
        x["debuff"] = d
    return x


def _self(rec):
    for b in SLOTS:
        for d in SLOTS:
            for dmg_ in (None, dict(potency=10)):
                s = mk("S", b, d)
                if dmg_:
                    s["damage"] = dmg_
                check(rec, s)


def _fups(rec, owns, slots, n, shapes):
    for b, d in owns:
        tick()
        for fs in itertools.product(slots, repeat=n):
            fups = [dict(skill=mk("f%d" % i, x, y)) for i, (x, y) in enumerate(fs)]
            for shape in shapes:
                s = mk("S", b, d)
                if shape == "tuple":
                    s["fups"] = tuple(fups)
                elif shape == "default only":
                    s["fups"] = C({"": tuple(fups)})
                elif shape == "one each":
                    s["fups"] = C({"" if i == 0 else "X%d" % i: (f,) for i, f in enumerate(fups)})
                elif shape == "one, rest":
                    s["fups"] = C({"": tuple(fups[:1]), "X": tuple(fups[1:])})
                else:
                    s["fups"] = C({"": (), "X": tuple(fups)})
                rec.sample(s)
                check(rec, s)


def _rows(rec, n, shapes):
    for k in range(n):
        for slot in LONG[1:]:
            for pair in ((slot, None), (None, slot)):
                row = [(None, None)] * n
                row[k] = pair
                for own in ((None, None), (OWN, None)):
                    for shape in shapes:
                        fups = [dict(skill=mk("f%d" % i, x, y)) for i, (x, y) in enumerate(row)]
                        s = mk("S", *own)
                        s["fups"] = tuple(fups) if shape == "tuple" else C({"": tuple(fups)}) if shape == "default only" else \
                            C({"" if i == 0 else "X%d" % i: (f,) for i, f in enumerate(fups)}) if shape == "one each" else \
                            C({"": tuple(fups[:1]), "X": tuple(fups[1:])}) if shape == "one, rest" else C({"": (), "X": tuple(fups)})
                        check(rec, s)


# kinds of follow-up and of skill: nothing but the effects may matter
FUP_KINDS = [dict(), dict(dot=9000), dict(dot=0), dict(delay=4000), dict(primary_only=False), dict(buffs=False), dict(debuffs=False),
             dict(buffs=False, debuffs=False, delay=700), dict(dot=30000, buffs=False, primary_only=False)]
SKILL_KINDS = [dict(), dict(damage=dict(potency=10)), dict(damage=dict(potency=10, damage_class="PHYSICAL_DOT")), dict(gcd=False),
               dict(res=(dict(name="G", change=1),)), dict(combo=(dict(),)), dict(chan=dict(duration=3000)), dict(deny=("f0", "S")),
               dict(damage=dict(potency=10), falloff=0.5, aoe=True), dict(offcond="X"), dict(res_snap=False)]


def _kinds(rec, slots, shapes):
    for fk in FUP_KINDS:
        tick()
        for pk in SKILL_KINDS:
            for ck in SKILL_KINDS:
                for x, y in slots:
                    for other in (None, dict(skill=mk("g", None, None))):
                        f = dict(fk, skill=dict(mk("f0", x, y), **ck))
                        fups = (f,) if other is None else (other, f)
                        for shape in shapes:
                            s = dict(mk("S", None, None), **pk)
                            s["fups"] = fups if shape == "tuple" else C({"": fups}) if shape == "default only" else C({"": (), "X": fups})
                            check(rec, s)


def _parent(rec):
    for pk in SKILL_KINDS:
        for a, b in itertools.product(SLOTS, repeat=2):
            check(rec, dict(mk("S", a, b), **pk))


def i_gives(s):
    """the same, read off a skill object's data"""
    out = []
    fu = s.follow_up_skills
    fups = [x.skill for alt in (fu.values() if isinstance(fu, dict) else [fu or ()]) for x in alt]
    for party in (False, True):
        for k in ("buff_spec", "debuff_spec"):
            es = []
            for x in [s] + fups:
                v = getattr(x, k)
                es += [e for e in (v.values() if isinstance(v, dict) else [v]) if e is not None]
            out.append(any(e.is_party_effect or not party for e in es))
    return tuple(out)


def _real(rec, v, lv):
    lib = real_library(v, lv)
    for job in lib.get_jobs():
        tick()
        for n, s in adapt.library_skills(lib, job).items():
            got = tuple(getattr(s, f) for f in FLAGS4)
            rec.histories += 1
            rec.transitions += 4
            rec.state((job, n, got))
            if got != i_gives(s):
                rec.fail("%s/%d %s %s reports %r, its data give %r" % (v, lv, job, n, got, i_gives(s)), n)


def units(tier):
    deep = tier == "thorough"
    ALL = ("tuple", "default only", "one each", "one, rest", "rest under condition")
    out = [Unit("self", _self)]
    pairs = list(itertools.product(SLOTS, repeat=2))
    edge = list(itertools.product(EDGE, repeat=2))
    short = list(itertools.product(SHORT, repeat=2))
    few = [(None, None), (OWN, None), (PARTY, None), (None, PARTY), (None, OWN), (PARTY, PARTY)]
    for i, c in enumerate(chunk(pairs, 8)):
        out.append(Unit("one follow-up %d" % i, _fups, c, pairs, 1, ALL))
    for i, c in enumerate(chunk(edge, 32)):
        out.append(Unit("one follow-up, empty effects %d" % i, _fups, c, edge, 1, ALL))
    long = list(itertools.product(LONG, repeat=2))
    out.append(Unit("long choices", _fups, long, long, 1, ALL))
    out.append(Unit("kinds of skills", _parent))
    for x in itertools.product(SHORT, repeat=2):
        out.append(Unit("kinds of follow-ups %r" % (x,), _kinds, [x], ("tuple", "default only", "under a condition")))
    for n in range(4, 9):               # the only effect stands last or first of many follow-ups
        out.append(Unit("%d follow-ups" % n, _rows, n, ALL))
    for i, c in enumerate(chunk(pairs if deep else short, 4)):
        out.append(Unit("two follow-ups %d" % i, _fups, c, pairs if deep else short, 2, ALL))
    for i, c in enumerate(chunk(short if deep else few, 1)):
        out.append(Unit("three follow-ups %d" % i, _fups, c, short if deep else few, 3, ALL))
    for v, lv in CONFIGS:
        out.append(Unit("real %s/%d" % (v, lv), _real, v, lv))
    return out


def bounds(tier):
    deep = tier == "thorough"
    return dict(kinds="9 kinds of follow-ups x 11 kinds of follow-up skills x 11 kinds of skills x 16 placements", long="choices of 5 variants (16 x 16), one effect in each place of 4 to 8 follow-ups", empty="the same with effects that have no duration or number, or only clear others (64 x 64)", placements="8 x 8 (buff, debuff) slots on the skill x 64 on one follow-up; %d on two; %d on three; 5 ways of listing follow-ups" % (
        (64 * 64 * 64, 16 ** 4) if deep else (16 ** 3, 6 ** 4)), real="all skills of all 9 libraries")
