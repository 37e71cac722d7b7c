"""The most specific matching condition decides: all key families x all condition sets x all spellings."""
from .. import adapt, ref
from ..engine import tick
from .base import *  # noqa: F401,F403
from . import base

ID = "C12"
prepare = lambda tier: base.prepare(ID)

CONDS = ("Alpha", "B x", "3 Cee")
SUBSETS = [frozenset(s) for n in range(4) for s in itertools.combinations(CONDS, n)]
FIELDS = ("damage", "timing", "buff", "debuff", "chan", "res", "combo", "fups")
T = dict(timing=dict(animation_lock=650))


def value(field, i):
    """the i-th distinguishable variant of a field"""
    return {
        "damage": lambda: dict(potency=100 + i),
        "timing": lambda: dict(animation_lock=600 + i, application_delay=100 + i, base_cast_time=10 * i),
        "buff": lambda: dict(duration=20000 + i, damage_mult=1 + 0.01 * (i + 1)),
        "debuff": lambda: dict(duration=20000 + i, crit_rate_add=0.01 * (i + 1)),
        "chan": lambda: dict(duration=1000 + 500 * i),
        "res": lambda: (dict(name="G", change=i + 1),),
        "combo": lambda: (dict(combo_group=i),),
        "fups": lambda: (dict(skill=dict(name="f%d" % i, damage=dict(potency=i + 1)), delay=100 * i),),
    }[field]()


def spell(s, k):
    """the k-th way of writing a condition set"""
    perms = list(itertools.permutations(sorted(s)))
    p = perms[k % len(perms)]
    sep = (", ", ",", " ,  ", ",\t")[(k // len(perms)) % 4]
    txt = sep.join(p)
    return txt if (k // (4 * len(perms))) % 2 == 0 else "  %s " % txt if txt else txt


def nspell(s):
    return 8 * max(1, len(list(itertools.permutations(sorted(s)))))


GET = {"damage": "get_damage_spec", "timing": "get_timing_spec", "buff": "get_buff_spec", "debuff": "get_debuff_spec",
       "chan": "get_channeling_spec", "res": "get_job_resource_spec", "combo": "get_combo_spec", "fups": "get_follow_up_skills"}


def mark(field, sp):
    """which variant is this?"""
    if sp is None:
        return None
    if field == "damage":
        return round(sp.potency - 100)
    if field == "timing":
        return sp.animation_lock - 600
    if field in ("buff", "debuff"):
        return sp.duration - 20000
    if field == "chan":
        return (sp.duration - 1000) // 500
    if field == "res":
        return sp[0].change - 1
    if field == "combo":
        return sp[0].combo_group
    return sp[0].delay_after_parent_application // 100


def families(with_none):
    """every set of condition sets that has a default (the variants of a skill)"""
    rest = [s for s in SUBSETS if s]
    for n in range(len(rest) + 1):
        for f in itertools.combinations(rest, n):
            yield (frozenset(),) + f


def _field(rec, field, lo, hi, deep):
    fams = list(families(False))[lo:hi]
    for fi, fam in enumerate(fams):
        for variant in range(4 if deep else 2):
            # keys may be written in any order and spelling; one variant may be "nothing"
            keys = list(fam) if variant % 2 == 0 else list(reversed(fam))
            none_at = len(keys) - 1 if variant >= 2 and field in ("damage", "buff", "debuff", "chan") else None
            alts, want = C(), {}
            for i, k in enumerate(keys):
                idx = SUBSETS.index(k)
                v = None if i == none_at else value(field, idx)
                alts[spell(k, fi + variant + i)] = v
                want[k] = None if v is None else idx
            d = dict(name="X", **dict(T, **{field: alts}))
            sk = adapt.i_skill(d)
            model = ref.Var(want)
            for conds in SUBSETS:
                for extra in (frozenset(), frozenset(["Other"]), frozenset(["Alpha2", "B"])):
                    try:
                        w = model.pick(conds | extra)
                    except ref.Ambiguous:
                        rec.skipped += 1
                        continue
                    n = nspell(conds | extra) if len(conds | extra) <= 2 or deep else 12
                    for k in range(n):
                        tick()
                        txt = spell(conds | extra, k)
                        m = adapt.SkillModifier(with_condition=txt)
                        got = mark(field, getattr(sk, GET[field])(m))
                        rec.count(checks=1)
                        rec.transitions += 1
                        if got != w:
                            rec.fail("variant of %s for conditions %r is #%s, should be #%s" % (field, txt, got, w),
                                     dict(keys=list(alts)))
                        m2 = adapt.SkillModifier()
                        for c in sorted(conds | extra, reverse=bool(k % 2)):
                            m2.add_to_condition(c if k % 3 else " %s " % c)
                        if mark(field, getattr(sk, GET[field])(m2)) != w:
                            rec.fail("variant of %s for conditions added one by one %r differs" % (field, txt), dict(keys=list(alts)))
                    rec.histories += 1
                    rec.state((field, fi + lo, variant, conds, extra))


SIX = ("Alpha", "B x", "3 Cee", "Dee", "No E", "F (f)")


def _six(rec, field, first):
    """families of nested and crossing variants over six conditions, up to six conditions per variant, all 64 condition sets"""
    subs = [frozenset(s) for n in range(7) for s in itertools.combinations(SIX, n)]
    perm = [first] + [c for c in SIX if c != first]
    chain = [frozenset(perm[:n]) for n in range(7)]
    fams = [chain, chain[:1] + chain[4:], chain[:1] + [chain[6]], chain[:2] + [chain[5]], chain[:1] + [frozenset(perm[1:]), frozenset(perm[2:])],
            chain[:4] + [frozenset(perm[k:]) for k in (3, 2, 1)], chain[:1] + [frozenset([c]) for c in SIX] + [chain[6]]]
    for fi, fam in enumerate(fams):
        fam = list(dict.fromkeys(fam))
        for keys in (fam, fam[::-1]):
            sk = adapt.i_skill(dict(name="X", **dict(T, **{field: C({spell(k, 5 * fi + i): value(field, i) for i, k in enumerate(keys)})})))
            model = ref.Var({k: i for i, k in enumerate(keys)})
            for conds in subs:
                for extra in ((), ("Other",)):
                    tick()
                    try:
                        want = model.pick(conds | set(extra))
                    except ref.Ambiguous:
                        rec.skipped += 1
                        continue
                    rec.count(checks=1)
                    rec.transitions += 1
                    for k in (0, 7):
                        txt = spell(conds | set(extra), k)
                        if mark(field, getattr(sk, GET[field])(adapt.SkillModifier(with_condition=txt))) != want:
                            rec.fail("variant of %s for conditions %r is not #%s" % (field, txt, want), dict(keys=[sorted(x) for x in keys]))
                rec.histories += 1
                rec.state((field, first, fi, conds))


def _pipe(rec, field, lo, hi):
    """the same selection seen through a whole simulation: timeline and damage instances against the model"""
    for fi, fam in enumerate(list(families(False))[lo:hi]):
        alts = C({spell(k, fi + i): value(field, SUBSETS.index(k)) for i, k in enumerate(fam)})
        d = dict(dict(name="X", damage=dict(potency=50), gcd=True), **dict(T, **{field: alts}))
        probe = dict(name="Y", damage=C(dict({"": dict(potency=10), "No Combo": dict(potency=9)},
                                             **{"%d G" % (i + 1): dict(potency=20 + i) for i in range(8)})),
                     combo=(dict(combo_group=3, combo_actions=("X",)),), **GCD)
        w = world([d, probe], gauges={"G": dict(max_value=100, skill_allowlist=("Y",))})
        w.label = "%s %s" % (field, list(alts))
        for j, conds in enumerate(SUBSETS):
            for extra in ((), ("Other",)):
                m = dict(cond=spell(conds | set(extra), j + fi))
                for s in (dict(fight_start=0), dict(autos=True)):
                    play(rec, w, s, [(0, "X", m), (2500, "Y"), (9000, "Y")])
                play(rec, w, dict(), [(None, "X", m), (None, "Y"), (None, "Y")])


def _published(rec, keys):
    """conditions published by effects, gauges and combos take part in the same way"""
    d = dict(name="X", damage=C({spell(frozenset(k), i): dict(potency=100 + i) for i, k in enumerate(keys)}),
             combo=(dict(combo_actions=("Z",)),), **GCD)
    sk = [d, dict(name="Buf", buff=dict(duration=9000, add_to_skill_modifier_condition=True), **OGCD),
          dict(name="Deb", debuff=dict(duration=9000, add_to_skill_modifier_condition=True), **OGCD),
          dict(name="Gn", res=(dict(name="G", change=5),), **OGCD), dict(name="Z", damage=dict(potency=1), combo=(dict(),), **GCD)]
    w = world(sk, gauges={"G": dict(max_value=10, skill_allowlist=("X",))})
    w.label = "published conditions %s" % (keys,)
    for n in range(4):
        for pre in itertools.permutations(("Buf", "Deb", "Gn", "Z"), n):
            for cond in ("", "Man", "Man,Buf", " Man ,5 G"):
                h = [(i * 700, p) for i, p in enumerate(pre)] + [(700 * n, "X", dict(cond=cond)), (700 * n + 2500, "X")]
                play(rec, w, dict(fight_start=0), h)


def _real(rec, v, lv, job):
    """every real skill: for every set of its own conditions, the variant the model picks from the same data"""
    lib = real_library(v, lv)
    for n, s in adapt.library_skills(lib, job).items():
        m = adapt.f_skill(s)
        conds = sorted({c for f in FIELDS for v_ in [getattr(m, {"chan": "chan"}.get(f, f))] if type(v_) is ref.Var
                        for k in v_.alts for c in k if not c.startswith("Target ")})
        if not conds:
            continue
        sets = [frozenset(c) for k in range(0, 4) for c in itertools.combinations(conds, k)] if len(conds) <= 12 else \
               [frozenset(c) for k in range(0, 3) for c in itertools.combinations(conds, k)]
        sets += [frozenset(conds)]
        for cs in sets:
            tick()
            mod = adapt.SkillModifier(with_condition=",".join(sorted(cs)))
            mod2 = adapt.SkillModifier(with_condition=" , ".join(sorted(cs, reverse=True) + ["Unrelated condition"]))
            for f, conv in (("damage", adapt.f_damage), ("buff", adapt.f_effect), ("debuff", adapt.f_effect)):
                var = getattr(m, f)
                if type(var) is not ref.Var:
                    continue
                try:
                    want = var.pick(cs)
                except (ref.Ambiguous, ref.Illegal):
                    rec.skipped += 1
                    continue
                for mm in (mod, mod2):
                    rec.count(checks=1)
                    rec.transitions += 1
                    if conv(getattr(s, GET[f])(mm)) != want:
                        rec.fail("%s (%s %s %s): %s variant for %r" % (n, job, v, lv, f, sorted(cs)))
            rec.histories += 1
            rec.state((n, cs))


def units(tier):
    deep = tier == "thorough"
    out = []
    total = 2 ** 7
    for f in FIELDS:
        for lo in range(0, total, 16):
            out.append(Unit("select %s %d" % (f, lo), _field, f, lo, lo + 16, deep))
            if lo < 96:
                out.append(Unit("six %s %s" % (f, SIX[lo // 16]), _six, f, SIX[lo // 16]))
            if deep or lo < 32:
                out.append(Unit("simulate %s %d" % (f, lo), _pipe, f, lo, lo + (16 if deep else 8)))
    pub = [("",), ("Buf",), ("Deb",), ("5 G",), ("No Combo",), ("Man",), ("Buf", "Deb"), ("Buf", "5 G"), ("Man", "Buf"),
           ("No Combo", "Buf"), ("Buf", "Deb", "5 G"), ("Man", "Buf", "5 G", "No Combo")]
    fixed = [(), ("Buf",), ("Deb",)]
    for extra in itertools.combinations(pub[3:], 2 if not deep else 3):
        out.append(Unit("published %s" % (extra,), _published, tuple(fixed) + tuple(extra)))
    for v, lv in (CONFIGS if deep else (("6.55", 90), ("7.1", 100))):
        for j in jobs_of(real_library(v, lv)):
            out.append(Unit("real %s %s %s" % (v, lv, j), _real, v, lv, j))
    return out


def bounds(tier):
    deep = tier == "thorough"
    return dict(selection="all 128 variant families with a default over 3 conditions x 8 fields x all 8 condition sets x 3 sets of unrelated "
                          "conditions x all written orders/spacings (%s)" % ("all" if deep else "12 of them for 3 conditions and more"),
                six="7 nested/crossing families x 6 rotations over 6 conditions (up to 6 per variant) x all 64 condition sets",
                simulation="%d of the families x 8 fields x 16 condition sets through the whole simulation" % (128 if deep else 16),
                published="conditions published by buffs, debuffs, gauges and combos: all orders of up to 3 of 4 sources x 4 written conditions",
                real="every real skill with conditions x all sets of up to 3 of its own conditions, %s" % ("9 configurations" if deep else "2 configurations"))
