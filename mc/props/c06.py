from .base import *  # noqa: F401,F403
from . import base

ID = "C06"
prepare = lambda tier: base.prepare(ID)


def skills():
    def c(name, actions=(), group=0, d=0, cast=0, fail=True, **kw):
        dmg = C({"": dict(potency=200), "No Combo": dict(potency=100)}) if fail else dict(potency=150)
        spec = dict(combo_actions=actions, combo_group=group)
        spec.update(kw.pop("spec", {}))
        return dict(name=name, damage=dmg, combo=kw.pop("combo", (spec,)),
                    timing=dict(animation_lock=600, application_delay=d, base_cast_time=cast), gcd=True, **kw)
    return [
        c("A1"),
        c("A2", ("A1",), d=500),
        c("A3", ("A2", "Z2", "C2"), cast=2000),
        c("B1", group=1),
        c("B2", ("B1",), 1),
        c("C1", group=2),                 # breaks group 0
        c("C2", ("C1", "A1"), 2),
        c("Au", ("A2",), spec=dict(combo_auto_succeed=True)),
        c("Dual", combo=(dict(combo_actions=("A1",)), dict(combo_actions=("B1",), combo_group=1))),
        c("Z2", ("A1",), fups=C({"": (), "No Combo": (dict(skill=dict(name="zf", damage=dict(potency=7))),)})),
        c("Sw", combo=C({"": (dict(combo_actions=("A1",)),), "B": (dict(combo_actions=("B1",), combo_group=1),)})),
        c("Rs1", combo=(dict(break_all_combos_only=True), dict())),
        c("Rs2", combo=(dict(combo_actions=("A1",)), dict(break_all_combos_only=True), dict(combo_actions=("B1",), combo_group=1))),
        c("A4", ("Au", "A3", "Dual", "Sw", "Rs1", "A4")),
        c("B3", ("Dual", "Sw", "Rs2", "B2"), 1),
        dict(name="N", damage=dict(potency=10), timing=dict(animation_lock=600), gcd=True),
        dict(name="Fu", damage=dict(potency=11), timing=dict(animation_lock=600), gcd=True,
             fups=(dict(skill=dict(name="A1", combo=(dict(),)), delay=300),)),
        dict(name="Die", timing=dict(animation_lock=0), gcd=False,
             fups=(dict(skill=dict(name="Die", combo=(dict(break_all_combos_only=True),))),)),
    ]


BREAK = {0: (2,), 2: (0, 1)}


def wide(rec):
    """long lists: a step that continues any of nine skills, nine groups broken by one, every ordered triple"""
    n = 9
    dmg = C({"": dict(potency=200), "No Combo": dict(potency=100)})
    sk = [dict(name="s%d" % i, damage=dmg, combo=(dict(combo_group=i),), **GCD) for i in range(n)]
    sk += [dict(name="g%d" % i, damage=dmg, combo=(dict(combo_actions=("s%d" % i,), combo_group=i),), **GCD) for i in range(n)]
    sk += [dict(name="z%d" % i, damage=dmg, combo=(dict(combo_group=20),), **GCD) for i in range(n)]
    sk += [dict(name="any", damage=dmg, combo=(dict(combo_actions=tuple("z%d" % i for i in range(n)), combo_group=20),), **GCD),
           dict(name="brk", damage=dmg, combo=(dict(combo_group=30),), **GCD),
           dict(name="all", damage=dmg, combo=tuple(dict(combo_actions=("s%d" % i,), combo_group=i) for i in range(n)), **GCD),
           dict(name="end", damage=dmg, combo=tuple(dict(combo_actions=("all",), combo_group=i) for i in range(4)), **GCD)]
    sk += [dict(name="t%d" % i, damage=dmg, combo=(dict(combo_actions=("all",), combo_group=i),), **GCD) for i in range(n)]
    w = world(sk, breakers={**{i: (40, 41, 42, 43, 44, 30) for i in range(n)}, 20: (0,)})
    w.label = "wide"
    for i in range(n):
        for j in range(n):
            for tail in (["s%d" % i, "brk", "g%d" % j], ["s%d" % i, "s%d" % j, "g%d" % i, "g%d" % j], ["z%d" % i, "s%d" % j, "any"],
                         ["z%d" % i, "any", "z%d" % j, "any"], ["s%d" % i, "all", "t%d" % j], ["s%d" % i, "s%d" % j, "all", "end"]):
                play(rec, w, dict(), [(None, x) for x in tail])
                play(rec, w, dict(fight_start=0), [(4000 * k - 3000, x) for k, x in enumerate(tail)])


def units(tier):
    deep = tier == "thorough"
    sk = skills()
    w = world(sk, breakers=BREAK)
    names = [s["name"] for s in sk]
    alpha = opts(names) + [("A2", dict(force_combo=True), None, None), ("A3", dict(force_combo=True), None, None),
                           ("Dual", dict(force_combo=True), None, None), ("Sw", dict(cond="B"), None, None),
                           ("A2", None, None, "A, B"), ("A1", dict(bonus=50), None, None), ("A2", dict(bonus=50), None, None)]
    core = opts(["A1", "A2", "A3", "B1", "C1", "N", "Die"])
    out = []
    out += seq_tree("seq", w, [dict()], alpha, 4 if deep else 3)
    out += seq_tree("core", w, [dict()], opts(["A1", "A2", "A3", "B1", "B2", "C1", "Z2", "Die"]), 6 if deep else 4)
    out += timed_tree("pairs", w, [dict()], alpha, (0, 1, 2500, 29500, 29999, 30000, 30001, 30500), 2)
    out += timed_tree("timed", w, [dict()], alpha if deep else core + opts(["Au", "Dual", "B2", "A4", "B3"]),
                      (2500, 30000, 30001) if deep else (2500, 30000, 30001), 3)
    w3 = world(sk, breakers={0: (1, 2), 1: (2,), 2: (1, 0)})
    out += seq_tree("breakers", w3, [dict()], opts(["A1", "A2", "B1", "B2", "C1", "C2", "Dual", "B3", "A4"]), 5 if deep else 4)
    w4 = world(sk, breakers={0: (9, 8, 1, 2), 1: (7, 6, 5, 2)})
    out += seq_tree("long breakers", w4, [dict()], opts(["A1", "A2", "A3", "B1", "B2", "C1", "N"]), 5 if deep else 4)
    w5 = world(sk, breakers={0: (0, 1), 1: (2, 1)})      # groups that break themselves
    out += seq_tree("own breakers", w5, [dict()], opts(["A1", "A2", "A3", "B1", "B2", "C1", "Au", "A4"]), 4)
    w2 = world(sk)      # the same without breakers
    out += seq_tree("nobreak", w2, [dict()], alpha, 3)
    out += long_tree("pairs", w, alpha, (None, 7000), step=1 if deep else 3)
    out += trait_tree("pairs", sk, alpha, (2500,), breakers=BREAK)
    out.append(Unit("wide", wide))
    out += far_tree("pairs", w, alpha, (2500, 30000, 30001), [[(1000, ("A3", None, None, None)), (1000, ("B2", None, None, None))]])
    return out


def bounds(tier):
    deep = tier == "thorough"
    return dict(traits=TRAITS_TEXT, alphabet="25 presses: three-step chain with travel and cast, two further groups, breaking groups, automatic, "
                         "two-group, condition-dependent and follow-up-selecting combo skills, forced combo, combo step by "
                         "follow-up, non-combo skill, death, two targets",
                depth="ordered lists up to %d (core of 8 up to %d), with five sets of breakers" % ((4, 6) if deep else (3, 4)),
                wide="9 groups, 9 continued skills, 9 steps of one skill, lists of 6 breakers: all pairs of members", far=FAR, long=LONG % ("" if deep else "third"),
                timed="pairs x 8 gaps around 30 s; triples of %d presses x 3 gaps" % (25 if deep else 12))
