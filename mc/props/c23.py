"""Missed positionals: every bonus percent, every condition subset, every positional skill."""
from .. import adapt, ref
from ..engine import tick
from ..ref import Illegal
from .base import *  # noqa: F401,F403
from . import base
from .c20 import names, chunk

from ama_xiv_combat_sim.simulator.utils import Utils

ID = "C23"
prepare = lambda tier: base.prepare(ID)
PERCENTS = (None,) + tuple(range(0, 101))


def percents(specs, deep):
    """deep: all; else every percent some pair of potencies explains, its neighbours, and the ends"""
    if deep:
        return PERCENTS
    ps = {float(x) for d in specs for x in (d["potency"], d.get("use_min_potency")) if x}
    out = {0, 1, 37, 99, 100}
    for a in ps:
        for b in ps:
            if a >= b:
                k = int(100 * (a - b) / a)
                out |= {k, k + 1, max(0, k - 1)} if k else {k}
    return (None,) + tuple(sorted(out))


KEYS = ("", "No Combo", "No Positional", "No Combo, No Positional", "Tag", "Tag, No Positional", "Tag, No Combo", "Tag, No Combo, No Positional")


def tables(deep):
    """damage tables: every choice of variants with a default and a missed-positional one"""
    out = []
    pot = dict(zip(KEYS, (400, 150, 340, 100, 440, 380, 190, 140)))
    rest = [k for k in KEYS[1:]]
    for n in range(1, len(rest) + 1):
        for c in itertools.combinations(rest, n):
            if any("No Positional" in k for k in c):
                out.append({k: dict(potency=pot[k]) for k in ("",) + c})
    # use of an explicit lowest potency; equal potencies; inverted ones; thirds
    out.append({"": dict(potency=400), "No Combo": dict(potency=150), "No Positional": dict(potency=340, use_min_potency=140),
                "No Combo, No Positional": dict(potency=100), "Tag": dict(potency=440, use_min_potency=140)})
    out.append({"": dict(potency=300), "No Combo": dict(potency=200), "No Positional": dict(potency=300), "No Combo, No Positional": dict(potency=200)})
    out.append({"": dict(potency=300), "No Positional": dict(potency=100), "Tag": dict(potency=150), "Tag, No Positional": dict(potency=100)})
    out.append({"": dict(potency=7), "No Combo": dict(potency=6), "No Positional": dict(potency=5), "No Combo, No Positional": dict(potency=3)})
    return out


def skills(table, kind):
    T = dict(timing=dict(animation_lock=600, application_delay=100), gcd=True)
    t = C(table)
    base_ = dict(name="P", combo=(dict(combo_actions=("S",)),), **T)
    if kind == "damage":
        p = dict(base_, damage=t)
    elif kind == "ignored":
        p = dict(base_, damage=t, ignored=("Tag",))
    elif kind == "ignored two":
        p = dict(base_, damage=t, ignored=("Foo", "Zed", "Tag"))
    elif kind == "follow-up":
        p = dict(base_, fups=C({k: (dict(skill=dict(name="mark", buff=dict(duration=100))), dict(skill=dict(name="hit", damage=v), delay=50))
                                for k, v in table.items()}))
    elif kind == "follow-up dot":
        dot = dict(skill=dict(name="burn", damage=dict(potency=45, damage_class="PHYSICAL_DOT")), dot=5000)
        p = dict(base_, fups=C({k: (dict(skill=dict(name="hit", damage=v), delay=50), dot) for k, v in table.items()}))
    else:
        p = dict(base_, damage=t, falloff=0.5)
    return [p, dict(name="S", damage=dict(potency=100), combo=(dict(),), **T),
            dict(name="Tag", buff=dict(duration=9000, add_to_skill_modifier_condition=True, skill_allowlist=("P",)),
                 timing=dict(animation_lock=300), gcd=False)]


def _table(rec, ts, kind, deep):
    for table in ts:
        w = world(skills(table, kind))
        w.label = "%s %s" % (kind, sorted(table.items()))
        pc = percents(table.values(), deep)
        conds = ("", "Tag", "Foo", "No Combo", "Tag, Foo", "No Positional", "No Combo, Tag")
        direct(rec, w, "P", conds + ("Zed, Tag", "Foo, Zed, No Combo"), pc, w.label)
        for c in conds:
            for ready in ((), ("S",), ("Tag",), ("S", "Tag")):
                # every percent in one rotation; the gaps separate them
                h = []
                for i, p in enumerate(pc):
                    t = 60000 * i
                    h += [(t + 1000 * k, n) for k, n in enumerate(ready)]
                    h.append((t + 3000, "P", dict(cond=c, bonus=p), None, "A, B" if kind == "falloff" else None))
                rec.sample([w.label, c, ready])
                play(rec, w, dict(fight_start=0), h)


def direct(rec, w, n, conds, pc, label):
    """the inference asked directly: all conditions in force are kept, exactly the inferred ones are added, nothing else is touched"""
    sk, m = w.lib.get_skill(n, w.job), w.r_lib.skills[n]
    for c in conds:
        tick()
        for p in pc + (0.5, 14.5, -1, -15, 250):           # a fraction, a loss or more than all is explained by no pair of potencies
            if p is None:
                continue
            mod = adapt.i_mod(dict(cond=c, bonus=p))
            held = set(mod.with_condition) - {""}
            rec.histories += 1
            rec.transitions += 1
            try:
                got = {x.strip() for x in Utils.get_positional_condition(sk, mod).split(",")} - {""}
            except ValueError:
                got = held
            want = held | ref.positional(m, adapt.r_mod(dict(cond=c, bonus=p)))
            if got != want:
                rec.fail("%s with bonus %r and conditions %s: conditions %s, should be %s" % (n, p, sorted(held), sorted(got), sorted(want)),
                         [label, c, p])
            if set(mod.with_condition) - {""} != held or mod.bonus_percent != p:
                rec.fail("%s: the modifier given was altered" % n, [label, c, p])
            rec.state((label, c, p))


def positional_skills(w):
    out = []
    for n in names(w):
        s = w.r_lib.skills[n]
        ks = set()
        for v in (s.damage, s.fups):
            if isinstance(v, ref.Var):
                ks |= set(v.alts)
        if any("No Positional" in k for k in ks):
            out.append((n, sorted({a for k in ks for a in k if not a.startswith("Target ")}), s))
    return out


def _real(rec, v, lv, job, deep):
    w = RealWorld(v, lv, job, flags=dict(base.FLAGS))
    for n, atoms, s in positional_skills(w):
        rec.count(positional_skills=1)
        subs = [c for k in range(len(atoms) + 1) for c in itertools.combinations(atoms, k)]
        if not deep and len(subs) > 16:
            subs = [c for c in subs if len(c) <= 2]
        tab = s.damage if isinstance(s.damage, ref.Var) else None
        pc = PERCENTS if tab is None else percents([dict(potency=x.potency, use_min_potency=x.use_min_potency)
                                                    for k, x in tab.alts.items() if not any(a.startswith("Target ") for a in k)], deep)
        pre = [()]
        if isinstance(s.combo, tuple):
            pre += [(p,) for sp in s.combo for p in sp.combo_actions if w.lib.has_skill(p, job)]
        direct(rec, w, n, [", ".join(c) for c in subs] + ["Foo, " + ", ".join(c) for c in subs if c], pc, (v, lv, job, n))
        for c in subs:
            for before in pre:
                h = []
                for i, p in enumerate(pc):
                    t = 90000 * i
                    h += [(t + 2500 * k, b) for k, b in enumerate(before)]
                    h.append((t + 5000, n, dict(cond=", ".join(c), bonus=p)))
                try:
                    play(rec, w, dict(fight_start=0), h)
                except ref.Ambiguous:
                    rec.skipped += 1
        rec.sample((v, lv, job, n, atoms))


def _none(rec, v, lv, job):
    """a bonus percent on a skill without positional changes nothing"""
    w = RealWorld(v, lv, job, flags=dict(base.FLAGS))
    pos = {n for n, _, _ in positional_skills(w)}
    for n in names(w):
        if n in pos:
            continue
        play(rec, w, dict(fight_start=0), [(i * 90000, n, dict(bonus=p)) for i, p in enumerate((None, 0, 33, 61))])


def units(tier):
    deep = tier == "thorough"
    out = []
    ts = tables(deep)
    for kind in ("damage", "ignored", "ignored two", "follow-up", "follow-up dot", "falloff"):
        for i, c in enumerate(chunk(ts if deep or kind == "damage" else ts[::4] + ts[-4:], 3)):
            out.append(Unit("%s %d" % (kind, i), _table, c, kind, deep))
    for v, lv in CONFIGS:
        for job in jobs_of(real_library(v, lv)):
            w = RealWorld(v, lv, job)
            if positional_skills(w):
                out.append(Unit("real %s/%d %s" % (v, lv, job), _real, v, lv, job, deep))
            if deep or (v, lv) == ("7.1", 100):
                out.append(Unit("none %s/%d %s" % (v, lv, job), _none, v, lv, job))
    return out


def bounds(tier):
    return dict(percents="none and 0..100" if tier == "thorough" else
                "none, every percent explained by some pair of potencies and its neighbours, 0, 1, 37, 99, 100", tables="%d damage tables (all variant subsets over combo, positional and a status), as damage, as follow-up, with "
                "one or three ignored conditions, with falloff" % len(tables(True)), conditions="7 written condition sets x 4 combo/status states; the inference also asked directly, there with fractions too",
                real="every positional skill of all 9 libraries x condition subsets x combo predecessor x percents")
