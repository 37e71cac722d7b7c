"""Results depend only on the rotation: exhaustive API call histories on the real objects."""
import contextlib
import copy
import io

from .. import adapt
from ..engine import tick
from ..world import i_press, i_settings
from .base import *  # noqa: F401,F403
from . import base

ID = "C11"
prepare = lambda tier: base.prepare(ID)
D = "Default Target"


def skills():
    t = lambda d=0, c=0: dict(timing=dict(animation_lock=600, application_delay=d, base_cast_time=c,
                                          affected_by_speed_stat=False), gcd=True)
    o = lambda d=0: dict(timing=dict(animation_lock=600, application_delay=d), gcd=False)
    return [
        dict(name="Hit", damage=dict(potency=100), **t(300)),
        dict(name="Aoe", damage=C({"": dict(potency=60)}), falloff=0.4, debuff=dict(duration=9000, crit_rate_add=0.1), **t(500)),
        dict(name="Dot", damage=dict(potency=10), **t(200),
             fups=(dict(skill=dict(name="dt", damage=dict(potency=9, damage_class="PHYSICAL_DOT")), dot=9000, debuffs=False),)),
        dict(name="Buff", buff=dict(duration=5000, damage_mult=1.1, auto_attack_delay_reduction=0.2), **o(600)),
        dict(name="Once", buff=dict(duration=9000, num_uses=1, crit_rate_add=0.2, flat_cast_time_reduction=9000,
                                    add_to_skill_modifier_condition=True, skill_allowlist=("Cast",)), **o()),
        dict(name="Cast", damage=C({"": dict(potency=200), "Once": dict(potency=222)}), **t(100, 2000)),
        dict(name="Gain", damage=dict(potency=1), res=(dict(name="G", change=10),), **t()),
        dict(name="Spend", damage=C({"": dict(potency=20), "10 G": dict(potency=300), "20 G": dict(potency=600)}),
             res=(dict(name="G", change=-10),), **t()),
        dict(name="S1", damage=dict(potency=30), combo=(dict(),), **t()),
        dict(name="S2", damage=C({"": dict(potency=400), "No Combo": dict(potency=40), "No Positional": dict(potency=370),
                                  "No Combo, No Positional": dict(potency=20)}), combo=(dict(combo_actions=("S1",)),), **t()),
        dict(name="Chan", damage=dict(potency=3), chan=dict(duration=4000), **t()),
        dict(name="Rush", buff=dict(duration=30000, haste_time_reduction=0.3), **o()),
        dict(name="Swing", damage=dict(potency=44), gcd=True, timing=dict(animation_lock=600)),
        dict(name="Die", buff=dict(duration=0, clear_all_status_effects=True),
             res=(dict(name="", change=0, clear_all_resources_only=True),), combo=(dict(break_all_combos_only=True),), **o()),
    ]


OTHERS = {"DNC": [dict(name="Party", buff=dict(duration=5000, crit_rate_add=0.05, is_party_effect=True), **OGCD)]}


def mk():
    w = world(skills(), gauges={"G": dict(max_value=100, skill_allowlist=("Spend",))}, others=OTHERS)
    w.label = "reuse library"
    return w


def dump_lib(w):
    lib = w.lib
    return (tuple(sorted((j, n, repr(adapt.f_skill(s).content())) for j in lib.get_jobs()
                         for n, s in adapt.library_skills(lib, j).items())),
            lib.get_status_effect_priority("SAM"), repr(sorted(lib.get_all_combo_breakers("SAM").items())),
            repr(sorted((n, vars(s) if hasattr(s, "__dict__") else repr(s)) for n, s in lib.get_all_resource_settings("SAM").items())))


STAT_FIELDS = ("wd", "weapon_delay", "main_stat", "det_stat", "dh_stat", "crit_stat", "speed_stat", "job_class", "version",
               "tenacity", "num_roles_in_party", "healer_or_caster_strength", "level")


def dump_stats(s):
    return tuple(getattr(s, f) for f in STAT_FIELDS)


def dump_mod(m):
    return (frozenset(m.with_condition), m.guaranteed_crit, m.guaranteed_dh, m.force_combo, m.ignore_cast_times,
            m.ignore_application_delay, m.bonus_percent)


# ---- one builder used in any order
PRESS = [(0, "Buff", None, None, None), (500, "Dot", None, None, "A, B"), (2500, "Dot", None, None, "B"),
         (3100, "Spend", None, None, None), (1200, "Gain", None, None, None), (None, "Once", None, None, None),
         (None, "Cast", None, None, "A"), (4000, "S2", dict(cond="x", bonus=0), None, None), (3500, "S1", None, None, "B"),
         (0, "Party", None, "DNC", None), (2000, "Die", None, None, None), (1500, "Aoe", None, None, "A, B"),
         (6000, "Hit", None, None, None), (None, "Hit", dict(crit="YES"), None, "B")]
# presses which undo the casts and channels of others, and simultaneous ones which depend on each other
LATER = [(1000, "Cast", None, None, None), (900, "Once", None, None, None), (2000, "Chan", None, None, None), (3000, "Hit", None, None, "B"),
         (9000, "Hit", None, None, None), ("autos", True), "q", "sim"]
HASTE = [(0, "Rush", None, None, None), (None, "Swing", None, None, "A"), (None, "Swing", None, None, "B"), ("autos", True), "q"]
SAME = [(1000, "Gain", None, None, None), (1000, "Spend", None, None, None), (1000, "S1", None, None, None), (1000, "S2", None, None, None),
        (1000, "Buff", None, None, None), (1000, "Once", None, None, None), (1000, "Cast", None, None, "A, B"), (1000, "Die", None, None, None),
        (1000, "Aoe", None, None, "B"), (1000, "Party", None, "DNC", None)]
QUERIES = ("q", "qd", "qp", "sim", "print")
SETTERS = (("autos", True), ("autos", False), ("trailing", True), ("trailing", False))


class Subject:
    """an implementation builder plus the content it has been given"""

    def __init__(self, w, settings):
        self.w, self.settings, self.content = w, dict(settings), []
        self.rb = adapt.RotationBuilder(w.stats, w.lib, **i_settings(settings))
        self.db = adapt.DamageBuilder(w.stats, w.lib)
        self.mods = []
        self.asked = None

    def op(self, o):
        if o in QUERIES:
            self.query(o)
        elif o[0] == "autos":
            self.rb.set_enable_autos(o[1])
            self.settings["autos"] = o[1]
        elif o[0] == "trailing":
            self.rb.set_ignore_trailing_dots(o[1])
            self.settings["ignore_trailing"] = o[1]
        else:
            self.content.append(o)
            i_press(self.rb, o)

    def query(self, o):
        if o == "q":
            q = self.rb.get_skill_timing()
            q.get_q()
        elif o == "qd":
            self.db.get_damage_instances(self.rb.get_skill_timing())
        elif o == "qp":
            self.rb.get_button_press_timing()
        elif o == "sim":
            inst = self.db.get_damage_instances(self.rb.get_skill_timing())
            adapt.DamageSimulator(self.w.stats, inst, 2).get_per_skill_damage(self.rb)
        elif o == "print":
            with contextlib.redirect_stdout(io.StringIO()):
                self.rb.print_button_press_timings_as_csv()

    def answer(self):
        q = self.rb.get_skill_timing()
        ev = adapt.i_events(q)
        pr = adapt.i_presses(self.rb)
        inst = adapt.i_instances(self.db.get_damage_instances(q))
        return ev, pr, inst


_MEMO = {}


def fresh(w, settings, content, rec):
    """a fresh builder given the same content; also compared with the model"""
    key = (id(w), repr(settings), repr(content))
    if key not in _MEMO:
        play(rec, w, settings, content)
        ev, pr, _, inst = w.i_run(settings, content)
        _MEMO[key] = (ev, pr, inst)
    return _MEMO[key]


def compare(rec, subj, ops):
    tick()
    got = subj.answer()
    want = fresh(subj.w, subj.settings, subj.content, rec)
    rec.count(checks=1)
    rec.histories += 1
    rec.transitions += len(ops)
    rec.state((repr(subj.settings), repr(subj.content)))
    for a, b, what in zip(got, want, ("events", "presses", "damage instances")):
        if a != b:
            rec.fail("%s differ from a fresh builder with the same content: %r instead of %r" % (
                what, [x for x in a if x not in b][:2] or len(a), [x for x in b if x not in a][:2] or len(b)),
                dict(calls=list(ops), settings=subj.settings))


def _ops(rec, w, settings, ops, depth, prefix):
    lib0, st0 = dump_lib(w), dump_stats(w.stats)
    given = copy.deepcopy(settings)
    for n in range(0, depth - len(prefix) + 1):
        for rest in itertools.product(ops, repeat=n):
            seq = list(prefix) + list(rest)
            if len([o for o in seq if o in QUERIES or o[0] in ("autos", "trailing")]) == 0 and n > 0:
                continue
            s = Subject(w, settings)
            for o in seq:
                s.op(o)
            rec.sample(seq)
            compare(rec, s, seq)
    if dump_lib(w) != lib0 or dump_stats(w.stats) != st0 or settings != given:
        rec.fail("a caller's object (library, stats or settings) was altered")


def _perm(rec, w, settings, subset):
    """timed presses in every insertion order"""
    want = None
    for perm in itertools.permutations(subset):
        rb = adapt.RotationBuilder(w.stats, w.lib, **i_settings(settings))
        for p in perm:
            i_press(rb, p)
        tick()
        q = rb.get_skill_timing()
        got = (adapt.i_events(q), adapt.i_presses(rb))
        got += (adapt.i_instances(adapt.DamageBuilder(w.stats, w.lib).get_damage_instances(q)),)
        rec.count(checks=1)
        rec.histories += 1
        rec.transitions += len(perm)
        if want is None:
            want = got
            play(rec, w, settings, list(perm))
        elif got != want:
            rec.fail("insertion order matters: %r" % (perm,), dict(settings=settings))
        rec.state(repr(perm))


def _two(rec, w, wins, script1, script2):
    """two builders over the same library, stats and downtime object: every interleaving of their calls"""
    n1, n2 = len(script1), len(script2)
    for pos in itertools.combinations(range(n1 + n2), n1):
        s1, s2 = Subject(w, dict(downtime=wins)), Subject(w, dict(downtime=wins, autos=True))
        s2.db = s1.db          # the damage builder is reused as well
        i1, i2, pos = iter(script1), iter(script2), set(pos)
        tr = []
        for k in range(n1 + n2):
            s, o = (s1, next(i1)) if k in pos else (s2, next(i2))
            tr.append((1 if s is s1 else 2, o))
            s.op(o)
        compare(rec, s1, tr)
        compare(rec, s2, tr)
        compare(rec, s1, tr)


def _objects(rec, w):
    """modifiers, downtime windows and instances handed in by the caller are never altered"""
    for p in PRESS + [(0, n, m, None, tg) for n in [s["name"] for s in w.spec["skills"]] for tg in (None, "A, B")
                      for m in (dict(), dict(cond="x"), dict(cond="No Combo", bonus=5), dict(force_combo=True), dict(no_cast=True, cond=" b, a"))]:
        for wins in ((), {"A": ((0.0, 1.0),)}, ((2.0, 3.0),), {D: ((0.1, 9, "DIRECT"),), "B": ()}):
            st = i_settings(dict(downtime=wins, autos=True))
            d0 = copy.deepcopy(st["downtime_windows"])
            mod = adapt.i_mod(p[2] or {})
            m0 = dump_mod(mod)
            rb = adapt.RotationBuilder(w.stats, w.lib, **st)
            tick()
            for k in range(3):
                kw = dict(skill_modifier=mod, job_class=p[3] or "SAM", targets=p[4] or D)
                if p[0] is None or k == 2:
                    rb.add_next(p[1], **kw)
                else:
                    rb.add(p[0] / 1000 + k, p[1], **kw)
            inst = adapt.DamageBuilder(w.stats, w.lib).get_damage_instances(rb.get_skill_timing())
            i0 = adapt.i_instances(inst)
            raw0 = [x[0] for x in inst]
            adapt.DamageSimulator(w.stats, inst, 2).get_per_skill_damage(rb)
            rec.count(checks=1)
            rec.histories += 1
            rec.transitions += 6
            rec.state(repr((p, wins)))
            back = list(reversed(inst))
            b0 = list(back)
            adapt.DamageSimulator(w.stats, back, 2).get_per_skill_damage(rb)
            if back != b0 and [x[0] for x in back] != [x[0] for x in b0]:
                rec.fail("the caller's list of damage instances was reordered", dict(press=p))
            if dump_mod(mod) != m0:
                rec.fail("the caller's modifier changed: %r -> %r" % (m0, dump_mod(mod)), dict(press=p))
            if st["downtime_windows"] != d0:
                rec.fail("the caller's downtime windows changed: %r" % (st["downtime_windows"],), dict(press=p))
            if adapt.i_instances(inst) != i0 or [x[0] for x in inst] != raw0:
                rec.fail("the caller's damage instances changed", dict(press=p))


def _shared(rec):
    """several skills built from the same dictionaries: the dictionaries stay as they were and the skills do not influence each other"""
    from ama_xiv_combat_sim.simulator.skills.skill import Skill
    for fall in (None, 0.0, 0.4, 0.75):
        for conds in (("",), ("", "Big"), ("", "Big", "Big, Wet"), ("Big", "")):
            for other in (None, 0.1, 0.5):
                d = {c: adapt.DamageSpec(potency=100 * (k + 1)) for k, c in enumerate(conds)}
                tm = {c: adapt.TimingSpec(base_cast_time=0, animation_lock=600 + k) for k, c in enumerate(conds)}
                bf = {c: adapt.StatusEffectSpec(duration=1000 + k, damage_mult=1.1) for k, c in enumerate(conds)}
                keep = [dict(x) for x in (d, tm, bf)]
                pots = {c: x.potency for c, x in d.items()}
                mk1 = lambda: Skill(name="One", is_GCD=True, damage_spec=d, timing_spec=tm, buff_spec=bf, debuff_spec=bf, aoe_dropoff=fall)
                a = mk1()
                a0 = repr(adapt.f_skill(a).content())
                Skill(name="Two", is_GCD=False, damage_spec=d, timing_spec=tm, buff_spec=bf, aoe_dropoff=other)
                b = mk1()
                rec.histories += 1
                rec.transitions += 3
                rec.state((fall, conds, other))
                if [dict(x) for x in (d, tm, bf)] != keep or {c: x.potency for c, x in d.items()} != pots:
                    rec.fail("the caller's dictionaries changed when a skill was built from them", [fall, conds, other])
                if repr(adapt.f_skill(a).content()) != a0 or repr(adapt.f_skill(b).content()) != a0:
                    rec.fail("skills built from the same data influence each other", [fall, conds, other])


def _answers(rec, w):
    """what a builder hands out is a copy: altering it changes nothing"""
    for sub in itertools.combinations(PRESS, 2):
        s = Subject(w, dict(autos=True))
        for p in sub:
            s.op(p)
        compare(rec, s, sub)
        pt = s.rb.get_button_press_timing()
        for x in pt:
            try:
                x[0] = -1
            except TypeError:
                pass
        pt.clear()
        q = s.rb.get_skill_timing()
        lst = q.get_q()
        if lst:
            lst[0].skill_modifier.with_condition.add("Spoiled") if isinstance(lst[0].skill_modifier.with_condition, set) else None
        lst.clear()
        if adapt.i_events(q) != fresh(w, s.settings, s.content, rec)[0]:
            rec.fail("altering the listed events altered the timeline", dict(presses=sub))
        compare(rec, s, sub + ("handed-out lists altered",))


def other(sk, k):
    """the same skill names with other numbers"""
    sk = copy.deepcopy(sk)
    for d in sk:
        dm = d.get("damage")
        for x in dm.values() if isinstance(dm, C) else [dm]:
            if isinstance(x, dict):
                x["potency"] = x["potency"] + 7 * k
        d["timing"] = dict(d["timing"], animation_lock=d["timing"]["animation_lock"] + 10 * k, application_delay=d["timing"].get("application_delay", 0) + 20 * k,
                           affected_by_speed_stat=True)
        for f in ("buff", "debuff"):
            if isinstance(d.get(f), dict):
                d[f]["duration"] += 500 * k
    return sk


WORLDS = [(0, {}), (1, {}), (2, {}), (1, dict(speed_stat=1300)), (1, dict(level=90, speed_stat=1300)), (1, dict(version="7.0", speed_stat=1300)),
          (1, dict(version="6.55", level=90, speed_stat=1300)), (1, dict(job="BRD")), (1, dict(job="WHM", speed_stat=1300))]
MIXED = [(None, "Rush"), (None, "Swing", None, None, "A"), (None, "Cast"), (None, "Dot", None, None, "A, B"), (None, "Buff"), (None, "Gain"), (None, "Spend"),
         (None, "S1"), (None, "S2", dict(bonus=0)), (None, "Aoe", None, None, "A, B"), (None, "Once"), (None, "Cast", dict(cond="Once"))]


def mixed_world(i):
    k, kw = WORLDS[i]
    w = world(other(skills(), k) if k else skills(), gauges={"G": dict(max_value=100, skill_allowlist=("Spend",))}, **kw)
    w.label = "same names %d %s" % (k, kw)
    return w


def _mixed(rec, i, j, k):
    """libraries with the same names and other data, stats of other levels, patches, jobs: one after another in one process"""
    from .. import dmg
    n = 0
    for x in (i, j, k, i, j):
        w = mixed_world(x)
        for st in (dict(autos=True, snap_dots=0), dict(fight_start=0)):
            rec.sample((i, j, k))
            play(rec, w, st, MIXED)
            play(rec, w, st, [(700 * t,) + p[1:] for t, p in enumerate(MIXED)])
        kw = dict(WORLDS[x][1])
        job, v, lv = kw.pop("job", "SAM"), kw.pop("version", "7.1"), kw.pop("level", 100)
        s, st = dmg.stats(job, v, lv, **kw)
        ps = dmg.pairs(w, dict(autos=True), MIXED)
        if ps is None:
            rec.fail("damage instances differ from the model", dict(worlds=(i, j, k)))
        dmg.check_ranges(rec, dmg.i_sim([p[0] for p in ps], s, 2), ps, st, dict(worlds=[WORLDS[q] for q in (i, j, k)], at=n))
        n += 1


def _mixed_real(rec, job, cfgs):
    """the same job of several patches and levels, in turns"""
    ws = [RealWorld(v, lv, job, flags=dict(base.FLAGS)) for v, lv in cfgs]
    ns = [[n for n in w.names() if not n.startswith(("Automaton Queen", "LB", "Wait "))] for w in ws]
    for a in range(0, max(map(len, ns)), 8):
        for w, names_ in list(zip(ws, ns)) + list(zip(ws, ns))[::-1]:
            h = [(None, n) for n in names_[a:a + 8]]
            if h:
                play(rec, w, dict(autos=True), h)


def units(tier):
    deep = tier == "thorough"
    w = mk()
    out = []
    ops = [PRESS[0], PRESS[1], PRESS[2], PRESS[3], PRESS[4], PRESS[6], PRESS[12], "q", "qd", "sim", "print",
           ("autos", True), ("autos", False), ("trailing", True), ("trailing", False)]
    small = [PRESS[1], PRESS[2], PRESS[6], PRESS[12], "qd", "q", ("autos", True), ("trailing", True), ("autos", False)]
    sets = [dict(), dict(downtime={"B": ((1.0, 2.0),)}, snap_dots=0), dict(fight_start=0, ignore_trailing=True, autos=True)]
    for i, s in enumerate(sets):
        for j, o in enumerate(ops):
            out.append(Unit("calls %d/%d" % (i, j), _ops, w, s, ops, 4 if deep else 3, (o,)))
    for o in small:
        for o2 in small:
            out.append(Unit("calls deep %s %s" % (o, o2), _ops, w, sets[0], small, 6 if deep else 4, (o, o2)))
    timed = [p for p in PRESS if p[0] is not None]
    for k, sub in enumerate(itertools.combinations(timed, 5 if deep else 4)):
        out.append(Unit("order %d" % k, _perm, w, [dict(), dict(autos=True), dict(fight_start=0, snap_dots=0)][k % 3], sub))
    for a in LATER:
        out.append(Unit("calls later %s" % (a,), _ops, w, sets[0], LATER, 6 if deep else 5, (a,)))
    for a in HASTE:
        out.append(Unit("calls haste %s" % (a,), _ops, w, sets[0], HASTE, 7 if deep else 6, (a,)))
    out.append(Unit("skills from shared data", _shared))
    for k, sub in enumerate(itertools.combinations(SAME, 4 if deep else 3)):
        out.append(Unit("simultaneous %d" % k, _perm, w, [dict(), dict(autos=True), dict(fight_start=0, snap_dots=0)][k % 3], sub))
    wins = {"B": ((1.0, 2.0),), D: ((0.2, 0.4, "AUTO"),)}
    scripts = [
        [PRESS[0], PRESS[1], "q", PRESS[12]], [PRESS[4], PRESS[3], "sim", PRESS[3]], [PRESS[5], "qd", PRESS[6], ("autos", True)],
        [PRESS[1], "q", PRESS[2], "qd"], [PRESS[11], "qd", PRESS[11], "print"], [PRESS[8], PRESS[7], "q", PRESS[10]]]
    for i, a in enumerate(scripts):
        for j, b in enumerate(scripts):
            out.append(Unit("two %d %d" % (i, j), _two, w, wins, a, b))
    for i, j, k in itertools.permutations(range(len(WORLDS)), 3):
        if deep or (i + 2 * j + 4 * k) % 9 == 0:
            out.append(Unit("mixed %d %d %d" % (i, j, k), _mixed, i, j, k))
    for job in ("SAM", "NIN", "MNK", "BRD", "WHM", "BLM", "WAR", "PLD") if not deep else jobs_of(real_library("6.55", 90)):
        out.append(Unit("mixed real %s" % job, _mixed_real, job, (("7.1", 100), ("6.55", 90), ("7.0", 100), ("7.1", 90))))
    out.append(Unit("caller's objects", _objects, w))
    out.append(Unit("handed-out objects", _answers, w))
    return out


def bounds(tier):
    deep = tier == "thorough"
    return dict(calls="all call sequences of 15 calls (7 presses, 4 queries, 4 setters) up to length %d from 3 settings; of 9 calls up to length %d"
                      % ((4, 6) if deep else (3, 4)),
                order="all insertion orders of every %d of 11 timed presses and every %d of 10 simultaneous ones" % ((5, 4) if deep else (4, 3)),
                haste="all sequences of up to %d of 5 calls where a later press moves earlier ones" % (7 if deep else 6),
                later="all sequences of up to %d of 8 calls which undo earlier casts and channels" % (6 if deep else 5),
                two_builders="all 70 interleavings of 36 pairs of 4-call scripts over a shared library, stats, downtime object and damage builder",
                mixed="%s triples of 9 libraries with the same skill names and other data, levels, patches, jobs or speed, built and simulated in turns "
                      "in one process, against the model; every skill of %s jobs in turns between four patches and levels" % (("all", "all") if deep else ("56 of 504", "8")),
                objects="modifiers, windows, instances, library and stats compared before and after")
