from .base import *  # noqa: F401,F403
from . import base

ID = "C01"
prepare = lambda tier: base.prepare(ID)


def skills():
    return [
        dict(name="G", damage=dict(potency=300), timing=dict(animation_lock=650, application_delay=620), gcd=True),
        dict(name="K", damage=dict(potency=310), timing=dict(base_cast_time=2000, animation_lock=100,
                                                            application_delay=800), gcd=True),
        dict(name="L", damage=dict(potency=320), timing=dict(base_cast_time=3500, animation_lock=100), gcd=True),
        dict(name="F", damage=dict(potency=100), timing=dict(gcd_base_recast_time=1500, animation_lock=650,
                                                            affected_by_speed_stat=False,
                                                            affected_by_haste_buffs=False), gcd=True),
        dict(name="R", damage=dict(potency=110), timing=dict(base_cast_time=1300, gcd_base_recast_time=2200,
                                                            animation_lock=600, affected_by_haste_buffs=False),
             gcd=True),
        dict(name="S", damage=dict(potency=120), timing=dict(base_cast_time=1500, gcd_base_recast_time=2500,
                                                            animation_lock=600, affected_by_speed_stat=False),
             gcd=True),
        dict(name="Slow", damage=dict(potency=120), timing=dict(animation_lock=3100), gcd=True),
        dict(name="O", damage=dict(potency=50), timing=dict(animation_lock=650), gcd=False),
        dict(name="Z", timing=dict(animation_lock=0), gcd=False),
        dict(name="OC", damage=dict(potency=50), timing=dict(base_cast_time=1700, animation_lock=300), gcd=False),
        dict(name="Haste", buff=dict(duration=6000, haste_time_reduction=0.13), timing=dict(animation_lock=650),
             gcd=False),
        dict(name="Rush", buff=dict(duration=4000, haste_time_reduction=0.5), timing=dict(animation_lock=100),
             gcd=False),
        dict(name="Swift", buff=dict(duration=9000, num_uses=1, max_num_uses=1, flat_cast_time_reduction=1800,
                                     skill_allowlist=("K", "L", "S", "R")),
             timing=dict(animation_lock=600), gcd=False),
        dict(name="Quick", buff=dict(duration=9000, flat_gcd_recast_time_reduction=700),
             timing=dict(animation_lock=600), gcd=False),
        dict(name="Slick", debuff=dict(duration=8000, haste_time_reduction=0.1), damage=dict(potency=1),
             timing=dict(animation_lock=650), gcd=False),
        dict(name="Mire", buff=dict(duration=7000, haste_time_reduction=-0.22), timing=dict(animation_lock=650), gcd=False),
        dict(name="Bog", debuff=dict(duration=7000, haste_time_reduction=-0.17), timing=dict(animation_lock=650), gcd=False),
        dict(name="Late", buff=dict(duration=2500, max_duration=4000, haste_time_reduction=0.3),
             timing=dict(animation_lock=650, application_delay=1800), gcd=False),
        dict(name="Fix", damage=dict(potency=90), timing=dict(animation_lock=600, affected_by_speed_stat=False, affected_by_haste_buffs=False),
             gcd=True),
        dict(name="Gz", damage=dict(potency=90), timing=dict(animation_lock=0), gcd=True),
        dict(name="Quick3", buff=dict(duration=9000, flat_gcd_recast_time_reduction=1300), timing=dict(animation_lock=600), gcd=False),
        dict(name="Epic", damage=dict(potency=90), timing=dict(base_cast_time=12000, animation_lock=100, gcd_base_recast_time=13000), gcd=True),
        dict(name="Brisk", damage=dict(potency=90), timing=dict(animation_lock=50, gcd_base_recast_time=1000), gcd=True),
        dict(name="Long", damage=dict(potency=90), timing=dict(animation_lock=600, gcd_base_recast_time=60000), gcd=True),
        dict(name="Swift9", buff=dict(duration=15000, num_uses=1, flat_cast_time_reduction=9000), timing=dict(animation_lock=600), gcd=False),
        dict(name="V", damage=dict(potency=90), gcd=True,
             timing=C({"": dict(base_cast_time=0, animation_lock=700),
                       "Slow": dict(base_cast_time=2400, gcd_base_recast_time=4000, animation_lock=200)})),
    ]


SPEEDS = (420, 533, 1000, 2100, 3000)
JOBS = (("SAM", "7.1", 100), ("MNK", "7.1", 100), ("NIN", "7.0", 100), ("NIN", "7.0", 90), ("MNK", "6.55", 90))


OTHERS = {"BRD": [dict(name="G2", damage=dict(potency=300), timing=dict(animation_lock=650), gcd=True),
                  dict(name="O2", damage=dict(potency=300), timing=dict(animation_lock=650), gcd=False)]}


def times(rec, w):
    """the same button several times at once is the same as writing it down as often"""
    import itertools
    for names in itertools.product(("G", "K", "O", "Slow"), repeat=2):
        for ns in list(itertools.product((0, 1, 2, 3), repeat=2)) + [(25, 1), (1, 40)]:
            a, b = w.i_build(dict(), []), w.i_build(dict(), [])
            for x, n in zip(names, ns):
                a.add_next(x, num_times=n)
                for _ in range(n):
                    b.add_next(x)
            rec.histories += 2
            rec.transitions += 2 * sum(ns)
            got = [(x.get_skill_timing() and None, x.get_button_press_timing())[1] for x in (a, b)]
            rec.state((names, ns))
            if got[0] != got[1]:
                rec.fail("%s pressed %s times: %r instead of %r" % (names, ns, got[0], got[1]), [names, ns])


def sweep(rec, job, version, level, lo, hi):
    """one rotation that uses every kind of base time, for every value of the speed stat"""
    for sp in range(lo, hi):
        w = world(skills(), job=job, version=version, level=level, speed_stat=sp)
        w.label = "sweep %s %s %s speed %d" % (job, version, level, sp)
        for h in (["G", "K", "L", "R", "S", "G"], ["Haste", "G", "K", "R", "S", "Rush", "G", "K", "S", "G", "L"]):
            play(rec, w, dict(), [(None, n) for n in h], ("presses", "events"))


def hastes(rec, job, version, level, sp):
    """every whole percentage of haste and slow, as buff, as debuff and both"""
    for pc in list(range(1, 71)) + [-5, -33, -100]:
        mk = lambda n, kind: {"name": n, kind: dict(duration=60000, haste_time_reduction=pc / 100), "timing": dict(animation_lock=0), "gcd": False}
        w = world(skills()[:6] + [mk("b", "buff"), mk("d", "debuff")], job=job, version=version, level=level, speed_stat=sp)
        w.label = "haste %d%% %s speed %d" % (pc, job, sp)
        for h in (["b", "G", "K", "L", "R", "S", "G"], ["d", "G", "K", "S", "G"], ["b", "d", "G", "K", "G"]):
            play(rec, w, dict(), [(None, n) for n in h], ("presses",))


def units(tier):
    out = []
    names = [s["name"] for s in skills() if s["name"] not in ("Fix", "Gz", "Quick3", "Epic", "Brisk", "Long", "Swift9")]
    alpha = opts(names) + [("V", dict(cond="Slow"), None, None), ("K", dict(no_cast=True), None, None),
                           ("G2", None, "BRD", None), ("O2", None, "BRD", None)]
    core = opts(["G", "K", "L", "F", "O", "Z", "Rush", "Swift", "Quick", "Slick"])
    deep = tier == "thorough"
    for job, v, lv in JOBS:
        for sp in SPEEDS:
            w = world(skills(), job=job, version=v, level=lv, speed_stat=sp, others=OTHERS)
            main = (job, sp) == ("SAM", 533)
            d = (4 if main else 3) if deep else (3 if main or (job, sp, lv) == ("MNK", 2100, 100) else 2)
            out += seq_tree("alpha %s %s %d speed %d" % (job, v, lv, sp), w, [dict()], alpha, d)
    w = world(skills(), speed_stat=1000)
    out += seq_tree("core", w, [dict()], core, 5 if deep else 4)
    w = world(skills(), speed_stat=2100)
    out += seq_tree("start", w, [dict(fight_start=0), dict(fight_start=3210), dict(fight_start=-2110)], core, 4 if deep else 2)
    out.append(Unit("times", times, w))
    out += seq_tree("floor", world(skills(), speed_stat=533, others=OTHERS), [dict(), dict(fight_start=-600)],
                    opts(["G", "Fix", "Gz", "F", "K", "R", "S", "Quick", "Quick3", "Rush"]) + [("G2", None, "BRD", None)], 4 if deep else 3)
    out += seq_tree("large", world(skills(), speed_stat=533), [dict(), dict(fight_start=-30000)],
                    opts(["G", "K", "Epic", "Brisk", "Long", "Swift9", "Swift", "Quick", "Quick3", "Haste", "Rush", "O"]), 4 if deep else 3)
    for job, v, lv in JOBS[:2] if not deep else JOBS:
        for sp in SPEEDS + (420, 601, 777, 888, 1212):
            out.append(Unit("hastes %s %s %d %d" % (job, v, lv, sp), hastes, job, v, lv, sp))
    out += seq_tree("late", world(skills(), speed_stat=700), [dict()], opts(["Late", "G", "K", "O", "Rush", "Mire", "Bog"]),
                    5 if deep else 4)
    out += seq_tree("late long", world(skills(), speed_stat=700), [dict()], opts(["Late", "G", "K"]), 9 if deep else 7)
    many = alpha + [("G", None, None, "A, B"), ("K", None, None, "A, B, C"), ("O", None, None, "Boss")]
    out += seq_tree("targets", world(skills(), speed_stat=533, others=OTHERS), [dict(), dict(fight_start=-600)], many, 2)
    out += trait_tree("order", skills(), many, None, speed_stat=533, others=OTHERS)
    out += long_tree("alpha", world(skills(), speed_stat=533, others=OTHERS), alpha, (None,), [dict(), dict(fight_start=-30000)], step=1 if deep else 3)
    step = 40
    for job, v, lv in JOBS[:1] if not deep else JOBS:
        for lo in range(400 if lv == 90 else 420, 4200 if deep else 1500, step):
            out.append(Unit("sweep %s %s %d from %d" % (job, v, lv, lo), sweep, job, v, lv, lo, lo + step))
    return out


def bounds(tier):
    deep = tier == "thorough"
    return dict(traits=TRAITS_TEXT,
        alphabet="23 presses: instant/cast/long-cast/fixed-recast/non-haste/non-speed/slow-lock GCDs, oGCDs with and "
                 "without lock or cast, haste and flat-reduction buffs (limited uses and allow list), haste and slowing debuffs, a slowing and a late-landing haste buff, "
                 "condition-dependent timing, waived cast, buttons of another player; repeated buttons",
        floor="11 presses with large flat reductions, unhasted and lock-free GCDs, up to length %d" % (4 if deep else 3),
        large="12 presses with casts of 12 s, cooldowns of 1 s and 60 s and reductions of 9 s, up to length %d, also starting 30 s before the fight" % (
            4 if deep else 3),
        haste="every whole percent of haste from 1 to 70 (and slows) x buff/debuff/both x 10 speed stats x %d jobs" % (5 if deep else 2),
        depth="all ordered lists up to length %s" % ("3 (4 for one setting), 5 over a 10-press core" if deep else
                                                     "2 (3 for two settings), 4 over a 10-press core"),
        long=LONG % ("" if deep else "third"),
        stats="5 speed stats x 5 (job, patch, level) incl. traits; every speed stat value in a range by sweep")
