from .base import *  # noqa: F401,F403
from . import base

ID = "C05"
prepare = lambda tier: base.prepare(ID)


def on(name, buff=None, debuff=None, **kw):
    """a follow-up that applies the effect called `name`"""
    return dict(skill=dict(name=name, **({"buff": buff} if buff else {}), **({"debuff": debuff} if debuff else {})),
                delay=0, primary_only=False, **kw)


def skills():
    o = dict(timing=dict(animation_lock=600), gcd=False)
    g = dict(timing=dict(animation_lock=600), gcd=True)
    E = dict(duration=5000, max_duration=8000, damage_mult=1.1, crit_rate_add=0.02)
    V = dict(duration=5000, max_duration=7000, crit_rate_add=0.1, damage_mult=1.05)
    return [
        dict(name="E", buff=E, **o),
        dict(name="Eext", fups=(on("E", dict(E, extend_only=True, duration=3000)),), **o),
        dict(name="Ekeep", fups=(on("E", dict(E, extends_existing_duration=False, duration=6000, damage_mult=1.3)),), **o),
        dict(name="Ecut", fups=(on("E", dict(E, extends_existing_duration=False, duration=1500, max_duration=1500)),), **o),
        dict(name="W", buff=dict(duration=9000, num_uses=3, max_num_uses=5, skill_allowlist=("H2", "HM", "HD"), crit_rate_add=0.03), **o),
        dict(name="Wlow", fups=(on("W", dict(duration=9000, num_uses=1, max_num_uses=1, skill_allowlist=("H2", "HM", "HD"), crit_rate_add=0.04)),), **o),
        dict(name="Wkeep", fups=(on("W", dict(duration=9000, extends_existing_duration=False, num_uses=1, max_num_uses=5,
                                              skill_allowlist=("H2", "HM", "HD"), crit_rate_add=0.05)),), **o),
        dict(name="Nob", buff=dict(duration=9000, damage_mult=1.7, skill_allowlist=()), debuff=dict(duration=9000, crit_rate_add=0.3, skill_allowlist=()), **o),
        dict(name="BD", buff=dict(duration=6000, damage_mult=1.21), debuff=dict(duration=6000, crit_rate_add=0.07), **o),
        dict(name="Ux", buff=dict(duration=2500, max_duration=9000, num_uses=1, max_num_uses=1, main_stat_add=11), **o),
        dict(name="N", buff=dict(duration=4000, dh_rate_add=0.07), **o),                       # maximum = duration
        dict(name="U", buff=dict(duration=9000, num_uses=2, max_num_uses=3, dh_rate_add=0.1, main_stat_add=40), **o),
        dict(name="U1", buff=dict(duration=6000, num_uses=1, skill_allowlist=("H2", "HM"), guaranteed_crit="YES"), **o),
        dict(name="P1", buff=dict(duration=5000, main_stat_mult=1.02), **o),
        dict(name="P2", buff=dict(duration=9000, damage_mult=1.2), **o),
        dict(name="P3", buff=dict(duration=9000, damage_mult=1.4), **o),
        dict(name="Pub", buff=dict(duration=5000, num_uses=2, add_to_skill_modifier_condition=True), **o),
        dict(name="X", buff=dict(duration=3000, haste_time_reduction=0.1, expires_status_effects=("E", "U", "V", "P1", "BD")), **o),
        dict(name="XV", debuff=dict(duration=3000, main_stat_mult=0.98, expires_status_effects=("V", "E", "BD")), **o),
        dict(name="V", debuff=V, **o),
        dict(name="Vext", fups=(on("V", debuff=dict(V, extend_only=True, duration=2500)),), **o),
        dict(name="Vu", debuff=dict(duration=9000, num_uses=1, max_num_uses=2, guaranteed_dh="YES"), **o),
        dict(name="Vp", debuff=dict(duration=5000, damage_mult=1.07, add_to_skill_modifier_condition=True), **o),
        dict(name="Both", buff=dict(duration=5000, damage_mult=1.01), debuff=dict(duration=2500, damage_mult=1.02),
             damage=dict(potency=5), **g),
        dict(name="Alt", buff=C({"": dict(duration=2500, damage_mult=1.5), "Big": dict(duration=5000, damage_mult=1.6),
                                 "None": None}), **o),
        dict(name="Clear", fups=(on("Clear", dict(duration=0, clear_all_status_effects=True)),), **o),
        dict(name="H", damage=C({"": dict(potency=100), "Pub": dict(potency=150), "Vp": dict(potency=170),
                                 "Pub, Vp": dict(potency=190)}), **g),
        dict(name="H2", damage=dict(potency=200), **g),
        dict(name="HD", damage=dict(potency=300), deny=("E", "V", "P1"), **g),
        dict(name="HM", damage=dict(potency=400), timing=dict(animation_lock=600, application_delay=900), gcd=True),
        dict(name="Q", gcd=False, timing=dict(animation_lock=600)),                              # uses up uses
    ]


PRIO = ("P1", "P2")
AB = "Default Target, B"


def fields(rec, field, values):
    """each effect field: buff x buff x debuff combinations, every subset active"""
    sk = [dict(name="H", damage=dict(potency=100), **GCD)]
    for i, v in enumerate(values):
        sk.append(dict(name="b%d" % i, buff=dict(duration=9000, **{field: v}), **OGCD))
        sk.append(dict(name="v%d" % i, debuff=dict(duration=9000, **{field: v}), **OGCD))
    w = world(sk, speed_stat=900)
    w.label = "field " + field
    names = [s["name"] for s in sk[1:]]
    import itertools
    for n in range(0, 5):
        for sub in itertools.combinations(names, n):
            h = [(None, x) for x in sub] + [(None, "H"), (None, "H"), (None, "H", None, None, AB)]
            play(rec, w, dict(), h)
            play(rec, w, dict(autos=True), [(100 * i, x[1]) for i, x in enumerate(h)] + [(8000, "H")])


FIELDS = dict(crit_rate_add=(0.1, 0.05, 0.02), dh_rate_add=(0.1, 0.2, 0.03), damage_mult=(1.1, 0.9, 1.05),
              main_stat_add=(100, 262, 7), main_stat_mult=(0.75, 1.03, 0.5), haste_time_reduction=(0.1, 0.2, 0.03),
              auto_attack_delay_reduction=(0.1, 0.2, 0.25), flat_cast_time_reduction=(100, 1000, 350),
              flat_gcd_recast_time_reduction=(100, 250, 30), guaranteed_crit=("YES",), guaranteed_dh=("NO",))


def publish(rec):
    """every set of condition-publishing effects in force, buffs and debuffs, of two targets"""
    import itertools
    nb, nv = 5, 4
    sk = [dict(name="p%d" % i, buff=dict(duration=20000, add_to_skill_modifier_condition=True), **OGCD) for i in range(nb)]
    sk += [dict(name="q%d" % i, debuff=dict(duration=20000, add_to_skill_modifier_condition=True), **OGCD) for i in range(nv)]
    sk.append(dict(name="H", damage=C({"": dict(potency=100), "p0": dict(potency=101), "p1, p2, p3": dict(potency=102),
                                      "p0, p1, p2, p3, p4": dict(potency=103), "q0, q1, q2": dict(potency=104),
                                      "p4, q0, q1, q2, q3": dict(potency=105)}), **GCD))
    w = world(sk)
    w.label = "publish"
    for n in range(0, nb + nv + 1):
        for sub in itertools.combinations([s["name"] for s in sk[:-1]], n):
            play(rec, w, dict(), [(100 * i, x, None, None, AB if x == "q1" else "B" if x == "q2" else None) for i, x in enumerate(sub)] +
                 [(2000, "H"), (4000, "H", None, None, AB)])


def prio(rec):
    """every set of prioritised buffs and debuffs in force: only the first of the list counts, the others' uses are kept"""
    import itertools
    n = 6
    sk = [dict(name="p%d" % i, buff=dict(duration=30000, damage_mult=1 + 0.01 * (i + 1)), **OGCD) for i in range(n)]
    sk += [dict(name="v%d" % i, debuff=dict(duration=30000, damage_mult=1 + 0.02 * (i + 1)), **OGCD) for i in range(4)]
    sk += [dict(name="o", buff=dict(duration=30000, crit_rate_add=0.1), **OGCD), dict(name="H", damage=dict(potency=100), **GCD)]
    for order in (("p0", "v0", "p1", "p2", "v1", "p3", "v2", "p4", "v3", "p5"), ("p5", "p0", "v3", "p2", "v0", "p4")):
        w = world(sk, priority=order)
        w.label = "priority %s" % (order,)
        for k in range(0, n + 5):
            for sub in itertools.combinations([s["name"] for s in sk[:-1]], k):
                play(rec, w, dict(fight_start=0), [(100 * i, x) for i, x in enumerate(sub)] + [(2000, "H"), (4000, "H", None, None, AB)])


def late(rec, gaps, depth, first):
    """effects that land later than pressed, some after the earlier application has run out, as seen by later presses"""
    sk = [dict(name="Hd", buff=dict(duration=2000, max_duration=3000, haste_time_reduction=0.2),
               timing=dict(animation_lock=600, application_delay=1500), gcd=False),
          dict(name="Cd", buff=dict(duration=2000, num_uses=2, max_num_uses=3, flat_cast_time_reduction=700),
               timing=dict(animation_lock=600, application_delay=900), gcd=False),
          dict(name="K", damage=dict(potency=100), timing=dict(base_cast_time=2000, animation_lock=100), gcd=True)]
    w = world(sk, speed_stat=700)
    w.label = "late"
    for h in timed_histories(opts(["Hd", "Cd", "K"]), gaps, depth, first, suffix=[(1, ("K", None, None, None)), (400, ("K", None, None, None)), (2500, ("K", None, None, None))]):
        play(rec, w, dict(), h)


def kinds():
    """48 ways of declaring one effect"""
    out = []
    for dur, mx in ((2000, 2000), (3000, 4500)):
        for uses in ({}, dict(num_uses=1, max_num_uses=1), dict(num_uses=2, max_num_uses=3)):
            for ext in (True, False):
                for only in (False, True):
                    for allow in (None, ("H",)):
                        d = dict(duration=dur, max_duration=mx, extends_existing_duration=ext, extend_only=only, **uses)
                        if allow:
                            d["skill_allowlist"] = allow
                        out.append(dict(d, damage_mult=1 + 0.01 * (len(out) + 1)))
    return out


def again(rec, first, thirds):
    """one effect, declared in any of 48 ways at each application, as buff and as debuff"""
    ks = kinds()
    sk = [dict(name="S", buff=C(dict({"": None}, **{"k%d" % i: k for i, k in enumerate(ks)})),
               debuff=C(dict({"": None}, **{"k%d" % i: k for i, k in enumerate(ks)})), **OGCD),
          dict(name="H", damage=dict(potency=100), **OGCD), dict(name="G", damage=dict(potency=100), **OGCD)]
    w = world(sk)
    w.label = "again"
    ap = lambda t, i: (t, "S", dict(cond="k%d" % i), None, "A, B" if i % 3 == 0 else "A")
    for j in range(len(ks)):
        for gap in (500, 2000, 2001, 3300):
            for third in thirds:
                h = [ap(0, first), (1, "H", None, None, "A"), ap(gap, j)]
                t = gap
                if third is not None:
                    t += 1200
                    h.append(ap(t, third))
                h += [(t + d, n, None, None, tg) for d, n, tg in ((1, "G", "A"), (2, "H", "B"), (1300, "H", "A"), (2000, "G", "A"), (2600, "H", "A"),
                                                                 (3001, "G", "B"), (4200, "H", "A"), (4800, "G", "A"))]
                play(rec, w, dict(), h, ("instances",))


N = 9
MANY = ", ".join("T%d" % i for i in range(N))


def many(rec):
    """long lists: nine effects ended, ignored or used by one skill, nine targets; each member, and every pair of members"""
    import itertools
    names = ["b%d" % i for i in range(N)] + ["v%d" % i for i in range(N)]
    sk = [dict(name="b%d" % i, buff=dict(duration=30000, damage_mult=1 + 0.01 * (i + 1)), **OGCD) for i in range(N)]
    sk += [dict(name="v%d" % i, debuff=dict(duration=30000, damage_mult=1 + 0.02 * (i + 1)), **OGCD) for i in range(N)]
    hits = ["h%d" % i for i in range(N)]
    sk += [dict(name=h, damage=dict(potency=100 + i), **GCD) for i, h in enumerate(hits)]
    sk += [dict(name="L", buff=dict(duration=60000, num_uses=7, max_num_uses=7, crit_rate_add=0.1, skill_allowlist=tuple(hits)), **OGCD),
           dict(name="X", buff=dict(duration=100, expires_status_effects=tuple(names)), **OGCD),
           dict(name="XV", debuff=dict(duration=100, expires_status_effects=tuple(reversed(names))), **OGCD),
           dict(name="D", damage=dict(potency=300), deny=tuple(names), **GCD)]
    w = world(sk)
    w.label = "many"
    for sub in [(n,) for n in names] + list(itertools.combinations(names, 2)) + [tuple(names)]:
        on = [(100 * i, n, None, None, MANY if n[0] == "v" else None) for i, n in enumerate(sub)]
        play(rec, w, dict(fight_start=0), on + [(3000, "D", None, None, "T0"), (6000, "h0", None, None, "T1"), (8500, "X"),
                                                (9000, "h1", None, None, "T0"), (12000, "XV", None, None, MANY),
                                                (14000, "h2", None, None, MANY)])
    for i in range(N):                     # each target has its own effects
        for j in range(N):
            play(rec, w, dict(fight_start=0),
                 [(0, "v%d" % i, None, None, MANY), (100, "v%d" % j, None, None, "T%d" % i), (2500, "h0", None, None, MANY),
                  (5000, "XV", None, None, "T%d" % j)] + [(6000 + 2500 * k, "h1", None, None, "T%d" % k) for k in range(N)])
    for first in itertools.product(hits, repeat=2):
        play(rec, w, dict(fight_start=0), [(0, "L")] + [(1000 + 2500 * k, h) for k, h in enumerate(first + tuple(hits))])


def units(tier):
    deep = tier == "thorough"
    sk = skills()
    w = world(sk, priority=PRIO)
    out = []
    hit1 = [(1, ("H", None, None, AB)), (0, ("HD", None, None, None)), (2499, ("H2", None, None, None)),
            (3, ("HM", None, None, "B"))]
    hit2 = [(2500, ("H2", None, None, None)), (2500, ("H", None, None, AB)), (1, ("H", None, None, None)),
            (2499, ("HD", None, None, "B"))]
    hit3 = [(2502, ("H2", None, None, AB)), (1, ("H", None, None, None))]
    sup = [hit1, hit2, hit3]
    eff = opts([s["name"] for s in sk if s["name"] not in ("H", "H2", "HD", "HM")]) + [
        ("V", None, None, "B"), ("V", None, None, AB), ("Vext", None, None, "B"), ("XV", None, None, "B"),
        ("Alt", dict(cond="Big"), None, None), ("Alt", dict(cond="None"), None, None)]
    allp = eff + opts(["H", "H2", "HM"])
    out += timed_tree("pairs", w, [dict()], allp, (0, 1, 2500, 3000, 4000, 5000, 5001, 8001), 2, sup)
    core = opts(["E", "Eext", "Ekeep", "U", "U1", "P1", "P2", "X", "V", "Vext", "Vu", "Clear", "H2", "Q"])
    out += timed_tree("triples", w, [dict()], allp if deep else core, (0, 2500, 5001) if deep else (2500,), 3, sup[:1])
    if deep:
        out += timed_tree("quads", w, [dict()], core, (2500,), 4, sup[:1])
    out += seq_tree("seq", w, [dict()], allp, 3)
    out += trait_tree("pairs", sk, allp, (2500,), [hit1], priority=PRIO)
    out.append(Unit("publish", publish))
    out.append(Unit("prio", prio))
    out.append(Unit("many", many))
    out += far_tree("pairs", w, allp, (2500, 5001), [hit1])
    out += long_tree("pairs", w, allp, (None, 1700), step=1 if deep else 5)
    gaps = (0, 600, 1500, 2000, 2001, 2700, 3600)
    for n in ("Hd", "Cd", "K"):
        for g in gaps:
            for n2 in ("Hd", "Cd", "K"):
                out.append(Unit("late %s %d %s" % (n, g, n2), late, gaps, 4 if deep else 3,
                                [(0, (n, None, None, None)), (g, (n2, None, None, None))]))
    for i in range(48):
        out.append(Unit("again %d" % i, again, i, tuple(range(0, 48, 5)) if deep else (None,)))
    for f, v in FIELDS.items():
        out.append(Unit("field " + f, fields, f, v))
    return out


def bounds(tier):
    deep = tier == "thorough"
    return dict(traits=TRAITS_TEXT, again="all pairs of 48 declarations of one effect%s x 4 gaps, observed by 8 hits on two targets" % (" and a third of 10" if deep else ""), alphabet="36 presses: extending/capped/non-extending/extend-only/limited-use/allow-listed/prioritised/publishing/"
                         "ending/clearing/condition-dependent buffs and debuffs on up to 2 targets, hits with deny lists and "
                         "travel, use-consuming button; every history is observed by 10 hits",
                pairs="all pairs x 8 gaps around the duration ends; triples over %s; %s" % (
                    ("36 presses x 3 gaps", "quads over 14") if deep else ("14 presses", "ordered lists up to 3")),
                many="9 effects / 9 debuffs / 9 targets ended, ignored, used and hit at once, all singles and pairs", far=FAR, long=LONG % ("" if deep else "fifth"),
                priority="all subsets of 11 effects under two priority lists of up to 10", publication="all subsets of 9 publishing effects", late="effects landing after they are pressed, 4 presses x 7 gaps",
                fields="all subsets (size <= 4) of 6 sources for each of 11 effect fields")
