from .base import *  # noqa: F401,F403
from . import base

ID = "C07"
prepare = lambda tier: base.prepare(ID)


def skills():
    def s(name, *res, d=0, cast=0, dmg=None, **kw):
        return dict(name=name, damage=dmg, res=kw.pop("spec", tuple(dict(r) for r in res)),
                    timing=dict(animation_lock=600, application_delay=d, base_cast_time=cast), gcd=True, **kw)
    g = lambda n, c, **k: dict(name=n, change=c, **k)
    pots = C({"": dict(potency=100), "Flag": dict(potency=500), "3 Gauge": dict(potency=103),
              "Flag, 3 Gauge": dict(potency=603), "10 Gauge": dict(potency=110), "Flag, 10 Gauge": dict(potency=610)})
    return [
        s("G3", g("Gauge", 3)),
        s("G5d", g("Gauge", 5), d=900, cast=1500),
        s("C4", g("Gauge", -4)),
        s("CAll", g("Gauge", -99)),
        s("T2", g("Gauge", 2, duration=5000)),
        s("Ex1", g("Ex", 1, refreshes_duration_of_last_gained=True)),
        s("Ex2", g("Ex", 2)),                       # does not refresh the expiry
        s("ExT", g("Ex", 2, duration=3000, refreshes_duration_of_last_gained=True)),    # lapses, having refreshed the expiry
        s("ExU", g("Ex", -1)),
        s("ExR", g("Ex", -1, refreshes_duration_of_last_gained=True)),
        s("Fl", g("Flag", 1)),
        s("FlU", g("Flag", -1), dmg=pots),
        s("Two", g("Gauge", 1), g("Ex", 3, refreshes_duration_of_last_gained=True)),
        s("Cond", spec=C({"": (g("Gauge", 2),), "Flag": (g("Gauge", 6), g("Flag", -1))})),
        s("FU", fups=(dict(skill=dict(name="fu", res=(g("Gauge", 4),)), delay=700),)),
        s("H", dmg=pots),
        s("HS", g("Gauge", -2), dmg=pots, cast=2000, d=800),
        s("HL", dmg=pots, cast=2000, d=800, res_snap=False),
        s("Not", dmg=pots),                          # not on any allow list
        dict(name="Die", timing=dict(animation_lock=0), gcd=False,
             fups=(dict(skill=dict(name="Die", res=(dict(clear_all_resources_only=True),))),)),
    ]


ALLOW = ("H", "HS", "HL", "Cond", "FlU")
GAUGES = {"Gauge": dict(max_value=10, skill_allowlist=ALLOW),
          "Ex": dict(max_value=5, skill_allowlist=("H", "HS", "HL"), expiry_from_last_gain=8000),
          "Flag": dict(max_value=1, skill_allowlist=ALLOW, add_number_to_conditional=False)}


def long(rec, w, name, other):
    """gauge histories of 12 to 80 changes, observed throughout"""
    for n in (12, 33, 80):
        for gap in (700, 2500):
            h = []
            for i in range(n):
                h.append((gap * i, name if i % 3 else other))
                if i % 10 == 9:
                    h.append((gap * i + 300, "H"))
            play(rec, w, dict(fight_start=0), h + [(gap * n + 400, "H"), (gap * n + 4600, "H"), (gap * n + 9000, "HL")])


def units(tier):
    deep = tier == "thorough"
    sk = skills()
    w = world(sk, gauges=GAUGES)
    alpha = opts([s["name"] for s in sk]) + [("HS", None, None, "A, B"), ("G3", None, None, "A, B")]
    eff = opts([s["name"] for s in sk if s["name"] not in ("H", "Not", "HL")])
    obs = [(1, ("H", None, None, None)), (1400, ("HL", None, None, None)), (3600, ("H", None, None, None)),
           (1, ("H", None, None, None)), (2998, ("H", None, None, None)), (2, ("H", None, None, None)),
           (1, ("Not", None, None, None))]
    out = []
    out += timed_tree("pairs", w, [dict()], alpha, (0, 1, 700, 4999, 5000, 5001, 7999, 8000, 8001), 2, [obs])
    out += timed_tree("triples", w, [dict()], eff, (0, 2500, 8001) if deep else (2500,), 3, [obs])
    out += seq_tree("seq", w, [dict()], alpha, 4 if deep else 3)
    out += timed_tree("deep", w, [dict()], opts(["G3", "C4", "T2", "Ex1", "ExU", "Die"] if not deep else
                                                ["G3", "G5d", "C4", "CAll", "T2", "Ex1", "Ex2", "ExU", "Die"]),
                      (2500,), 5, [obs])
    eff_names = ["G3", "C4", "T2", "Ex1", "ExT", "Ex2", "ExU", "Fl", "FlU", "Two", "Cond", "FU"]
    for a in eff_names:
        for b in eff_names:
            out.append(Unit("long %s %s" % (a, b), long, w, a, b))
    out += long_tree("pairs", w, alpha, (None, 1700), step=1 if deep else 3)
    out += trait_tree("pairs", sk, alpha, (2500,), [obs], gauges=GAUGES)
    out += far_tree("pairs", w, alpha, (2500, 8001), [obs])
    return out


def bounds(tier):
    deep = tier == "thorough"
    return dict(traits=TRAITS_TEXT, alphabet="22 presses: gains, costs (also refreshing ones), over-cap, over-spend, expiring gains, refreshing, lapsing and non-refreshing gains of an "
                         "expiring gauge, flag gauge, two gauges at once, condition-dependent change, follow-up gain, readers at "
                         "snapshot and at landing, reader off the allow list, death; every history observed by 7 readers",
                long="12, 33 and 80 gauge changes (12x12 pairs of changes, 2 spacings)", far=FAR, walks=LONG % ("" if deep else "third"),
                depth="pairs x 9 gaps around every expiry; triples x %d gaps; ordered lists up to %d; %d-press core up to 5" % (
                    (3, 4, 9) if deep else (1, 3, 6)))
