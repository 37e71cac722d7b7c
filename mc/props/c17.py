"""Kill time: every party, every boss HP at and around every running total, scripted rolls."""
import itertools
import math
from fractions import Fraction as Fr

import numpy as np

from .. import adapt, rolls, ref
from ..engine import tick
from .base import *  # noqa: F401,F403
from . import base

from ama_xiv_combat_sim.kill_time_estimator.kill_time_estimator import KillTimeEstimator

ID = "C17"
prepare = lambda tier: base.prepare(ID)
U = (0.0, 0.03, 0.31, 0.5, 0.77, 0.94, rolls.ONE)     # one roll per sample
N = len(U)


class Columns:
    """sample j always draws U[j]"""

    def take(self, shape):
        shape = tuple(int(x) for x in shape)
        if not shape:
            return 0.5
        for ax in (len(shape) - 1, 0):
            if shape[ax] == N:
                v = [1] * len(shape)
                v[ax] = N
                return np.broadcast_to(np.array(U).reshape(v), shape).copy()
        return np.full(shape, 0.5)


def skills():
    no = dict(guaranteed_crit="NO", guaranteed_dh="NO")
    t = lambda d=0: dict(timing=dict(animation_lock=600, application_delay=d), gcd=False)
    return [
        dict(name="A", damage=dict(potency=100, **no), **t()),
        dict(name="B", damage=dict(potency=250, **no), **t(700)),
        dict(name="X", damage=dict(potency=170), **t()),
        dict(name="Z", damage=dict(potency=0, **no), **t()),
        dict(name="Up", buff=dict(duration=2000, damage_mult=1.1), **t()),
        dict(name="Dot", **t(), fups=(dict(skill=dict(name="tick", damage=dict(potency=40, damage_class="PHYSICAL_DOT", **no)), dot=7000),)),
        dict(name="M", damage=dict(potency=60, **no), **t()),
        dict(name="LB 1", damage=dict(potency=0), **t()),
        dict(name="LB 3", damage=dict(potency=0), **t(1200)),
    ]


def lb_value(cond, u):
    """what the declared condition is worth for roll u (exact)"""
    for part in cond.split(","):
        k, _, v = part.strip().partition(": ")
        if k == "Exact Damage":
            return {Fr(v)}
        if k == "Mean Damage":
            x = Fr(v) * (Fr(95, 100) + Fr(10, 100) * Fr(u))
            f = math.floor(x)
            r = {Fr(f)}
            if x - f < Fr(1, 10 ** 6):
                r.add(Fr(f - 1))
            if f + 1 - x < Fr(1, 10 ** 6):
                r.add(Fr(f + 1))
            return r
    raise AssertionError(cond)


def estimate(party, hp):
    e = KillTimeEstimator(hp)
    for rb in party:
        e.add_rotation(rb)
    with rolls.scripted(Columns()):
        r = e.estimate_kill_time(N, verbose=False)
        again = e.estimate_kill_time(N, verbose=False) if hp == 1 else r
    if list(r[0]) != list(again[0]):
        raise AssertionError("asking twice")
    return r


def oracle(rec, w, specs):
    """-> per sample: [(time ms, set of possible damage)] over the whole party"""
    out = [[] for _ in range(N)]
    for settings, presses in specs:
        ps = w.i_run(settings, presses)[2]
        with rolls.scripted(Columns()):
            sim = adapt.DamageSimulator(w.stats, list(ps), N, save_damage_matrix=True)
        raw = sorted(ps, key=lambda x: x[0])
        M = sim.get_damage_matrix()
        conds = [",".join(x[2].with_condition) for x in raw]
        for i, x in enumerate(raw):
            for j in range(N):
                v = lb_value(conds[i], U[j]) if "LB" in x[1].name else {Fr(float(M[i][j]))}
                out[j].append((x[0], v))
    return [sorted(x, key=lambda y: y[0]) for x in out]


def check_party(rec, w, specs, deltas):
    h = dict(party=specs)
    rec.sample(h)
    tick()
    orc = oracle(rec, w, specs)
    if not orc[0]:
        return          # nobody hits the boss: nothing is claimed of a party without damage
    party = [w.i_build(s, p) for s, p in specs]
    # running totals
    tot = []
    for smp in orc:
        acc, run = {Fr(0)}, []
        for i, (t, v) in enumerate(smp):
            acc = {a + b for a in acc for b in v}
            run.append((t, acc))
        tot.append(run)
    hps = set()
    for run in tot:
        for i, (t, acc) in enumerate(run):
            if i + 1 == len(run) or run[i + 1][0] != t:
                for a in acc:
                    for d in deltas:
                        if a + d > 0:
                            hps.add(a + d)
    hps.add(Fr(1))
    first = True
    for hp in sorted(hps):
        rec.histories += 1
        kt, cum, all_t = estimate(party, int(hp) if hp == int(hp) else float(hp))
        got = list(kt)
        if len(got) != N:
            rec.fail("%d kill times for %d samples" % (len(got), N), dict(h, hp=float(hp)))
        want = []
        for run in tot:
            s = set()
            # a time is possible if the total may reach hp there and need not have before
            t0 = None
            for k, (t, acc) in enumerate(run):
                if k + 1 < len(run) and run[k + 1][0] == t:
                    continue
                if max(acc) >= hp:
                    s.add(float(Fr(t) / 1000))
                if min(acc) >= hp:
                    t0 = t
                    break
            if t0 is None:
                s.add(None)
            want.append(s)
        rec.transitions += N
        rec.state((hp, tuple(map(str, got))))
        h2 = dict(h, hp=float(hp))
        g = [None if x is None else float(x) for x in got]
        if all(len(s) == 1 for s in want):
            wv = [next(iter(s)) for s in want]
            ws = sorted([x for x in wv if x is not None])
            gs = sorted([x for x in g if x is not None])
            if g.count(None) != wv.count(None) or any(abs(a - b) > 1e-9 for a, b in zip(ws, gs)) or len(ws) != len(gs):
                rec.fail("kill times %r, should be %r" % (g, wv), h2)
            if g[:len(gs)].count(None):
                rec.fail("failures are not at the end: %r" % (g,), h2)
            if any(abs(a - b) > 1e-9 for a, b in zip([x for x in wv if x is not None], g)):
                rec.fail("kill times are not in sample order: %r instead of %r" % (g, wv), h2)
        else:
            rec.count(knife_edges=1)
        if first:
            first = False
            if [float(x) for x in all_t] != [float(t) for t, _ in orc[0]]:
                rec.fail("merged times %r, should be %r" % (list(all_t), [float(t) for t, _ in orc[0]]), h2)
            for j in range(N):
                for k, (t, acc) in enumerate(tot[j]):
                    if k + 1 < len(tot[j]) and tot[j][k + 1][0] == t:
                        continue
                    if not any(abs(float(a) - float(cum[k][j])) < 1e-6 for a in acc):
                        rec.fail("running total %r at %s s of sample %d, should be %s" % (
                            float(cum[k][j]), t / 1000, j, sorted(map(float, acc))), h2)


F0 = dict(fight_start=0)


def rotations(deep):
    """all short rotations of one player"""
    lb = [dict(cond="Exact Damage: 5000"), dict(cond="Mean Damage: 7000")]
    o = [("A",), ("B",), ("X",), ("Dot",), ("M", None, None, "Boss, Add"), ("LB 1", lb[0]), ("LB 3", lb[1]), ("Up",)]
    times = (0, 700, 3000)
    out = [(F0, [])]
    for n in (1, 2):
        for ts in itertools.combinations_with_replacement(times, n):
            if n == 2 and not deep and ts[1] - ts[0] not in (0, 700):
                continue
            for os in itertools.product(o, repeat=n):
                out.append((F0, [(t,) + x for t, x in zip(ts, os)]))
    return out


def _solo(rec, specs, deltas):
    w = world(skills())
    for s in specs:
        check_party(rec, w, [s], deltas)


def _party(rec, parties, deltas):
    w = world(skills())
    for p in parties:
        check_party(rec, w, p, deltas)


def _lb(rec, version, level, job):
    """limit breaks of the real libraries under every spelling of their condition"""
    w = RealWorld(version, level, job, flags=dict(base.FLAGS))
    w.label = (version, level, job)
    for name in ("LB 1", "LB 2", "LB 3"):
        for kind in ("Exact Damage: ", "Mean Damage: "):
            for x in ("1", "100", "12345", "12345.5", "2000000", "0.75", "1000000.25"):
                for conds in ("{0}", "Foo, {0}", "{0}, Foo", "Foo,{0},Bar", " {0} ", "Foo 17, {0} , 3 G", "No Combo, {0}"):
                    spec = (F0, [(0, name, dict(cond=conds.format(kind + x)))])
                    orc = oracle(rec, w, [spec])
                    if any(len(s) > 1 for s in orc):
                        rec.fail("%d damage instances" % len(orc[0]), spec)
                    if not orc[0]:
                        continue
                    tick()
                    rec.histories += 1
                    kt, cum, t = estimate([w.i_build(*spec)], 1e12)
                    rec.transitions += N
                    for j in range(N):
                        if not any(abs(float(cum[-1][j]) - float(v)) < 1e-6 for v in orc[j][0][1]):
                            rec.fail("%s with %r contributes %r for roll %r, should be %s" % (
                                name, spec[1][0][2], float(cum[-1][j]), U[j], sorted(map(float, orc[j][0][1]))), spec)
                    if list(kt) != [None] * N:
                        rec.fail("kill times %r" % (list(kt),), spec)
                    rec.state((job, name, kind, x, conds))


def units(tier):
    deep = tier == "thorough"
    out = []
    rots = rotations(deep)
    D = (Fr(-1, 2), Fr(0), Fr(1, 2), Fr(1)) + ((Fr(-1),) if deep else ())
    for i in range(0, len(rots), 6):
        out.append(Unit("solo %d" % i, _solo, rots[i:i + 6], D))
    k1 = [r for r in rots if len(r[1]) <= 1 or (deep and len(r[1]) == 2 and r[1][0][1] in ("Dot", "LB 3", "M"))]
    small = [(F0, []), (F0, [(0, "A")]), (F0, [(700, "B")]), (F0, [(0, "Dot")]), (F0, [(1400, "LB 1", dict(cond="Mean Damage: 3000, Foo"))]),
             (dict(), [(500, "A"), (2500, "X")]), (F0, [(3000, "M", None, None, "Boss, Add")]), (F0, [(-2000, "A"), (-5000, "Z")]),
             (F0, [(709, "A"), (3009, "X")]), (F0, [(701, "X"), (3001, "A")])]
    two = [[a, b] for a in k1 for b in small] + [[b, a] for a in small for b in small]
    three = [list(x) for x in itertools.product(small, repeat=3)]
    if not deep:
        three = [list(x) for x in itertools.combinations_with_replacement(small, 3)]
    for i in range(0, len(two), 6):
        out.append(Unit("two %d" % i, _party, two[i:i + 6], D if deep else (Fr(0), Fr(1, 2))))
    for i in range(0, len(three), 4):
        out.append(Unit("three %d" % i, _party, three[i:i + 4], (Fr(0), Fr(1, 2))))
    eights = [small[i:] + small[:i] for i in range(len(small))] + [small[::-1][i:] + small[::-1][:i] for i in range(len(small))]
    for i, p in enumerate(eights):
        out.append(Unit("full party %d" % i, _party, [p[:8], p[:5]], (Fr(0),)))
    for n in (12, 24):
        for i in range(4):
            out.append(Unit("raid of %d %d" % (n, i), _party, [((small[1:] * 3)[i:] + small[1:1 + i])[:n]], (Fr(0),)))
    for v in ("20000001", "3000000001"):
        big = (F0, [(-100, "LB 3", dict(cond="Exact Damage: " + v)), (5, "LB 3", dict(cond="Exact Damage: " + v)), (7, "A")])
        for i in range(len(small)):
            out.append(Unit("big %s %d" % (v, i), _party, [[big, small[i]], [small[i], small[i - 1], big]], (Fr(0), Fr(1))))
    for j in ("SAM", "BLM", "BRD", "WAR", "WHM") if not deep else tuple(adapt_jobs()):
        out.append(Unit("lb %s" % j, _lb, "7.1", 100, j))
    return out


def adapt_jobs():
    from .. import dmg
    return dmg.JOBS


def bounds(tier):
    deep = tier == "thorough"
    return dict(rotations=len(rotations(deep)), parties="1, 2, 3, 5, 8, 12 and 24 rotations, at least one with damage (equal times, a few ms apart, negative times, totals beyond 6e9)",
                boss_hp="every running total of every sample, and 1/2 and 1 below and above",
                rolls="7 scripted rolls incl. both ends", limit_breaks="3 skills x 2 kinds x 7 values x 7 condition spellings")
