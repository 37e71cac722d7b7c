"""Sampled damage agrees with ranges, odds and moments: every combination of rolls is enumerated."""
import itertools
import math

import numpy as np

from .. import dmg, refdmg, rolls
from ..engine import tick
from ..refdmg import Fr
from .base import *  # noqa: F401,F403
from . import base, c13

ID = "C14"
prepare = lambda tier: base.prepare(ID)


def skills():
    sk = [dict(name="Up", buff=dict(duration=60000, crit_rate_add=0.1, dh_rate_add=0.2, damage_mult=1.06), **OGCD),
          dict(name="Down", debuff=dict(duration=60000, damage_mult=0.9, crit_rate_add=0.05), **OGCD)]
    for p in (0, 1, 3, 97, 341, 1500, 87654, 98765432):
        sk.append(dict(name="P%d" % p, damage=dict(potency=p), **OGCD))
    for fc in ("YES", "NO", "DEFAULT"):
        for fd in ("YES", "NO", "DEFAULT"):
            sk.append(dict(name="F %s %s" % (fc, fd), damage=dict(potency=220, guaranteed_crit=fc, guaranteed_dh=fd), **OGCD))
    for c in dmg.CLASSES[1:]:
        sk.append(dict(name="C " + c, damage=dict(potency=120, damage_class=c), **OGCD))
    sk.append(dict(name="T", damage=dict(potency=250, trait_damage_mult_override=1.0), **OGCD))
    sk.append(dict(name="T2", damage=dict(potency=250, trait_damage_mult_override=1.37, damage_class="PET"), **OGCD))
    sk.append(dict(name="S", damage=dict(potency=333, single_damage_mult=0.77), **OGCD))
    return sk


def history(names, effects, step=1000):
    return [(-10, e) for e in effects] + [(i * step, n) for i, n in enumerate(names)]


def probe_roles(rec, s, raws, n):
    """which of the code's draws is the damage roll, which decides the critical, which the direct hit"""
    k = len(raws)
    res = {}
    for j in [None] + list(range(3)):
        def draws(call, j=j):
            return np.full((k, n), 0.9999 if call == j else 0.0)
        sc = rolls.Script(k * n, draws)
        with rolls.scripted(sc):
            sim = dmg.i_sim(raws, s, n, save_damage_matrix=True, save_crit_dh_status=True)
        if sc.used != 3:
            return None
        res[j] = (np.array(sim.get_crit_status(), dtype=bool), np.array(sim.get_dh_status(), dtype=bool), sim.get_damage_matrix())
    roles = {}
    for j in range(3):
        dc, dd = (res[j][0] != res[None][0]).any(), (res[j][1] != res[None][1]).any()
        if dc and not dd:
            roles.setdefault("crit", j)
        elif dd and not dc:
            roles.setdefault("dh", j)
        elif not dc and not dd:
            roles.setdefault("roll", j)
    return roles if len(roles) == 3 else None


def _enumerate(rec, job, v, lv, effects, statkw, deep):
    """all combinations of (damage roll, critical draw, direct-hit draw) for every instance"""
    w = world(skills(), job=job)
    w.label = "rolls " + job
    names = [x["name"] for x in w.spec["skills"] if x.get("damage")]
    ps = dmg.pairs(w, dict(fight_start=0), history(names, effects))
    if ps is None:
        play(rec, w, dict(fight_start=0), history(names, effects))
        rec.fail("damage instances differ from the model", effects)
    ps.sort(key=lambda p: p[0][0])
    raws = [p[0] for p in ps]
    s, st = dmg.stats(job, v, lv, **statkw)
    h = dict(job=job, version=v, level=lv, effects=effects, stats=statkw)
    K = len(ps)
    roles = probe_roles(rec, s, raws, 7)
    rates = [dmg.m_rates(st, i) for _, i in ps]
    # columns
    R = [0.0, 1e-12, 0.001, 0.1, 0.25, 1 / 3, 0.5, 0.77, 0.9, 0.999, rolls.ONE] + ([k / 53 for k in range(1, 53)] if deep else [])
    U = [0.0, None, "lo", "hi", 0.5, rolls.ONE]           # lo/hi: just inside/outside the rate

    def u(x, rate):
        rate = float(rate)
        if x is None:
            return min(max(rate, 0.0), rolls.ONE)
        if x == "lo":
            return min(max(rate - 1e-6, 0.0), rolls.ONE)
        if x == "hi":
            return min(max(rate + 1e-6, 0.0), rolls.ONE)
        return x
    cols = [(r, c, d) for r in R for c in U for d in U]
    n = len(cols)
    mats = {
        "roll": np.array([[r for r, _, _ in cols]] * K),
        "crit": np.array([[u(c, rt[1]) for _, c, _ in cols] for rt in rates]),
        "dh": np.array([[u(d, rt[0]) for _, _, d in cols] for rt in rates]),
    }
    tick()
    if roles is None:
        # the code draws in another way: enumerate nothing, only check every sample against the reports
        sim = dmg.i_sim(raws, s, 400, save_damage_matrix=True, save_crit_dh_status=True)
        mats, n = None, 400
    else:
        rec.count(scripted_enumerations=1)
        back = {j: r for r, j in roles.items()}
        sc = rolls.Script(K * n, lambda call: mats[back[call]] if call in back else None)
        with rolls.scripted(sc):
            sim = dmg.i_sim(raws, s, n, save_damage_matrix=True, save_crit_dh_status=True)
    M = sim.get_damage_matrix()
    crit, dh = np.array(sim.get_crit_status(), dtype=bool), np.array(sim.get_dh_status(), dtype=bool)
    dmg.check_ranges(rec, sim, ps, st, h)
    ranges = sim.get_damage_ranges()
    cr, dr = sim.get_crit_and_dh_rates()
    for i, (raw, inst) in enumerate(ps):
        b = dmg.m_base(st, inst)
        drate, crate, bonus = rates[i]
        if not (dmg.close(cr[i], crate) and dmg.close(dr[i], drate)):
            rec.fail("%s: rates %r/%r instead of %s/%s" % (inst.skill.name, cr[i], dr[i], float(crate), float(drate)), h)
        if not dmg.close(sim.get_trait_damage_mult()[i], dmg.m_trait(st, inst)):
            rec.fail("%s: trait multiplier" % inst.skill.name, h)
        memo = {}
        for k in range(n):
            c, d, x = bool(crit[i][k]), bool(dh[i][k]), float(M[i][k])
            rec.transitions += 1
            for rate, got, what in ((crate, c, "critical"), (drate, d, "direct hit")):
                if rate == 0 and got or rate == 1 and not got:
                    rec.fail("%s: %s at rate %s" % (inst.skill.name, what, rate), dict(h, roll=cols[k] if mats else None))
            lo, hi = ranges[i][1 + dmg.ORDER.index((c, d))][1:3]
            if not lo <= x <= hi:
                rec.fail("%s: damage %r outside of the reported range %r..%r of its outcome (crit %s, dh %s)" % (
                    inst.skill.name, x, lo, hi, c, d), dict(h, roll=cols[k] if mats else None))
            if mats is None:
                continue
            r = cols[k][0]
            key = (r, c, d)
            if key not in memo:
                memo[key] = refdmg.hit(b, Fr(r), c, d, bonus, dmg.m_trait(st, inst), dmg.m_mult(inst))
            if not dmg.in_set(x, memo[key]):
                rec.fail("%s: damage %r for roll %r crit %s dh %s, should be %s" % (
                    inst.skill.name, x, r, c, d, sorted(map(float, memo[key]))), h)
        rec.state((inst.skill.name, tuple(effects), job))
    rec.histories += n
    tot = M.sum(axis=0)
    if not np.array_equal(tot, sim.get_raw_damage()):
        rec.fail("totals are not the sums over all instances", h)
    t = [x[0] for x in raws]
    if list(sim.get_damage_time()) != sorted(t):
        rec.fail("damage times %r" % (list(sim.get_damage_time()),), h)
    span = (max(t) - min(t)) / 1000
    if not np.allclose(sim.get_dps(), tot / span, rtol=1e-12):
        rec.fail("DPS is not total / time from first to last damage", h)


def _odds(rec, job, v, lv, effects, statkw):
    """exactly the reported share of draws is critical / direct"""
    w = world(skills(), job=job)
    names = ["P97", "F DEFAULT NO", "F NO DEFAULT", "F YES DEFAULT", "C AUTO"]
    ps = dmg.pairs(w, dict(fight_start=0), history(names, effects))
    if ps is None:
        rec.fail("damage instances differ from the model", effects)
    ps.sort(key=lambda p: p[0][0])
    raws = [p[0] for p in ps]
    s, st = dmg.stats(job, v, lv, **statkw)
    roles = probe_roles(rec, s, raws, 7)
    rec.histories += 1
    if roles is None:
        return
    N = 1000
    grid = np.array([[(k + 0.5) / N for k in range(N)]] * len(ps))
    for which in ("crit", "dh"):
        tick()
        sc = rolls.Script(len(ps) * N, lambda call: grid if call == roles[which] else np.full(grid.shape, 0.5))
        with rolls.scripted(sc):
            sim = dmg.i_sim(raws, s, N, save_crit_dh_status=True)
        got = np.array(sim.get_crit_status() if which == "crit" else sim.get_dh_status(), dtype=bool).sum(axis=1)
        for (raw, inst), g in zip(ps, got):
            rt = dmg.m_rates(st, inst)
            want = min(1, max(0, rt[1] if which == "crit" else rt[0])) * N
            rec.count(checks=1)
            rec.transitions += N
            if abs(g - want) > 1e-6:
                rec.fail("%s: %d of %d draws are %s, should be %s" % (inst.skill.name, g, N, which, float(want)),
                         dict(job=job, level=lv, stats=statkw, effects=effects))
        rec.state((job, lv, which, tuple(effects), str(statkw)))


def _many(rec, n, order):
    """any number of instances, in any order"""
    w = world(skills() + [dict(name="Big", buff=dict(duration=60000, damage_mult=1.9, main_stat_add=700, crit_rate_add=0.3), **OGCD)])
    ps = dmg.pairs(w, dict(fight_start=0), history(["P97", "P1500", "F YES NO"], ["Up"])) + \
        dmg.pairs(w, dict(fight_start=0), history(["F YES YES", "C AUTO", "C MAGICAL_DOT", "C PET", "T2", "S"], ["Up", "Down", "Big"]))
    K = len(ps)
    s, st = dmg.stats("SAM", "7.1", 100)
    tick()
    raws = [(float(i * 10),) + tuple(ps[i % K][0][1:]) for i in range(n)]
    if order == "reversed":
        raws = raws[::-1]
    elif order == "halves":
        raws = raws[n // 2:] + raws[:n // 2]
    keep = [x[0] for x in raws]
    sim = dmg.i_sim(raws, s, 3, save_damage_matrix=True)
    rec.histories += 1
    rec.transitions += n
    rec.state((n, order))
    M = sim.get_damage_matrix()
    h = dict(instances=n, order=order)
    if [x[0] for x in raws] != keep:
        rec.fail("the caller's list was reordered", h)
    if M.shape != (n, 3) or len(sim.get_damage_ranges()) != n or len(sim.get_per_skill_damage()) != n or len(sim.get_event_ids()) != n:
        rec.fail("%s instances reported" % (M.shape,), h)
    if not np.array_equal(sim.get_raw_damage(), M.sum(axis=0)):
        rec.fail("totals are not the sums over all instances", h)
    if list(sim.get_damage_time()) != [i * 10.0 for i in range(n)]:
        rec.fail("times are not in order", h)
    one = [dmg.i_sim([ps[k][0]], s, 1) for k in range(K)]
    e = [float(o.get_expected_damage()) for o in one]
    vr = [float(o.get_damage_variance()) for o in one]
    if not dmg.close(sim.get_expected_damage(), sum(e[i % K] for i in range(n)), 1e-9):
        rec.fail("expected total", h)
    if not dmg.close(sim.get_damage_variance(), sum(vr[i % K] for i in range(n)), 1e-6):
        rec.fail("variance of the total", h)
    dps = sim.get_dps()
    span = (n - 1) * 10 / 1000
    if n > 1 and not np.allclose(dps, sim.get_raw_damage() / span):
        rec.fail("DPS", h)
    if n <= 1 and not all(math.isinf(x) for x in dps):
        rec.fail("DPS of a rotation without duration", h)
    for i in range(n):
        r = sim.get_damage_ranges()[i] if n < 50 else None
        if r and r[0] != ps[i % K][1].skill.name:
            rec.fail("instance %d reported as %s" % (i, r[0]), h)


def _two(rec, w, ps, s, st, idx):
    """instances do not share their rolls: one instance's draws never move another's damage"""
    raws = [p[0] for p in ps]
    roles = probe_roles(rec, s, raws, 7)
    if roles is None:
        a = dmg.i_sim([raws[0]] * 2, s, 500, save_damage_matrix=True).get_damage_matrix()
        if np.array_equal(a[0], a[1]):
            rec.fail("two hits always roll the same")
        return
    for roll in ("roll", "crit", "dh"):
        outs = {}
        for val in (0.0, 0.37, rolls.ONE):
            mats = np.full((len(ps), 9), 0.5)
            mats[idx] = val
            sc = rolls.Script(mats.size, lambda call: mats if call == roles[roll] else np.full(mats.shape, 0.5))
            with rolls.scripted(sc):
                outs[val] = dmg.i_sim(raws, s, 9, save_damage_matrix=True).get_damage_matrix()
        ref_ = outs[0.0]
        for v in outs.values():
            rec.histories += 1
            rec.transitions += len(ps)
            for i in range(len(ps)):
                if i != idx and not np.array_equal(v[i], ref_[i]):
                    rec.fail("the %s of instance %d changes instance %d" % (roll, idx, i))
    rec.state(idx)


def _indep(rec):
    w = world(skills())
    names = [x["name"] for x in w.spec["skills"] if x.get("damage")]
    ps = dmg.pairs(w, dict(fight_start=0), history(names, ["Up"]))
    ps.sort(key=lambda p: p[0][0])
    s, st = dmg.stats("SAM", "7.1", 100)
    for i in range(len(ps)):
        tick()
        _two(rec, w, ps, s, st, i)


def _span(rec, t0, n):
    """DPS is over the time from first to last damage, wherever that lies and however the instances are listed"""
    w = world(skills())
    ps = dmg.pairs(w, dict(fight_start=0), history(["P97", "P1500", "F YES NO"], ["Up"]))
    s, st = dmg.stats("SAM", "7.1", 100)
    for gaps in itertools.product((0, 1, 700, 40000), repeat=n - 1):
        t = [t0]
        for g in gaps:
            t.append(t[-1] + g)
        for order in itertools.permutations(range(n)):
            tick()
            raws = [(t[i],) + tuple(ps[i % 3][0][1:]) for i in order]
            sim = dmg.i_sim(raws, s, 2, save_damage_matrix=True)
            rec.histories += 1
            rec.transitions += n
            h = dict(times=[x[0] for x in raws])
            M = sim.get_damage_matrix()
            tot, span = M.sum(axis=0), (t[-1] - t[0]) / 1000
            if not np.array_equal(tot, sim.get_raw_damage()):
                rec.fail("totals are not the sums over all instances", h)
            if list(sim.get_damage_time()) != t:
                rec.fail("damage times %r" % (list(sim.get_damage_time()),), h)
            d = sim.get_dps()
            if span > 0 and not np.allclose(d, tot / span, rtol=1e-12):
                rec.fail("DPS %r for %r over %r s" % (list(d), list(tot), span), h)
        rec.state((t0, gaps))


def _samples(rec, n):
    """the reported moments are those of the distribution, however many samples are drawn"""
    w = world(skills())
    ps = dmg.pairs(w, dict(fight_start=0), history(["P97", "P1500", "F YES NO"], ["Up"]))
    s, st = dmg.stats("SAM", "7.1", 100)
    raws = [p[0] for p in ps]
    one, many = dmg.i_sim(raws, s, 1), dmg.i_sim(raws, s, n)
    rec.histories += 2
    rec.transitions += n
    rec.state(n)
    for f in ("get_expected_damage", "get_damage_variance", "get_expected_damage_per_damage_instance", "get_variance_per_damage_instance"):
        a, b = np.asarray(getattr(one, f)(), dtype=float), np.asarray(getattr(many, f)(), dtype=float)
        if not np.allclose(a, b, rtol=1e-12):
            rec.fail("%s depends on the number of samples (%d): %r instead of %r" % (f, n, b, a), n)
    if len(many.get_raw_damage()) != n or len(many.get_dps()) != n:
        rec.fail("%d samples asked for, %d totals" % (n, len(many.get_raw_damage())), n)


class Flat:
    """scripts the draws one by one, whatever the shapes asked for"""

    def __init__(self, n, vals):
        self.n, self.vals, self.at = n, vals, 0

    def take(self, shape):
        shape = tuple(int(x) for x in shape)
        m = int(np.prod(shape)) if shape else 1
        if m == 0 or m % self.n:
            return np.full(shape, 0.5)
        a = np.array([self.vals.get(self.at + i, 0.0) for i in range(m)])
        self.at += m
        return a.reshape(shape)


def _separate(rec, name, n=7):
    """no single draw decides two things: the four outcomes are independent, and so are samples"""
    w = world(skills())
    ps = dmg.pairs(w, dict(fight_start=0), history([name], []))
    raws = [p[0] for p in ps]
    s, st = dmg.stats("SAM", "7.1", 100, crit_stat=2500, dh_stat=2500)

    def run(vals):
        f = Flat(n, vals)
        with rolls.scripted(f):
            sim = dmg.i_sim(raws, s, n, save_damage_matrix=True, save_crit_dh_status=True)
        rec.histories += 1
        return (f.at, np.array(sim.get_crit_status(), dtype=bool).ravel(), np.array(sim.get_dh_status(), dtype=bool).ravel(),
                sim.get_damage_matrix().ravel())
    base_ = run({})
    for i in range(base_[0]):
        tick()
        rec.transitions += 1
        rec.state(i)
        r = run({i: 0.9999})
        c, d, m = (r[k] != base_[k] for k in (1, 2, 3))
        if c.any() and d.any():
            rec.fail("one draw decides both critical and direct hit", dict(hit=name, draw=i))
        if (c | d | m).sum() > 1:
            rec.fail("one draw decides several samples", dict(hit=name, draw=i))


def units(tier):
    deep = tier == "thorough"
    out = []
    eff = [(), ("Up",), ("Down",), ("Up", "Down")]
    sets = [dict(), dict(dh_stat=420, crit_stat=420), dict(dh_stat=2100, crit_stat=3999)]
    jobs = dmg.JOBS
    for j in jobs:
        for e in eff:
            for i, kw in enumerate(sets):
                if not deep and i and j not in ("SAM", "BLM"):
                    continue
                out.append(Unit("rolls %s %s %d" % (j, e, i), _enumerate, j, "7.1", 100, e, kw, deep))
                if deep and j not in ("VPR", "PCT"):
                    kw90 = dict(kw, dh_stat=400, crit_stat=400) if i == 1 else kw
                    out.append(Unit("rolls 90 %s %s %d" % (j, e, i), _enumerate, j, "6.55", 90, e, kw90, deep))
    for e in eff:
        for x in range(420, 4000, 97 if deep else 611):
            out.append(Unit("odds %s %d" % (e, x), _odds, "SAM", "7.1", 100, e, dict(crit_stat=x, dh_stat=x)))
    for n in ((0, 1, 2, 3, 10, 4999, 5000, 5001, 10000, 10001, 20001) if not deep else (0, 1, 2, 3, 10, 100, 4999, 5000, 5001, 9999, 10000, 10001, 20000, 20001, 40001, 80001)):
        for o in ("sorted", "reversed", "halves") if n < 5002 else ("sorted",):
            out.append(Unit("count %d %s" % (n, o), _many, n, o))
    out.append(Unit("independence", _indep))
    for n in (1, 2, 3, 999, 10001, 65537, 200000) + ((1000001,) if deep else ()):
        out.append(Unit("samples %d" % n, _samples, n))
    for x in ("P97", "P1500", "F DEFAULT DEFAULT", "C AUTO", "C MAGICAL_DOT", "C PET"):
        out.append(Unit("separate %s" % x, _separate, x))
    for t0 in (0, 1, 10000, -1, -10000, 123456, 87654321):
        for n in (2, 3) + ((4,) if deep else ()):
            out.append(Unit("span %d %d" % (t0, n), _span, t0, n))
    return out


def bounds(tier):
    deep = tier == "thorough"
    return dict(rolls="%d jobs x effect sets x stat sets x 23 kinds of hits x all %d combinations of damage roll x critical draw x direct-hit draw "
                      "(draws at 0, just below/at/just above the rate, 0.5, 1-)" % (21, 63 * 36 if deep else 11 * 36),
                odds="1000 equally spaced draws x %d stat values x 4 effect sets: exactly the reported share hits" % (37 if deep else 6),
                counts="0..%d instances in sorted, reversed and rotated order" % (80001 if deep else 20001),
                samples="moments compared for 1..%d samples" % (1000001 if deep else 200000),
                spans="2..%d instances in every order x 4 gaps x 7 first moments (before, at and after zero)" % (4 if deep else 3),
                separate="every single draw flipped alone: it may decide one thing of one sample only",
                draws="the random generator is replaced by a script; a probe finds which draw is which")
