"""Every skill of every job, patch and level: alone, in every condition, after every other skill."""
import math

import numpy as np

from .. import adapt, dmg, golden, ref
from ..engine import tick
from ..ref import Ambiguous, Illegal
from .base import *  # noqa: F401,F403
from . import base

ID = "C20"
prepare = lambda tier: base.prepare(ID)


def names(w):
    return [n for n in w.names() if not n.startswith("Wait ")]


def keys(sk):
    """all condition sets the skill's data mentions (follow-ups included)"""
    out = set()

    def walk(s):
        for v in (s.damage, s.timing, s.buff, s.debuff, s.chan, s.res, s.combo, s.fups):
            if isinstance(v, ref.Var):
                out.update(frozenset(k) for k in v.alts)
        for f in (x for alt in (s.fups.alts.values() if isinstance(s.fups, ref.Var) else [s.fups]) for x in (alt or ())):
            walk(f.skill)
    walk(sk)
    return out


def conditions(sk):
    ks = keys(sk)
    atoms = sorted({a for k in ks for a in k if not a.startswith("Target ")})
    out = {frozenset(a for a in k if not a.startswith("Target ")) for k in ks} | {frozenset([a]) for a in atoms}
    out.add(frozenset())
    if len(atoms) <= 3:
        for n in range(len(atoms) + 1):
            out.update(map(frozenset, itertools.combinations(atoms, n)))
    return sorted(out, key=sorted)


def mod(c):
    return dict(cond=", ".join(sorted(c))) if c else None


def numbers(rec, w, st, s, settings, presses):
    """simulate end to end; every number finite, not negative and the one the formulas give"""
    try:
        ps = dmg.pairs(w, settings, presses)
    except (Illegal, Ambiguous, dmg.OpenTie):
        rec.skipped += 1
        return
    h = dict(world=(w.version, w.level, w.job), settings=settings, presses=presses)
    if ps is None:
        rec.fail("damage instances differ from the model", h)
    tick()
    sim = dmg.i_sim([p[0] for p in ps], s, 3, save_damage_matrix=True)
    rec.transitions += len(ps)
    if ps:
        dmg.check_ranges(rec, sim, ps, st, h)
        M = np.asarray(sim.get_damage_matrix(), dtype=float)
        vals = list(M.flatten()) + list(sim.get_expected_damage_per_damage_instance()) + list(sim.get_raw_damage())
        if not all(math.isfinite(x) and x >= 0 for x in vals):
            rec.fail("damage is not a finite non-negative number: %r" % ([x for x in vals if not (math.isfinite(x) and x >= 0)][:3],), h)
    rep = sim.get_per_skill_damage()
    if len(rep) != len(ps):
        rec.fail("%d hits reported of %d" % (len(rep), len(ps)), h)


def _singles(rec, v, lv, job, deep):
    w = RealWorld(v, lv, job, flags=dict(base.FLAGS))
    s, st = dmg.stats(job, v, lv)
    f0 = dict(fight_start=0)
    for n in names(w):
        sk = w.r_lib.skills[n]
        for c in conditions(sk):
            m = mod(c)
            rec.sample((v, lv, job, n, m))
            play(rec, w, dict(), [(None, n, m)])
            play(rec, w, f0, [(0, n, m, None, "A, B, C")])
            play(rec, w, dict(autos=True), [(0, n, m), (9000, n, m)])
            if deep:
                for fm in (dict(force_combo=True), dict(crit="YES", dh="YES"), dict(crit="NO", dh="NO"), dict(no_cast=True, no_delay=True)):
                    play(rec, w, f0, [(0, n, dict(fm, cond=(m or {}).get("cond", "")))])
            numbers(rec, w, st, s, f0, [(0, n, m), (4000, n, m, None, "A, B")])


def _data(rec, v, lv):
    """the skills are those of the committed contents of this patch and level"""
    lib = real_library(v, lv)
    got = golden.dump(lib, waits=False)
    want = {j: {k: t for k, t in x.items() if not golden.is_wait(k)} for j, x in golden.load()[v, lv].items()}
    rec.histories += 1
    rec.transitions += sum(map(len, got.values()))
    bad = golden.compare(got, want)
    if bad:
        rec.fail("%s/%d: %s" % (v, lv, bad), dict(version=v, level=lv))
    rec.state((v, lv))


def _after(rec, v, lv, job, first, settings):
    """every skill right after `first`"""
    w = RealWorld(v, lv, job, flags=dict(base.FLAGS))
    for a in first:
        for b in names(w):
            rec.sample((v, lv, job, a, b))
            for s in settings:
                play(rec, w, s, [(None, a), (None, b)])


def _timed(rec, v, lv, job, first, gaps, settings):
    w = RealWorld(v, lv, job, flags=dict(base.FLAGS))
    for a in first:
        for b in names(w):
            for g in gaps:
                for s in settings:
                    play(rec, w, s, [(0, a), (g, b), (g + 700, b, None, None, "A, B")])


def _triples(rec, v, lv, job, a, seconds):
    w = RealWorld(v, lv, job, flags=dict(base.FLAGS))
    for b in seconds:
        for c in names(w):
            play(rec, w, dict(), [(None, a), (None, b), (None, c)])


def legal(w, n):
    """may be pressed without preparation"""
    try:
        w.r_run(dict(), [(0, n)])
        return True
    except (Illegal, Ambiguous):
        return False


def _walk(rec, v, lv, job, k):
    """the whole skill list, rotated by k, each skill twice, as one rotation"""
    w = RealWorld(v, lv, job, flags=dict(base.FLAGS))
    ns = [n for n in names(w) if legal(w, n)]
    ns = ns[k % len(ns):] + ns[:k % len(ns)]
    s, st = dmg.stats(job, v, lv)
    play(rec, w, dict(), [(None, n) for n in ns])
    play(rec, w, dict(autos=True), [(None, n) for n in ns[::-1]])
    play(rec, w, dict(autos=True, fight_start=0), [(700 * i, n, None, None, "A, B" if i % 3 else "B") for i, n in enumerate(ns)])
    numbers(rec, w, st, s, dict(autos=True), [(1100 * i, n) for i, n in enumerate(ns)])


def _party(rec, v, lv, job, other, deep):
    """every skill of another player's job: alone, and between the player's own hits"""
    w = RealWorld(v, lv, job, flags=dict(base.FLAGS))
    lib = real_library(v, lv)
    own = dict(WAR="Heavy Swing", BLM="Xenoglossy").get(job) or next(
        n for n in names(w) if w.r_lib.skills[n].gcd and w.r_lib.skills[n].damage is not None and legal(w, n))
    for n in adapt.library_skills(lib, other):
        if n.startswith("Wait "):
            continue
        sk = w.r_lib.others[other][n]
        cs = conditions(sk) if deep else [frozenset()] + ([frozenset([sk.offcond])] if sk.offcond else [])
        for m in [None] + [mod(c) or dict(cond="") for c in cs]:
            rec.sample((v, lv, job, other, n, m))
            for a in (False, True) if deep else (False,):
                play(rec, w, dict(autos=a), [(0, own), (500, n, m, other), (2000, own), (2500, n, m, other, "A, B"), (5000, own)])
            play(rec, w, dict(), [(None, own), (None, own), (None, own), (700, n, m, other)])


def chunk(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def stateful(w, n):
    """skills that leave something behind for the next ones (effects, gauges, combos, channels)"""
    def has(s):
        return any(x not in (None, ()) for x in (s.buff, s.debuff, s.res, s.combo, s.chan)) or any(
            has(f.skill) for alt in (s.fups.alts.values() if isinstance(s.fups, ref.Var) else [s.fups]) for f in (alt or ()))
    return has(w.r_lib.skills[n])


def units(tier):
    deep = tier == "thorough"
    golden.load()
    out = []
    for v, lv in CONFIGS:
        out.append(Unit("data %s/%d" % (v, lv), _data, v, lv))
        for job in jobs_of(real_library(v, lv)):
            tag = "%s/%d %s" % (v, lv, job)
            w = RealWorld(v, lv, job)
            ns = names(w)
            out.append(Unit("alone " + tag, _singles, v, lv, job, deep))
            for other in jobs_of(real_library(v, lv)):
                if other != job and (deep or (v, lv) in (("7.1", 100), ("6.55", 90)) and job in ("WAR", "BLM")):
                    out.append(Unit("party %s %s" % (tag, other), _party, v, lv, job, other, deep))
            for k in range(0, len(ns), 9 if deep else 31):
                out.append(Unit("walk %s %d" % (tag, k), _walk, v, lv, job, k))
            if deep or (v, lv) == ("7.1", 100):
                st = [dict(), dict(autos=True)] if deep else [dict()]
                for i, c in enumerate(chunk(ns, 8)):
                    out.append(Unit("after %s %d" % (tag, i), _after, v, lv, job, c, st))
                    if deep and (v, lv) in (("7.1", 100), ("6.55", 90)):
                        out.append(Unit("timed %s %d" % (tag, i), _timed, v, lv, job, c, (300, 2500), [dict(), dict(autos=True)]))
            if deep and (v, lv) == ("7.1", 100):
                sf = [n for n in ns if stateful(w, n) and not n.startswith(("LB", "Grade"))]
                for a in sf:
                    out.append(Unit("triples %s %s" % (tag, a), _triples, v, lv, job, a, sf))
    return out


def bounds(tier):
    deep = tier == "thorough"
    return dict(skills="all skills of all jobs of all 9 supported (patch, level) libraries, each in every condition set its data mentions, "
                       "on 1 and 3 targets, with and without auto-attacks",
                party="every skill of every other job, pressed by another player around own hits, own jobs: " + ("all" if deep else "WAR, BLM"),
                pairs="all ordered pairs of skills of every job: " + ("all 9 libraries" if deep else "7.1/100"),
                triples="all triples (effect-leaving skill, effect-leaving skill, any skill) of 7.1/100" if deep else "none",
                walks="whole skill lists in rotations of the list order", numbers="ranges, odds, means, variances of every hit against the formulas")
