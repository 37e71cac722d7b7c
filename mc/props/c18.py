"""CSV import and print round trip: every small file, every millisecond."""
import contextlib
import csv
import io
import itertools
import os
import shutil
import tempfile

from .. import adapt
from ..engine import tick
from ..ref import Ambiguous, Illegal
from ..world import diff
from .base import *  # noqa: F401,F403
from . import base

from ama_xiv_combat_sim.simulator.rotation_import_utils.csv_utils import CSVUtils

ID = "C18"
prepare = lambda tier: base.prepare(ID)
COLS = ("time", "skill_name", "job_class", "skill_conditional", "targets")
HEADERS = {
    "lower": COLS,
    "README": ("Time", "skill_name", "job_class", "skill_conditional", "targets"),
    "upper": tuple(c.upper() for c in COLS),
    "title": tuple(c.title() for c in COLS),
    "mixed": ("tImE", "Skill_Name", "JOB_class", "skill_CONDITIONAL", "Targets"),
}


def the_world():
    t = lambda d=0, c=0, **k: dict(timing=dict(animation_lock=600, application_delay=d, base_cast_time=c), **k)
    sk = [
        dict(name="Hit", damage=C({"": dict(potency=100), "Big": dict(potency=250), "1": dict(potency=300), "Big, Wet": dict(potency=400),
                                   "10 G": dict(potency=70), "No Combo": dict(potency=7)}), **t(300, gcd=True)),
        dict(name="Bird's \"Eye\", the Spell", damage=dict(potency=310), **t(600, 2000, gcd=True)),
        dict(name="123", damage=dict(potency=11), debuff=dict(duration=4000, damage_mult=1.1), **t(0, gcd=False)),
        dict(name="Up", buff=dict(duration=9000, damage_mult=1.2), offcond="Off", **t(0, gcd=False)),
        dict(name="kick #2", damage=dict(potency=13), **t(40, gcd=True)),
        dict(name="The  Very Long Dance of 7 Swords, Part II (first half)", damage=dict(potency=23), **t(0, gcd=False)),
        dict(name=" true", damage=dict(potency=17), **t(70, gcd=False)),
        dict(name="\u00c9clair; 007", damage=dict(potency=19), **t(90, gcd=False)),
        dict(name="NA", **t(0, gcd=False), fups=(dict(skill=dict(name="tick", damage=dict(potency=5, damage_class="PHYSICAL_DOT")), dot=4000),)),
    ]
    other = [dict(name="Up", buff=C({"": dict(duration=3000, damage_mult=1.3), "Off": dict(duration=3000, damage_mult=1.4)}), offcond="Off",
                  **t(100, gcd=False)),
             dict(name="Brew", debuff=dict(duration=5000, crit_rate_add=0.1), **t(100, gcd=False))]
    lower = [dict(name="Up", debuff=dict(duration=4000, damage_mult=1.05), **t(20, gcd=False))]
    w = world(sk, others={"DRG": other, "x pet": lower})
    w.label = "csv"
    return w


T = ("0", "1.5", "-1", "2.497", "0.001", "-0.3", "4.02", "1e1", "12", "3.000")
ROWS = [(t, n, j, c, g) for t in T[:3] for n, j in (("Hit", ""), ("Hit", "SAM"), ("Up", "DRG"), ("NA", ""), ("123", ""))
        for c in ("", "Big") for g in ("", "A, B")]
FULL = [(t, n, j, c, g) for t in T
        for n, j in (("Hit", ""), ("Hit", "SAM"), ("Bird's \"Eye\", the Spell", ""), ("123", ""), ("Up", ""), ("Up", "DRG"), ("Brew", "DRG"),
                     ("NA", ""), ("NA", "SAM"), ("kick #2", ""), ("The  Very Long Dance of 7 Swords, Part II (first half)", ""), (" true", ""), ("\u00c9clair; 007", "SAM"), ("Up", "x pet"))
        for c in ("", "Big", "1", "Big, Wet", "Wet,Big", "Unknown thing", "10 G", "No Combo", "NA", "Big; Wet", "big", "#1")
        for g in ("", "A", "A, B", "1", "1, 2", "01", "1.0", "nan", "NA", "B,A", "a #1", "A; B", "Add 1, Add 2, Add 3, Add 4, Add 5, Add 6, Add 7, Add 8, Add 9")]


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="c18_")
        self.f = os.path.join(self.d, "r.csv")
        return self

    def write(self, text):
        with open(self.f, "w", newline="", encoding="utf-8") as f:
            f.write(text)
        return self.f

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def text_of(rows, header, order, targets, quoting, eol):
    buf = io.StringIO()
    wr = csv.writer(buf, lineterminator=eol, quoting=quoting)
    idx = [i for i in order if targets or i != 4]
    wr.writerow([header[i] for i in idx])
    for r in rows:
        wr.writerow([r[i] for i in idx])
    return buf.getvalue()


def ms(t):
    from fractions import Fraction as Fr
    x = Fr(t) * 1000
    assert x.denominator == 1
    return int(x)


def presses_of(rows, targets):
    return [(ms(t), n, dict(cond=c) if c else None, j or None, (g or None) if targets else None) for t, n, j, c, g in rows]


def check_file(rec, w, sc, rows, text, targets, settings):
    """import == model of the rows typed in == typed in on the code"""
    h = dict(file=text, settings=settings)
    rec.sample(h)
    tick()
    presses = presses_of(rows, targets)
    try:
        ev, pr, inst, _ = w.r_run(settings, presses)
    except (Illegal, Ambiguous):
        rec.skipped += 1
        return
    rec.histories += 1
    rb = w.i_build(settings, [])
    got, rows_read = CSVUtils.populate_rotation_from_csv(rb, sc.write(text))
    if len(rows_read) != len(rows):
        rec.fail("%d rows read of %d" % (len(rows_read), len(rows)), h)
    for r, g in zip(rows, rows_read):
        if (g.t, g.skill_name, g.job_class or "", g.skill_conditional or "", g.targets or "") != (
                float(r[0]), r[1], r[2], r[3], r[4] if targets else ""):
            rec.fail("row %r read as %r" % (r, tuple(g)), h)
    q = got.get_skill_timing()
    iev, ipr = adapt.i_events(q), adapt.i_presses(got)
    raw = adapt.DamageBuilder(w.stats, w.lib).get_damage_instances(q)
    bad = diff(ipr, pr, "presses") or diff(iev, ev, "events")
    if bad is None:
        if inst is None:
            rec.open += 1
        else:
            bad = diff(adapt.i_instances(raw), inst, "damage instances")
    if bad is None:
        tev, tpr, _, tin = w.i_run(settings, presses)
        bad = diff(ipr, tpr, "presses (typed in)") or diff(iev, tev, "events (typed in)")
        if bad is None and tin != adapt.i_instances(raw):
            bad = "damage instances differ from typing the rows in"
    if bad:
        rec.fail(bad, h)
    rec.transitions += len(iev) + len(ipr)
    rec.state((tuple(map(str, iev)), text))


S0 = dict()


def _singles(rec, rows, settings):
    w = the_world()
    with Scratch() as sc:
        for r in rows:
            for tg in (True, False):
                if not tg and r[4]:
                    continue
                check_file(rec, w, sc, [r], text_of([r], HEADERS["README"], range(5), tg, csv.QUOTE_MINIMAL, "\n"), tg, settings)


def _headers(rec, rows):
    """one file content in every header spelling, column order, quoting and line ending"""
    w = the_world()
    with Scratch() as sc:
        for name, hd in HEADERS.items():
            for order in itertools.permutations(range(5)):
                check_file(rec, w, sc, rows, text_of(rows, hd, order, True, csv.QUOTE_MINIMAL, "\n"), True, S0)
            for tg in (True, False):
                for qu in (csv.QUOTE_MINIMAL, csv.QUOTE_ALL, csv.QUOTE_NONNUMERIC):
                    for eol in ("\n", "\r\n"):
                        rr = rows if tg else [r[:4] + ("",) for r in rows]
                        check_file(rec, w, sc, rr, text_of(rr, hd, range(5), tg, qu, eol), tg, S0)


def _pairs(rec, first, rows, n, settings):
    w = the_world()
    with Scratch() as sc:
        for rest in itertools.product(rows, repeat=n - 1):
            rr = [first] + list(rest)
            check_file(rec, w, sc, rr, text_of(rr, HEADERS["README"], range(5), True, csv.QUOTE_MINIMAL, "\n"), True, settings)


def _orders(rec, rows):
    """the same rows in every order (distinct times) give the same rotation"""
    w = the_world()
    base_ = None
    with Scratch() as sc:
        for p in itertools.permutations(rows):
            text = text_of(p, HEADERS["lower"], range(5), True, csv.QUOTE_MINIMAL, "\n")
            check_file(rec, w, sc, list(p), text, True, S0)
            rb, _ = CSVUtils.populate_rotation_from_csv(w.i_build(S0, []), sc.write(text))
            ev = adapt.i_events(rb.get_skill_timing())
            base_ = base_ or ev
            if ev != base_:
                rec.fail("row order matters", dict(file=text))


# ---------------------------------------------------------------- printing
def own(pr, job):
    return [(t, n, j or job, c) for t, n, j, c in pr]


def printed(rb):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        rb.print_button_press_timings_as_csv()
    return buf.getvalue()


def parsed(text):
    """the printed lines, conditions as sets (their order is not specified)"""
    return [tuple(r[:3]) + tuple(frozenset(x.strip() for x in c.split(",")) for c in r[3:]) for r in csv.reader(io.StringIO(text))]


def round_trip(rec, w, sc, settings, presses):
    try:
        told = w.r_run(settings, presses)[1]
    except (Illegal, Ambiguous):
        rec.skipped += 1
        return
    tick()
    h = dict(settings=settings, presses=presses)
    rec.sample(h)
    rec.histories += 1
    rb = w.i_build(settings, presses)
    rb.get_skill_timing()
    want = own(adapt.i_presses(rb), w.job)
    bad = diff(want, own(told, w.job), "presses")
    if bad:
        rec.fail(bad, h)
    text = printed(rb)
    rb2, _ = CSVUtils.populate_rotation_from_csv(w.i_build(settings, []), sc.write(text))
    rb2.get_skill_timing()
    got = own(adapt.i_presses(rb2), w.job)
    bad = diff(got, want, "presses after the round trip")
    if bad is None and parsed(printed(rb2)) != parsed(text):
        bad = "printing again gives another text"
    if bad:
        rec.fail(bad, dict(h, text=text))
    rec.transitions += len(want)
    rec.state(text)


def _print(rec, options, first, depth, settings, timed):
    w = the_world()
    with Scratch() as sc:
        gen = timed_histories(options, (0, 333, 1001), depth, [(0, first)]) if timed else seq_histories(options, depth, [first])
        for h in gen:
            for s in settings:
                round_trip(rec, w, sc, s, h)


def _print_real(rec, version, level, job):
    w = RealWorld(version, level, job, flags=dict(base.FLAGS))
    names = w.names()
    with Scratch() as sc:
        for i in range(0, len(names), 5):
            for cond in (None, dict(cond="Foo, Bar"), dict(cond="a, b, c, d, e, f")):
                round_trip(rec, w, sc, dict(fight_start=0), [(1000 * k + 17 * k, n, cond) for k, n in enumerate(names[i:i + 5])])


def _millis(rec, lo, hi):
    """every whole-millisecond time, typed in and imported"""
    w = world([dict(name="A", damage=dict(potency=1), timing=dict(animation_lock=0), gcd=False)])
    want = list(range(lo, hi))
    tick()
    rb = w.i_build(dict(fight_start=0), [(t, "A") for t in want])
    ev = rb.get_skill_timing().get_q()
    got = sorted(e.event_times.primary for e in ev)
    rec.histories += 2
    rec.transitions += 2 * len(want)
    if got != want:
        rec.fail("presses at %r instead of %r" % ([x for x in got if x not in set(want)][:3], sorted(set(want) - set(got))[:3]))
    if sorted(p[0] for p in rb.get_button_press_timing()) != want:
        rec.fail("press times", [x for x in rb.get_button_press_timing() if x[0] not in set(want)][:3])
    with Scratch() as sc:
        text = "Time,skill_name,job_class,skill_conditional\n" + "".join(
            "%s%d.%03d,A,,\n" % ("-" if t < 0 else "", abs(t) // 1000, abs(t) % 1000) for t in want)
        rb, _ = CSVUtils.populate_rotation_from_csv(w.i_build(dict(fight_start=0), []), sc.write(text))
        got = sorted(e.event_times.primary for e in rb.get_skill_timing().get_q())
        if got != want:
            rec.fail("imported presses at %r instead of %r" % ([x for x in got if x not in set(want)][:3], sorted(set(want) - set(got))[:3]))
        # and through the printer
        rb.get_skill_timing()
        rb2, _ = CSVUtils.populate_rotation_from_csv(w.i_build(dict(fight_start=0), []), sc.write(printed(rb)))
        got = sorted(e.event_times.primary for e in rb2.get_skill_timing().get_q())
        if got != want:
            rec.fail("printed presses come back at %r" % ([x for x in got if x not in set(want)][:3],))
    for t in (want[0], want[-1], want[len(want) // 2]):
        rec.state(t)
    rec.count(milliseconds=len(want))


def units(tier):
    deep = tier == "thorough"
    out = []
    full = FULL if deep else [r for i, r in enumerate(FULL) if r[0] in T[:1] or (r[3] == "Big, Wet" and r[4] == "1, 2")]
    for i in range(0, len(full), 120):
        out.append(Unit("rows %d" % i, _singles, full[i:i + 120], S0))
    hr = [("0", "Hit", "", "Big, Wet", "A, B"), ("1.5", "Up", "DRG", "", ""), ("0.7", "123", "SAM", "1", "1")]
    out.append(Unit("headers", _headers, hr))
    out.append(Unit("headers one", _headers, hr[:1]))
    out.append(Unit("headers none", _headers, []))
    rows = ROWS if deep else [r for r in ROWS if r[0] != "-1"]
    for i, r in enumerate(ROWS):
        out.append(Unit("two rows %d" % i, _pairs, r, rows, 2, S0))
        if deep:
            tri = [x for x in ROWS if x[3] == "" or x[4] == ""][::2]
            out.append(Unit("three rows %d" % i, _pairs, r, tri, 3, S0))
    for i, rr in enumerate([[("0", "Hit", "", "", "A, B"), ("1.5", "NA", "", "", "B"), ("3", "123", "", "", "A"), ("0.7", "Up", "DRG", "", ""),
                             ("-1", "Hit", "", "Big", "1")]] + ([[("10", "Hit", "", "", ""), ("9", "Hit", "", "", ""), ("100", "NA", "", "", ""),
                                                                 ("-10", "Up", "", "", ""), ("-9.5", "Brew", "DRG", "", ""), ("1", "Hit", "", "", "")]] if deep else [])):
        out.append(Unit("orders %d" % i, _orders, rr))
    o = [("Hit",), ("Hit", dict(cond="Big")), ("Hit", dict(cond="Wet, Big")), ("Hit", dict(cond="Zz, Wet, Big, 1, A b")), ("Bird's \"Eye\", the Spell",), ("Up", None, "DRG"), ("NA",), ("123",),
         ("Hit", dict(cond="1"), "SAM"), ("kick #2", dict(cond="A; b, Q")), (" true",), ("\u00c9clair; 007",), ("Up", None, "x pet")]
    st = [dict(), dict(fight_start=0)]
    for i, f in enumerate(o):
        out.append(Unit("print timed %d" % i, _print, o, f, 3 if deep else 2, st, True))
        out.append(Unit("print sequence %d" % i, _print, [x for x in o if len(x) < 3], f, 4 if deep else 3, st, False))
    for (v, lv) in CONFIGS if deep else (("7.1", 100),):
        for j in jobs_of(real_library(v, lv)):
            out.append(Unit("print %s %d %s" % (v, lv, j), _print_real, v, lv, j))
    step = 2500
    rng = range(-30000, 1300000, step) if deep else list(range(-5000, 40000, step)) + [597500, 897500, 1197500]
    for lo in list(rng) + [9999000, 12345000, 359999000]:
        out.append(Unit("ms %d" % lo, _millis, lo, lo + step))
    return out


def bounds(tier):
    deep = tier == "thorough"
    return dict(rows="every row of a %d row alphabet (times x skills x jobs x conditions x targets, incl. numeric looking, NA, quoted)" % len(FULL) if deep
                else "every time-0 row of a %d row alphabet" % len(FULL),
                files="every file of 2%s rows over a %d row alphabet" % (" and 3" if deep else "", len(ROWS)),
                headers="5 capitalisations x 120 column orders, 3 quotings x 2 line endings x with/without targets",
                printing="every rotation of up to %d timed and %d sequenced presses, and every skill of %s" % (
                    3 if deep else 2, 4 if deep else 3, "all libraries" if deep else "7.1/100"),
                milliseconds="-30 s..1300 s, and 2.5 s around 2.8, 3.4 and 100 h" if deep else "-5 s..40 s and 2.5 s around 10, 15 and 20 min, 2.8, 3.4 and 100 h")
