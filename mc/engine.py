"""Exploration engine: runs the units of one check on all cores, exhaustively, and reports.

A unit is a named, finite, deterministic part of the bounded space; a check explores all of its
units.  There is no sampling and no time cut-off: the bounds alone decide what is covered.
Exit codes: 0 held on everything explored, 1 violation, 2 the machinery itself failed.
"""
import json
import multiprocessing as mp
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
from multiprocessing.connection import wait

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, "evidence")
HISTORY_SECONDS = 60
WORKER_BYTES = 6 << 30


class Violation(Exception):
    def __init__(self, what, history=None):
        super().__init__(what)
        self.what, self.history = what, history


class Stuck(BaseException):
    """the code under test did not come back"""


class Rec:
    """what a unit covered"""

    def __init__(self):
        self.n = dict(states=0, checks=0)
        self.histories = self.transitions = self.skipped = self.open = self.instances = 0
        self.seen = set()
        self.samples = []

    def state(self, key):
        self.seen.add(hash(key))

    def count(self, **kw):
        for k, v in kw.items():
            self.n[k] = self.n.get(k, 0) + v

    def sample(self, x):
        if len(self.samples) < 2:
            self.samples.append(x)

    def fail(self, what, history=None):
        raise Violation(what, history)

    def done(self):
        self.n["states"] += len(self.seen)
        for k in ("histories", "transitions", "skipped", "open", "instances"):
            self.n[k] = self.n.get(k, 0) + getattr(self, k)
        return self.n


class Unit:
    def __init__(self, name, fn, *args, **kw):
        self.name, self.fn, self.args, self.kw = name, fn, args, kw

    def run(self, rec):
        self.fn(rec, *self.args, **self.kw)


_UNITS = []


def _alarm(*_):
    raise Stuck("no answer within %d s" % HISTORY_SECONDS)


_WORKER = False


def tick():
    """restart the watchdog; called at the start of each history"""
    if _WORKER:
        signal.setitimer(signal.ITIMER_REAL, HISTORY_SECONDS, 10)


def _init():
    global _WORKER
    _WORKER = True
    signal.signal(signal.SIGALRM, _alarm)
    resource.setrlimit(resource.RLIMIT_AS, (WORKER_BYTES, WORKER_BYTES))
    sys.stdout = open(os.devnull, "w")
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def in_code(tb):
    """was the exception raised while the code under test was running?"""
    from .adapt import REPO
    root = os.path.join(os.path.realpath(REPO), "")
    return any(os.path.realpath(f.filename).startswith(root) for f in traceback.extract_tb(tb))


def _run(i):
    u, rec = _UNITS[i], Rec()
    try:
        tick()
        u.run(rec)
        signal.setitimer(signal.ITIMER_REAL, 0)
        return i, "ok", None, None, rec.done(), rec.samples
    except Violation as v:
        return i, "violation", v.what, v.history, rec.done(), rec.samples
    except (Exception, Stuck) as e:  # noqa: BLE001
        signal.setitimer(signal.ITIMER_REAL, 0)
        kind = "violation" if in_code(e.__traceback__) or isinstance(e, (Stuck, MemoryError)) else "error"
        return (i, kind, "%s: %s" % (type(e).__name__, str(e)[:500]), traceback.format_exc()[-4000:],
                rec.done(), rec.samples)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _worker(conn, parent_ends):
    for c in parent_ends:
        c.close()
    _init()
    while True:
        try:
            i = conn.recv()
        except EOFError:
            os._exit(0)
        r = _run(i)
        try:
            conn.send(r)
        except Exception:  # noqa: BLE001  (something in the report cannot be sent)
            conn.send((r[0], r[1], str(r[2]), repr(r[3])[:4000], r[4], [repr(x)[:300] for x in r[5]]))


class Pool:
    """forked workers, one unit at a time each; a worker that dies is noticed and its unit is run once more"""

    def __init__(self, n):
        self.live = {}
        for _ in range(n):
            self.spawn()

    def spawn(self):
        a, b = mp.Pipe()
        pid = os.fork()
        if pid == 0:
            try:
                _worker(b, list(self.live) + [a])
            finally:
                os._exit(1)
        b.close()
        self.live[a] = [pid, None]

    def drop(self, c):
        pid, i = self.live.pop(c)
        c.close()
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
        return i

    def run(self, n):
        todo, died, left = list(range(n))[::-1], set(), n
        while left:
            for c, st in self.live.items():
                if st[1] is None and todo:
                    st[1] = todo.pop()
                    try:
                        c.send(st[1])
                    except OSError:
                        pass
            for c in wait([c for c, st in self.live.items() if st[1] is not None]):
                try:
                    r = c.recv()
                    self.live[c][1] = None
                except (EOFError, OSError):
                    i = self.drop(c)
                    self.spawn()
                    if i not in died:
                        died.add(i)
                        todo.append(i)
                        continue
                    r = (i, "violation", "the process running this unit died, twice", None, {}, [])
                left -= 1
                yield r

    def close(self):
        for c in list(self.live):
            self.drop(c)


def explore(units, procs=None):
    """-> (totals, samples, first violation or None, errors)"""
    global _UNITS
    _UNITS = units
    tot, samples, bad, errors = {}, [], None, []
    procs = procs or min(8, os.cpu_count() or 1)
    sys.stdout.flush()
    if not units:
        return tot, samples, bad, errors
    tmp, old_tmp = tempfile.mkdtemp(prefix="mc_"), tempfile.tempdir
    tempfile.tempdir = tmp              # the workers' scratch files, removed here whatever becomes of the workers
    pool = Pool(min(procs, len(units)))
    try:
        for i, kind, what, hist, n, smp in pool.run(len(units)):
            for k, v in n.items():
                tot[k] = tot.get(k, 0) + v
            if len(samples) < 6:
                samples.extend(dict(unit=units[i].name, history=s) for s in smp[:1])
            if kind == "violation":
                bad = dict(unit=units[i].name, what=what, history=hist)
                break
            if kind == "error":
                errors.append(dict(unit=units[i].name, what=what, history=hist))
                if len(errors) > 3:
                    break
    finally:
        pool.close()
        tempfile.tempdir = old_tmp
        shutil.rmtree(tmp, ignore_errors=True)
    return tot, samples, bad, errors


def run_check(check, tier, only=None):
    t0 = time.time()
    pid = check.ID
    os.makedirs(EVID, exist_ok=True)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    known, pre_bad = [], None
    try:
        known, pre_bad = check.prepare(tier)
        units = check.units(tier) if pre_bad is None else []
    except Exception as e:  # noqa: BLE001
        if in_code(e.__traceback__):
            pre_bad, units = "preparing the exploration, the code raised %s: %s" % (type(e).__name__, str(e)[:400]), []
        else:
            traceback.print_exc()
            return 2
    if only is not None:
        units = [u for u in units if u.name == only]
    tot, samples, bad, errors = explore(units)
    if pre_bad is not None:
        bad = dict(unit="prepare", what=pre_bad, history=None)
    wall = time.time() - t0
    n = lambda k: int(tot.get(k, 0))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": max(1, n("states")), "transitions": max(1, n("transitions")),
            "traces_validated_against_impl": n("histories"),
            "samples": samples or [{"unit": "none"}],
            "units": len(units), "checks": n("checks"), "damage_instances": n("instances"),
            "histories_outside_the_specified_domain": n("skipped"),
            "histories_with_open_tie_order": n("open"),
            "bounds": check.bounds(tier), "exhaustive_within_bounds": True,
        },
        "wall_s": round(wall, 2),
        "result": "violation" if bad else "held",
        "known_findings": known,
    }
    for k, v in tot.items():
        if k not in ("states", "transitions", "histories", "skipped", "open", "instances", "checks"):
            ev["coverage"][k] = int(v)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if bad:
        path = os.path.join(EVID, "replay_%s.json" % pid)
        with open(path, "w") as f:
            json.dump(dict(property=pid, tier=tier, **bad), f, indent=1, default=str)
        print("unit: %s" % bad["unit"])
        print("what: %s" % str(bad["what"])[:1500])
        print("history: %s" % str(bad["history"])[:1500])
        print("rerun: cd %s && python -m mc.run %s %s --unit %r" % (HERE, pid, tier, bad["unit"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        for e in errors:
            print("machinery error in unit %s: %s\n%s" % (e["unit"], e["what"], e["history"]))
        return 2
    print("%s %s: held; %d units, %d histories on the code, %d states, %d transitions, %.1f s" % (
        pid, tier, len(units), n("histories"), n("states"), n("transitions"), wall))
    return 0
