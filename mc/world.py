"""A world = one library + one player, on both sides (implementation and model), and the
conformance step: play one history on both and compare every observable."""
from fractions import Fraction as Fr

from . import adapt, engine, ref
from .adapt import C  # noqa: F401  (re-exported)
from .ref import Illegal, Ambiguous

STAT_BASE = dict(wd=132, weapon_delay=2.64, main_stat=3360, det_stat=1697, dh_stat=1582, crit_stat=2554,
                 speed_stat=420)
# level modifiers published for the game; written down here independently of the code
LEVEL = {90: dict(sub=400, div=1900, main=390), 100: dict(sub=420, div=2780, main=440)}
SPEED_CONST = 130


def trait_speed(job, version, level):
    """(haste, auto) reduction of the job's trait"""
    if job == "MNK":
        return Fr(1, 5)
    if job == "NIN" and level == 100 and version >= "7.0":
        return Fr(3, 20)
    return Fr(0)


WEAPON_DELAYS = dict(PLD=2.24, WAR=3.36, DRK=2.96, GNB=2.80, DRG=2.80, RPR=3.20, MNK=2.56, SAM=2.64, NIN=2.56,
                     VPR=2.64, BRD=3.04, MCH=2.64, DNC=3.12, BLM=3.28, SMN=3.12, RDM=3.44, PCT=2.96, WHM=3.44,
                     SCH=3.12, AST=3.20, SGE=2.80)


def model_stats(job, version, level, speed, weapon_delay):
    lv = LEVEL[level]
    tr = trait_speed(job, version, level)
    wd = WEAPON_DELAYS[job] if weapon_delay is None else weapon_delay
    return ref.NS(dict(speed=speed, speed_const=SPEED_CONST, level_sub=lv["sub"], level_div=lv["div"],
                       trait_haste=tr, trait_auto=tr, weapon_delay=wd), {})


def make_stats(job="SAM", version="7.1", level=100, **kw):
    d = dict(STAT_BASE)
    d.update(kw)
    if job in ("WAR", "PLD", "DRK", "GNB"):
        d.setdefault("tenacity", 868)
    if job in ("WHM", "SCH", "AST", "SGE", "BLM", "SMN", "RDM", "PCT"):
        d.setdefault("healer_or_caster_strength", 214)
    return (adapt.Stats(job_class=job, version=version, level=level, **d),
            model_stats(job, version, level, d["speed_stat"], d["weapon_delay"]))


AUTO = dict(name="Auto", damage=dict(potency=90, damage_class="AUTO"),
            timing=dict(animation_lock=0, application_delay=532), gcd=False)


class World:
    def __init__(self, skills, job="SAM", priority=(), gauges=None, breakers=None, others=None,
                 version="7.1", level=100, flags=None, **statkw):
        self.spec = dict(skills=skills, job=job, priority=priority, gauges=gauges, breakers=breakers, others=others)
        self.job, self.flags = job, flags or {}
        lib = adapt.SkillLibrary(version=version, level=level)
        names = {s["name"] for s in skills}
        if "Auto" not in names:
            skills = list(skills) + [AUTO]
        r_skills = {}
        lib.set_current_job_class(job)
        lib.set_status_effect_priority(tuple(priority))
        for g, by in (breakers or {}).items():
            lib.add_combo_breaker(g, tuple(by))
        for n, st in (gauges or {}).items():
            lib.add_resource(n, adapt.JobResourceSettings(**st))
        for s in skills:
            lib.add_skill(adapt.i_skill(s))
            r_skills[s["name"]] = adapt.r_skill(s, self.flags)
        r_others = {}
        for j, sk in (others or {}).items():
            lib.set_current_job_class(j)
            r_others[j] = {}
            for s in sk:
                lib.add_skill(adapt.i_skill(s))
                r_others[j][s["name"]] = adapt.r_skill(s, self.flags)
        self.lib = lib
        self.r_lib = ref.Lib(r_skills, priority, {n: ref.settings(s) for n, s in (gauges or {}).items()},
                             breakers or {}, r_others)
        self.stats, self.r_stats = make_stats(job, version, level, **statkw)

    # ---- the two sides
    def i_build(self, settings, presses):
        rb = adapt.RotationBuilder(self.stats, self.lib, **i_settings(settings))
        for p in presses:
            i_press(rb, p)
        return rb

    def r_build(self, settings, presses):
        cfg = ref.Cfg(self.r_stats, self.r_lib, self.job, flags=self.flags, **settings)
        b = ref.Builder(cfg)
        for t, name, mod, job, tg in map(full, presses):
            m = adapt.r_mod(mod)
            if t is None:
                b.add_next(name, m, job, tg)
            else:
                b.add(t, name, m, job, tg)
        return b

    def i_run(self, settings, presses):
        """-> (events, presses, raw damage instances, canonical instances)"""
        rb = self.i_build(settings, presses)
        q = rb.get_skill_timing()
        ev = adapt.i_events(q)
        pr = adapt.i_presses(rb)
        raw = adapt.DamageBuilder(self.stats, self.lib).get_damage_instances(q)
        return ev, pr, raw, adapt.i_instances(raw)

    def r_run(self, settings, presses):
        return ref.run(self.r_build(settings, presses))


def i_settings(s):
    d = dict(s)
    out = {}
    for a, b in (("snap_dots", "snap_dots_to_server_tick_starting_at"), ("autos", "enable_autos"),
                 ("ignore_trailing", "ignore_trailing_dots"), ("fight_start", "fight_start_time"),
                 ("default_target", "default_target")):
        if a in d:
            out[b] = d[a]
    if "downtime" in d:
        dt = d["downtime"]

        def conv(ws):
            return tuple(tuple(w[:2]) + ((adapt._CLS[w[2]],) if len(w) > 2 and w[2] is not None else ()) for w in ws)
        out["downtime_windows"] = {k: conv(v) for k, v in dt.items()} if isinstance(dt, dict) else conv(dt)
    return out


def full(p):
    return tuple(p) + (None,) * (5 - len(p))


def i_press(rb, p):
    t, name, mod, job, tg = full(p)
    kw = {}
    if mod is not None:
        kw["skill_modifier"] = adapt.i_mod(mod)
    if job is not None:
        kw["job_class"] = job
    if tg is not None:
        kw["targets"] = tg
    if t is None:
        rb.add_next(name, **kw)
    else:
        rb.add(t / 1000, name, **kw)


def diff(a, b, what):
    """first difference between two canonical lists"""
    if a == b:
        return None
    sa, sb = list(a), list(b)
    only_a = [x for x in sa if x not in sb]
    only_b = [x for x in sb if x not in sa]
    return "%s differ: code has %r, model has %r" % (what, only_a[:2] or "(count %d)" % len(sa),
                                                     only_b[:2] or "(count %d)" % len(sb))


Stat = engine.Rec


def conform(world, settings, presses, st, parts=("events", "presses", "instances")):
    """play one history on the code and on the model; returns None or what differs"""
    try:
        ev, pr, inst, _ = world.r_run(settings, presses)
    except (Illegal, Ambiguous):
        st.skipped += 1
        return None
    st.histories += 1
    engine.tick()
    try:
        iev, ipr, raw, iinst = world.i_run(settings, presses)
    except Exception as e:  # noqa: BLE001
        return "code raised %s: %s" % (type(e).__name__, str(e)[:300])
    st.transitions += len(iev) + len(ipr) + len(iinst)
    st.state((tuple(iev), tuple(iinst)))
    st.instances += len(iinst)
    skip = getattr(world, "unseen", ())
    if skip:        # events without any damage whose number and split into steps nobody can tell
        iev, ev = [[e for e in x if e[2] not in skip] for x in (iev, ev)]
    bad = None
    if "presses" in parts:
        bad = diff(ipr, pr, "presses")
    if bad is None and "events" in parts:
        bad = diff(iev, ev, "events")
    if bad is None and "instances" in parts:
        if inst is None:
            st.open += 1
        else:
            bad = diff(iinst, inst, "damage instances")
        if bad is None:
            times = [x[0] for x in raw]
            if times != sorted(times):
                bad = "damage instances are not in time order: %r" % (times,)
    return bad


# ---------------------------------------------------------------- real libraries
CONFIGS = (("6.55", 90), ("7.0", 90), ("7.0", 100), ("7.01", 90), ("7.01", 100), ("7.05", 90), ("7.05", 100),
           ("7.1", 90), ("7.1", 100))
_LIBS = {}


def real_library(version, level):
    k = (version, level)
    if k not in _LIBS:
        _LIBS[k] = adapt.create_skill_library(version=version, level=level)
    return _LIBS[k]


class RealWorld(World):
    """a job of a real library; the model reads the skill data from it"""

    def __init__(self, version, level, job, flags=None, **statkw):
        self.lib = real_library(version, level)
        self.job, self.flags, self.version, self.level = job, flags or {}, version, level
        self.r_lib = adapt.f_lib(self.lib, job)
        statkw.setdefault("weapon_delay", None)
        self.stats, self.r_stats = make_stats(job, version, level, **statkw)

    def names(self):
        return [n for n in adapt.library_skills(self.lib, self.job)]


def jobs_of(lib):
    return [j for j in lib.get_jobs() if j in WEAPON_DELAYS]
