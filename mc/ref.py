"""Executable reference model of the rotation -> timeline -> damage-instance pipeline.

This is the MODEL side of the model checking: an explicit-state transition system
(button presses, then snapshot/landing events) written from the property statements,
independent of the implementation's classes.  Times are integer milliseconds.  All
multiplicative arithmetic is exact (fractions), so no floating point is mirrored.

Two places where the implementation deviates from the properties but is pinned by the
repository's own tests are selectable (see findings.py): they are decided by a probe.
"""
import heapq
from fractions import Fraction as Fr
from math import inf, floor, ceil, trunc

DEFAULT_TARGET = "Default Target"
SNAP_BEFORE = 500
TICK = 3000
MULTI_DELAY = 135
COMBO_TIME = 30000
GCD = 2500
MIN_GCD = 1500


class Illegal(Exception):
    """The history uses a skill in a way its data does not define."""


class Ambiguous(Exception):
    """The data leaves the outcome open (two equally specific variants)."""


# ---------------------------------------------------------------- skill data
_EFF_DEF = dict(duration=0, max_duration=None, num_uses=inf, max_num_uses=None,
                crit_rate_add=0, dh_rate_add=0, damage_mult=1, main_stat_add=0,
                main_stat_mult=1, auto_attack_delay_reduction=0,
                haste_time_reduction=0, flat_cast_time_reduction=0,
                flat_gcd_recast_time_reduction=0, extends_existing_duration=True,
                expires_status_effects=(), skill_allowlist=None,
                guaranteed_crit="DEFAULT", guaranteed_dh="DEFAULT",
                add_to_skill_modifier_condition=False, extend_only=False,
                is_party_effect=False, clear_all_status_effects=False)
_DMG_DEF = dict(potency=None, damage_class="DIRECT", guaranteed_crit="DEFAULT",
                guaranteed_dh="DEFAULT", trait_damage_mult_override=None,
                pet_job_mod_override=None, pet_scalar=1.0, use_min_potency=None,
                single_damage_mult=1)
_TIM_DEF = dict(base_cast_time=0, gcd_base_recast_time=GCD, animation_lock=650,
                application_delay=0, affected_by_speed_stat=True,
                affected_by_haste_buffs=True)
_RES_DEF = dict(name="", change=0, duration=inf, refreshes_duration_of_last_gained=False,
                clear_all_resources_only=False)
_COMBO_DEF = dict(combo_actions=(), combo_group=0, combo_auto_succeed=False,
                  break_all_combos_only=False)
_CHAN_DEF = dict(duration=0, skill_allowlist=(), num_uses=inf)
_SET_DEF = dict(max_value=0, skill_allowlist=(), expiry_from_last_gain=inf,
                add_number_to_conditional=True)


class NS:
    """plain record; equality by content"""
    __slots__ = ("__dict__",)

    def __init__(self, defaults, kw):
        d = self.__dict__
        d.update(defaults)
        for k, v in kw.items():
            if k not in defaults:
                raise KeyError(k)
            d[k] = v

    def __eq__(self, o):
        return isinstance(o, NS) and self.__dict__ == o.__dict__

    def __hash__(self):
        return hash(tuple(sorted((k, str(v)) for k, v in self.__dict__.items())))

    def __repr__(self):
        return repr(self.__dict__)


def frac(x):
    if isinstance(x, Fr):
        return x
    if x == inf or x == -inf:
        return x
    return Fr(str(x)) if isinstance(x, float) else Fr(x)


def effect(kw):
    if kw is None:
        return None
    e = NS(_EFF_DEF, kw)
    if e.max_duration is None:
        e.max_duration = e.duration
    if e.max_num_uses is None:
        e.max_num_uses = e.num_uses
    for k in ("crit_rate_add", "dh_rate_add", "damage_mult", "main_stat_add",
              "main_stat_mult", "auto_attack_delay_reduction", "haste_time_reduction"):
        setattr(e, k, frac(getattr(e, k)))
    return e


def damage(kw):
    return None if kw is None else NS(_DMG_DEF, kw)


def timing(kw):
    if kw is None:
        return None
    kw = dict(kw)
    if kw.get("gcd_base_recast_time", GCD) is None:
        kw["gcd_base_recast_time"] = GCD
    return NS(_TIM_DEF, kw)


def resource(kw):
    return NS(_RES_DEF, kw)


def combo(kw):
    return NS(_COMBO_DEF, kw)


def channel(kw):
    return None if kw is None else NS(_CHAN_DEF, kw)


def settings(kw):
    return NS(_SET_DEF, kw)


def canon(cond):
    """conditions written as text -> set of conditions"""
    if cond is None or cond == "":
        return frozenset()
    return frozenset(p.strip() for p in cond.split(","))


class Var:
    """A value that depends on the conditions in force: the largest matching set wins."""
    __slots__ = ("alts",)

    def __init__(self, alts):          # {frozenset: value}
        self.alts = dict(alts)

    def pick(self, conds):
        """the largest contained condition set; among equally large ones the last declared"""
        best, size = None, -1
        for key, val in self.alts.items():
            if key <= conds and len(key) >= size:
                best, size = val, len(key)
        if size < 0:
            raise Illegal("no variant for %s" % sorted(conds))
        return best

    def values(self):
        return list(self.alts.values())


def pick(v, conds):
    return v.pick(conds) if type(v) is Var else v


class FollowUp:
    __slots__ = ("skill", "delay", "buffs", "debuffs", "dot", "primary_only", "uid")

    def __init__(self, skill, delay, buffs=True, debuffs=True, dot=None, primary_only=True):
        self.skill, self.delay, self.buffs, self.debuffs = skill, delay, buffs, debuffs
        self.dot, self.primary_only = dot, primary_only

    def key(self):
        return (self.delay, self.buffs, self.debuffs, self.dot, self.primary_only, self.skill.content())

    def __eq__(self, o):
        return self.key() == o.key()


class Skill:
    __slots__ = ("name", "damage", "timing", "buff", "debuff", "chan", "res", "combo",
                 "deny", "gcd", "ignored", "res_snap", "fups", "offcond", "_c")

    def __init__(self, name, damage=None, timing=None, buff=None, debuff=None, chan=None,
                 res=(), combo=(), deny=(), gcd=None, ignored=(), res_snap=True,
                 fups=(), offcond=""):
        self.name, self.damage, self.timing, self.buff, self.debuff = name, damage, timing, buff, debuff
        self.chan, self.res, self.combo, self.deny, self.gcd = chan, res, combo, deny, gcd
        self.ignored, self.res_snap, self.fups, self.offcond = ignored, res_snap, fups, offcond
        self._c = None

    def content(self):
        if self._c is None:
            self._c = (self.name,) + tuple(
                _dump(getattr(self, k)) for k in ("damage", "timing", "buff", "debuff", "chan", "res",
                                                  "combo", "deny", "gcd", "ignored", "res_snap", "fups", "offcond"))
        return self._c


def _dump(v):
    if type(v) is Var:
        return tuple(sorted(((tuple(sorted(k)), _dump(x)) for k, x in v.alts.items()), key=repr))
    if isinstance(v, NS):
        return tuple((k, str(x)) for k, x in sorted(v.__dict__.items()))
    if isinstance(v, FollowUp):
        return v.key()
    if isinstance(v, tuple):
        return tuple(_dump(x) for x in v)
    return v


class Mod:
    __slots__ = ("conds", "crit", "dh", "force_combo", "no_cast", "no_delay", "bonus")

    def __init__(self, cond="", crit="DEFAULT", dh="DEFAULT", force_combo=False,
                 no_cast=False, no_delay=False, bonus=None):
        self.conds = canon(cond) if isinstance(cond, str) else frozenset(cond)
        self.crit, self.dh, self.force_combo = crit, dh, force_combo
        self.no_cast, self.no_delay, self.bonus = no_cast, no_delay, bonus

    def plus(self, conds):
        m = Mod.__new__(Mod)
        m.conds = self.conds | conds
        m.crit, m.dh, m.force_combo = self.crit, self.dh, self.force_combo
        m.no_cast, m.no_delay, m.bonus = self.no_cast, self.no_delay, self.bonus
        return m


NOMOD = Mod()
NONE = frozenset()


# ---------------------------------------------------------------- effects
class Compiled:
    __slots__ = ("crit", "dh", "dmg", "ms_add", "ms_mult", "auto", "haste", "cast", "recast",
                 "gcrit", "gdh", "names")

    def key(self):
        return (r9(self.crit), r9(self.dh), r9(self.dmg), r9(self.ms_add), r9(self.ms_mult),
                r9(self.auto), r9(self.haste), self.cast, self.recast, self.gcrit, self.gdh,
                tuple(sorted(self.names)))


def r9(x):
    return float("%.9g" % float(x))


class Effects:
    """active buffs of the player and debuffs per target"""

    def __init__(self, priority=()):
        self.buffs, self.debuffs, self.priority = {}, {}, tuple(priority)

    def expire(self, t):
        for d in [self.buffs] + list(self.debuffs.values()):
            for n in [n for n, (s, e, u, sp) in d.items() if t > e or u == 0]:
                del d[n]

    @staticmethod
    def _apply(d, t, name, sp):
        old = d.get(name)
        if old is None:
            if not sp.extend_only:
                d[name] = (t, t + sp.duration, sp.num_uses, sp)
            return
        s, e, u, _ = old
        left = max(e - t, 0)
        dur = min(sp.max_duration, left + sp.duration) if sp.extends_existing_duration else left
        d[name] = (s, t + dur, min(u + sp.num_uses, sp.max_num_uses), sp)

    def _end(self, name, t, target):
        for d in (self.buffs, self.debuffs.setdefault(target, {})):
            if name in d:
                s, _, u, sp = d[name]
                d[name] = (s, t, u, sp)

    def land(self, t, skill, conds, targets, buffs=True):
        b = pick(skill.buff, conds) if buffs else None
        d = pick(skill.debuff, conds)
        if b is not None:
            if b.clear_all_status_effects:
                self.buffs = {}
            self._apply(self.buffs, t, skill.name, b)
            for n in b.expires_status_effects:
                self._end(n, t, DEFAULT_TARGET)
        if d is not None:
            for tg in targets:
                self._apply(self.debuffs.setdefault(tg, {}), t, skill.name, d)
                for n in d.expires_status_effects:
                    self._end(n, t, tg)

    def _compile(self, t, d, skill):
        names = []
        for n, (s, e, u, sp) in d.items():
            if s <= t and n not in skill.deny and (
                    sp.skill_allowlist is None or skill.name in sp.skill_allowlist):
                names.append(n)
        for i, p in enumerate(self.priority):
            if p in names:
                names = [n for n in names if n not in self.priority[i + 1:]]
                break
        c = Compiled()
        c.crit = c.dh = c.ms_add = Fr(0)
        c.dmg = c.ms_mult = c.auto = c.haste = Fr(1)
        c.cast = c.recast = 0
        c.gcrit = c.gdh = "DEFAULT"
        pub = set()
        for n in names:
            s, e, u, sp = d[n]
            d[n] = (s, e, u - 1, sp)
            c.crit += sp.crit_rate_add
            c.dh += sp.dh_rate_add
            c.dmg *= sp.damage_mult
            c.ms_add += sp.main_stat_add
            c.ms_mult *= sp.main_stat_mult
            c.auto *= 1 - sp.auto_attack_delay_reduction
            c.haste *= 1 - sp.haste_time_reduction
            c.cast += sp.flat_cast_time_reduction
            c.recast += sp.flat_gcd_recast_time_reduction
            for a, g in (("gcrit", sp.guaranteed_crit), ("gdh", sp.guaranteed_dh)):
                if g != "DEFAULT":
                    if getattr(c, a) != "DEFAULT":
                        raise Illegal("two forced statuses")
                    setattr(c, a, g)
            if sp.add_to_skill_modifier_condition:
                pub |= canon(n)
        c.names = tuple(names)
        return c, frozenset(pub)

    def player(self, t, skill):
        return self._compile(t, self.buffs, skill)

    def target(self, t, skill, target=DEFAULT_TARGET):
        return self._compile(t, self.debuffs.setdefault(target, {}), skill)


class Gauges:
    def __init__(self, sett):
        self.sett = sett
        self.log = {n: [] for n in sett}

    def change(self, t, skill, conds):
        for sp in pick(skill.res, conds):
            if sp.clear_all_resources_only:
                for n in self.log:
                    self.log[n].append((t, inf, -inf, False))
            else:
                if sp.name not in self.log:
                    raise Illegal("unknown gauge " + sp.name)
                self.log[sp.name].append((t, t + sp.duration, sp.change,
                                          sp.refreshes_duration_of_last_gained))

    def value(self, name, t):
        """in-order clamped sum of the changes up to t that have not lapsed at t"""
        st = self.sett[name]
        log = sorted((x for x in self.log[name] if x[0] <= t), key=lambda x: x[0])
        if not log:
            return 0
        fresh, tot = log[0][0], 0
        for s, e, ch, refreshes in log:
            if s > fresh + st.expiry_from_last_gain:
                tot = 0
            if refreshes:
                fresh = s
            if t <= e:
                tot = max(0, min(tot + ch, st.max_value))
        return 0 if t > fresh + st.expiry_from_last_gain else tot

    def conditions(self, t, skill):
        out = set()
        for n, st in self.sett.items():
            if skill.name in st.skill_allowlist:
                v = self.value(n, t)
                if v > 0:
                    out |= canon("%s %s" % (v, n) if st.add_number_to_conditional else n)
        return frozenset(out)


class Combos:
    def __init__(self, breakers):
        self.last, self.breakers = {}, breakers

    def step(self, t, skill, mod):
        ok_all = True
        for sp in pick(skill.combo, mod.conds):
            if sp.break_all_combos_only:
                self.last = {}
                continue
            when, who = self.last.get(sp.combo_group, (-inf, None))
            ok = (sp.combo_auto_succeed or mod.force_combo or not sp.combo_actions
                  or (who in sp.combo_actions and t - when <= COMBO_TIME))
            ok_all = ok_all and ok
            self.last[sp.combo_group] = (t, skill.name) if ok else (-inf, None)
            for broken, by in self.breakers.items():
                if sp.combo_group in by:
                    self.last[broken] = (-inf, None)
        return NONE if ok_all else frozenset(["No Combo"])


def positional(skill, mod):
    """conditions inferred from a reported bonus percent"""
    table = None
    if type(skill.damage) is Var:
        table = skill.damage
    elif type(skill.fups) is Var:
        alts = {}
        for k, fs in skill.fups.alts.items():
            for f in fs:
                if f.skill.damage is not None:
                    alts[k] = f.skill.damage
                    break
        if alts:
            table = Var(alts)
    if table is None or mod.bonus is None or not any("No Positional" in k for k in table.alts):
        return NONE
    if mod.bonus == 0:
        return frozenset(["No Positional"])
    base = mod.conds - set(skill.ignored)
    low = table.pick(base | {"No Combo", "No Positional"}).potency
    for extra in ((), ("No Positional",), ("No Combo",), ("No Combo", "No Positional")):
        sp = table.pick(base | set(extra))
        lo = sp.use_min_potency or low
        if trunc(Fr(100) * (frac(sp.potency) - frac(lo)) / frac(sp.potency)) == mod.bonus:
            return frozenset(extra)
    return NONE


# ---------------------------------------------------------------- timeline
class Ev:
    __slots__ = ("prio", "snap", "land", "skill", "mod", "flags", "targets", "gid",
                 "res_done", "cond_done", "combo_done", "seq")


class Cfg:
    """everything a rotation is built from"""

    def __init__(self, stats, lib, job, snap_dots=None, autos=False, ignore_trailing=False,
                 fight_start=None, downtime=(), default_target=DEFAULT_TARGET, flags=None):
        self.stats, self.lib, self.job = stats, lib, job
        self.snap_dots, self.autos, self.ignore_trailing = snap_dots, autos, ignore_trailing
        self.fight_start, self.default_target = fight_start, default_target
        conv = lambda ws: [(frac(w[0]) * 1000, frac(w[1]) * 1000, w[2] if len(w) > 2 else None) for w in ws]
        self.downtime = ({t: conv(w) for t, w in downtime.items()} if isinstance(downtime, dict)
                         else conv(downtime))
        self.flags = flags or {}

    def windows(self, target):
        return self.downtime.get(target, []) if isinstance(self.downtime, dict) else self.downtime


class Lib:
    """skills, effect priority, gauges and combo breakers of one job (+ others' skills)"""

    def __init__(self, skills, priority=(), gauges=None, breakers=None, others=None):
        self.skills, self.priority = skills, tuple(priority)
        self.gauges, self.breakers = gauges or {}, breakers or {}
        self.others = {} if others is None else others

    def get(self, name, job, own):
        if job is None or job == own:
            return self.skills[name]
        return self.others[job][name]


def trunc10(x):
    return 10 * floor(x / 10)


def speed_time(st, t):
    """base time scaled by the speed stat, truncated to 10 ms"""
    k = ceil(Fr(st.speed_const * (st.level_sub - st.speed)) / st.level_div)
    return 10 * floor(Fr(t * (1000 + k), 10000))


def cast_time(cfg, sp, mod, c):
    if mod.no_cast:
        return 0
    st = cfg.stats
    t = speed_time(st, sp.base_cast_time) if sp.affected_by_speed_stat else sp.base_cast_time
    if sp.affected_by_haste_buffs:
        t = trunc10(t * c.haste * (1 - st.trait_haste))
    return max(0, t - c.cast)


def recast_time(cfg, sp, c, d):
    st = cfg.stats
    t = speed_time(st, sp.gcd_base_recast_time) if sp.affected_by_speed_stat else sp.gcd_base_recast_time
    if sp.affected_by_haste_buffs:
        t = trunc10(t * c.haste * d.haste * (1 - st.trait_haste))
    t -= c.recast
    return max(t, MIN_GCD) if sp.gcd_base_recast_time == GCD else t


class Builder:
    """one rotation: presses -> events"""

    def __init__(self, cfg):
        self.cfg = cfg
        self.timed, self.seq = [], []
        self.gid = 0

    def _resolve(self, name, mod, job, targets):
        cfg = self.cfg
        job = cfg.job if job is None else job
        sk = cfg.lib.get(name, job, cfg.job)
        if mod is None:
            mod = Mod(sk.offcond) if job != cfg.job else NOMOD
        tg = tuple(x.strip() for x in (targets or cfg.default_target).split(","))
        return sk, mod, job, tg

    def add(self, t_ms, name, mod=None, job=None, targets=None):
        self.timed.append((t_ms,) + self._resolve(name, mod, job, targets))

    def add_next(self, name, mod=None, job=None, targets=None):
        self.seq.append(self._resolve(name, mod, job, targets))

    # -- helpers
    def _ev(self, prio, snap, land, skill, mod, flags, targets):
        e = Ev()
        e.prio, e.snap, e.land, e.skill, e.mod = prio, snap, land, skill, mod
        e.flags, e.targets = list(flags), targets
        if snap == land:
            e.land, e.flags = None, [True, True]
        e.gid = self.gid
        self.gid += 1
        e.res_done = e.cond_done = e.combo_done = False
        self.events.append(e)

    def _press(self, t, sk, mod, job, tg, tr):
        """one button press; returns (timing, cast, buffs, debuffs)"""
        eff, gau, com = tr
        self.presses.append((t, sk.name, "" if job == self.cfg.job else job, mod.conds))
        eff.expire(t)
        b, pb = eff.player(t, sk)
        d, pd = eff.target(t, sk)
        mod = mod.plus(pb | pd | gau.conditions(t, sk))
        mod = mod.plus(com.step(t, sk, mod))
        mod = mod.plus(positional(sk, mod))
        self.aimed.append((t, tg[0]))
        sp = pick(sk.timing, mod.conds)
        cast = cast_time(self.cfg, sp, mod, b)
        snap = t + max(0, cast - SNAP_BEFORE)
        land = t + cast
        if not mod.no_delay:
            land += max(0, sp.application_delay - SNAP_BEFORE) if cast > 0 else sp.application_delay
        self._ev(1000 * snap, snap, land, sk, mod, (True, True), tg)
        eff.land(land, sk, mod.conds, tg)
        gau.change(snap, sk, mod.conds)
        for i, f in enumerate(pick(sk.fups, mod.conds)):
            self._follow_up(i + 1, f, snap, land, tg, tr)
        return sp, cast, b, d, mod

    def _follow_up(self, k, f, snap, land, tg, tr):
        if f.dot is not None:
            for x in tg:
                self.dots.setdefault(x, []).append((f, land, snap, k))
            return
        l = land + f.delay
        s = snap if (f.buffs or f.debuffs) else l
        fl = (f.buffs, f.debuffs) if (f.buffs or f.debuffs) else (True, True)
        tg2 = tg[:1] if f.primary_only else tg
        self._ev(1000 * s + k, s, l, f.skill, NOMOD, fl, tg2)
        eff, gau, com = tr
        eff.land(l, f.skill, NONE, tg2)
        gau.change(l, f.skill, NONE)
        com.step(l, f.skill, NOMOD)

    def _trackers(self):
        lib = self.cfg.lib
        return Effects(lib.priority), Gauges(lib.gauges), Combos(lib.breakers)

    def timeline(self):
        cfg = self.cfg
        self.events, self.presses, self.aimed, self.dots = [], [], [], {}
        self.gid = 0
        self.casts = []           # (t, skill, mod, cast) of the player's own timed presses
        # ordered buttons
        tr = self._trackers()
        t, gcd_free = (0 if cfg.fight_start is None else cfg.fight_start), -inf
        for sk, mod, job, tg in self.seq:
            if sk.gcd:
                t = max(t, gcd_free)
            sp, cast, b, d, m2 = self._press(t, sk, mod, job, tg, tr)
            if cfg.flags.get("seq_casts_pause_autos"):
                if job == cfg.job:
                    self.casts.append((t, sk, m2, cast))
            if sk.gcd:
                gcd_free = t + recast_time(cfg, sp, b, d)
            t += cast + sp.animation_lock
        # buttons at given times
        tr = self._trackers()
        for t, sk, mod, job, tg in sorted(self.timed, key=lambda x: (x[0], x[1].name)):
            sp, cast, b, d, m2 = self._press(t, sk, mod, job, tg, tr)
            if job == cfg.job:
                self.casts.append((t, sk, m2, cast))
        last = max((self._at(e) for e in self.events), default=None)
        self._ticks(last if cfg.ignore_trailing else None)
        if cfg.autos:
            self._autos(last if cfg.ignore_trailing else None)
        # normalise
        first = self._first_damage()
        if cfg.fight_start is None and first is not None:
            for e in self.events:
                e.snap -= first
                e.prio -= 1000 * first
                if e.land is not None:
                    e.land -= first
            self.presses = [(t - first, n, j, c) for t, n, j, c in self.presses]
        # downtime
        kept = []
        for e in self.events:
            sp = pick(e.skill.damage, e.mod.conds)
            if sp is not None:
                e.targets = tuple(x for x in e.targets if not self._down(x, self._at(e), sp.damage_class)
                                  and not self._down(x, e.snap, sp.damage_class))
            if e.targets:
                kept.append(e)
        self.events = kept
        self.presses.sort(key=lambda x: x[0])
        return self

    @staticmethod
    def _at(e):
        return e.snap if e.land is None else e.land

    def _first_damage(self):
        return min((self._at(e) for e in self.events if pick(e.skill.damage, e.mod.conds) is not None),
                   default=None)

    def _down(self, target, t, cls, only_auto=False):
        return any(a <= t < b and (c is None or c == cls) for a, b, c in self.cfg.windows(target))

    def _ticks(self, last):
        start = self.cfg.snap_dots
        for target, apps in self.dots.items():
            groups = []
            for a in apps:
                for g in groups:
                    if g[0][0].skill.name == a[0].skill.name and g[0][0] == a[0]:
                        g.append(a)
                        break
                else:
                    groups.append([a])
            for g in groups:
                g.sort(key=lambda x: x[1])
                n = 0
                for i, (f, land, snap, k) in enumerate(g):
                    end = land + f.dot
                    if i + 1 < len(g):
                        end = min(end, g[i + 1][1])
                    t = land
                    if start is not None:
                        t = land + (-(land - frac(start) * 1000)) % TICK
                        t = int(t) if t == int(t) else floor(t)
                    while t < end:
                        if last is None or t <= last:
                            self._ev(1000 * snap + k + n, snap, t, f.skill, NOMOD, (f.buffs, f.debuffs), (target,))
                            n += 1
                        t += TICK

    def _autos(self, last):
        cfg = self.cfg
        first = self._first_damage()
        if first is None:
            return
        auto = cfg.lib.skills.get("Shot") or cfg.lib.skills["Auto"]
        if last is None:
            last = max(self._at(e) for e in self.events)
        zero = first if cfg.fight_start is None else 0
        aimed = sorted(self.aimed, key=lambda x: x[0])

        def target(t):
            r = aimed[0][1]
            for when, tg in aimed:
                if when <= t:
                    r = tg
            return r

        busy = self._busy()
        effects = sorted(((self._at(e), e.prio, e.skill.name, e) for e in self.events
                          if pick(e.skill.buff, e.mod.conds) is not None
                          or pick(e.skill.debuff, e.mod.conds) is not None), key=lambda x: x[:3])
        effects.sort(key=lambda x: x[0])
        t, delay = first, auto.timing.application_delay
        wd = round(frac(cfg.stats.weapon_delay) * 1000)
        while t + delay < last:
            tg = target(t)
            self._ev(1000 * t, t, t + delay, auto, NOMOD, (True, True), (tg,))
            eff = Effects(cfg.lib.priority)
            for at, _, _, e in effects:
                if at <= t:
                    eff.expire(at)
                    eff.land(at, e.skill, e.mod.conds, (cfg.default_target,))
            eff.expire(t)
            b, _ = eff.player(t, auto)
            d, _ = eff.target(t, auto)
            t += trunc10(wd * (1 - cfg.stats.trait_auto) * b.auto * d.auto)
            if cfg.flags.get("auto_downtime_of_own_target"):
                tg = target(t)
            moved = True
            while moved:
                moved = False
                for a, z, cls in cfg.windows(tg):
                    if a <= t - zero < z and cls in (None, "AUTO"):
                        t, moved = z + zero, True
            hit = [z for a, z in busy if a <= t <= z]
            if hit:
                t = max(hit)
            if isinstance(t, Fr) and t.denominator == 1:
                t = int(t)

    def _busy(self):
        out, cur = [], None      # cur: [start, spec, uses left]
        for t, sk, mod, cast in sorted(self.casts, key=lambda x: x[0]):
            if cast > 0:
                out.append((t, t + cast))
            if "Wait" in sk.name:
                continue
            ch = pick(sk.chan, mod.conds)
            if ch is None and cur and sk.name in cur[1].skill_allowlist:
                cur[2] -= 1
                if cur[2] > 0:
                    continue
            if cur:
                out.append((cur[0], min(cur[0] + cur[1].duration, t)))
                cur = None
            if ch is not None:
                cur = [t, ch, ch.num_uses]
        if cur:
            out.append((cur[0], cur[0] + cur[1].duration))
        return out


def canon_events(events):
    return sorted(((e.snap, e.land, e.skill.name, tuple(sorted(e.mod.conds)), e.targets,
                    tuple(e.flags), e.mod.crit, e.mod.dh) for e in events), key=repr)


# ---------------------------------------------------------------- damage instances
class Inst:
    __slots__ = ("t", "skill", "mod", "buffs", "debuffs", "target", "gid", "snap")

    def key(self):
        sp = pick(self.skill.damage, self.mod.conds)
        return (self.t, self.skill.name, tuple(sorted(self.mod.conds)), self.buffs.key(),
                self.debuffs.key(), self.target, self.mod.crit, self.mod.dh, r9(sp.potency), sp.damage_class)


def instances(cfg, events, reverse_ties=False):
    """-> (list of Inst in landing order, ties seen).  events are not modified."""
    eff, gau, com = Effects(cfg.lib.priority), Gauges(cfg.lib.gauges), Combos(cfg.lib.breakers)
    sign = -1 if reverse_ties else 1
    fsign = 1 if cfg.flags.get("follow_up_order") else -1
    q, n = [], 0
    for e in events:
        n += 1
        heapq.heappush(q, (e.prio, e.skill.name, sign * n, e.snap, e.land, e.skill, e.mod,
                           list(e.flags), e.targets, e.gid, False, False, False, e.snap))
    out, ties, buffed = [], False, set()
    while q:
        (prio, name, _, t, land, sk, mod, flags, targets, gid, res_done, cond_done, combo_done, snap0) = heapq.heappop(q)
        if q and q[0][0] == prio and q[0][1] == name:
            ties = True
        eff.expire(t)
        if land is None:
            if not cond_done:
                mod = mod.plus(gau.conditions(t, sk))
            if not res_done:
                gau.change(t, sk, mod.conds)
            if not combo_done:
                mod = mod.plus(com.step(t, sk, mod))
                mod = mod.plus(positional(sk, mod))
            b = flags[0]
            if not isinstance(b, Compiled):
                b, p = eff.player(t, sk)
                mod = mod.plus(p)
            for i, tg in enumerate(targets):
                m2, t2 = mod, t
                if len(targets) > 1:
                    m2 = mod.plus({"Target %d" % (i + 1)})
                    t2 = t + i * MULTI_DELAY
                d = flags[1]
                if not isinstance(d, Compiled):
                    d, p = eff.target(t, sk, tg)
                    m2 = m2.plus(p)
                if len(targets) == 1:
                    mod = m2
                if pick(sk.damage, m2.conds) is not None:
                    x = Inst()
                    x.t, x.skill, x.mod, x.buffs, x.debuffs, x.target, x.gid, x.snap = t2, sk, m2, b, d, tg, gid, snap0
                    out.append(x)
            eff.land(t, sk, mod.conds, targets, buffs=gid not in buffed)
            buffed.add(gid)
        else:
            b = flags[0]
            if b is True:
                b, p = eff.player(t, sk)
                mod = mod.plus(p)
            cd = False
            if sk.res_snap:
                mod = mod.plus(gau.conditions(t, sk))
                cd = True
            mod = mod.plus(com.step(t, sk, mod))
            mod = mod.plus(positional(sk, mod))
            gau.change(t, sk, mod.conds)
            for i, tg in enumerate(targets):
                m2, t2 = mod, land
                if len(targets) > 1:
                    m2 = mod.plus({"Target %d" % (i + 1)})
                    t2 = land + i * MULTI_DELAY
                d = flags[1]
                if d is True:
                    d, p = eff.target(t, sk, tg)
                    m2 = m2.plus(p)
                n += 1
                heapq.heappush(q, (1000 * t2 + fsign * (prio - 1000 * t), name, sign * n, t2, None, sk, m2,
                                   [b, d], (tg,), gid, True, cd, True, snap0))
    out.sort(key=lambda x: x.t)
    return out, ties


def canon_instances(out):
    return sorted((x.key() for x in out), key=repr)


def run(b):
    """Run a Builder completely.  Returns (events, presses, instances or None if open).

    When events coincide exactly (same moment, same skill) their order is open; the result is
    only claimed when it does not depend on that order."""
    b.timeline()
    ev, pr = canon_events(b.events), sorted(((t, n, j, tuple(sorted(c))) for t, n, j, c in b.presses), key=repr)
    out, ties = instances(b.cfg, b.events)
    inst = canon_instances(out)
    if ties:
        out2, _ = instances(b.cfg, b.events, reverse_ties=True)
        if canon_instances(out2) != inst:
            return ev, pr, None, out
    return ev, pr, inst, out
