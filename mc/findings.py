"""Known findings: places where the code deviates from a property, pinned by the repository's own
tests (so not repairable without editing them).  Each is decided by a probe: one fixed history is
played on the code; exactly two outcomes are accepted, the one the property asks for and the known
one.  The outcome selects a flag of the reference model, so every other check stays exact, and a
different deviation is still reported."""
from . import known as listed
from .world import World, Stat, conform

GCD = dict(timing=dict(animation_lock=650), gcd=True)

PROBES = {}


def probe(flag, prop, text):
    def deco(f):
        PROBES[flag] = (prop, text, f)
        return f
    return deco


@probe("plain_falloff", "C16",
       "a skill whose damage does not depend on conditions hits secondary targets at full potency although it "
       "declares a falloff (probe: damage 100 with falloff 0.5 on 'A, B')")
def _plain(flags):
    w = World([dict(name="Aoe", damage=dict(potency=100), falloff=0.5, **GCD)], flags=flags)
    return w, dict(), [(None, "Aoe", None, None, "A, B")]


@probe("seq_casts_pause_autos", "C08",
       "casts of buttons given as an ordered list (add_next) do not pause auto-attacks (probe: a hit, then a 6 s "
       "cast, both via add_next)")
def _seq(flags):
    w = World([dict(name="Hit", damage=dict(potency=100), **GCD),
               dict(name="Cast", damage=dict(potency=100),
                    timing=dict(base_cast_time=6000, animation_lock=100, affected_by_speed_stat=False), gcd=True)],
              flags=flags)
    return w, dict(autos=True), [(None, "Hit"), (None, "Cast"), (None, "Hit"), (None, "Hit")]


@probe("auto_downtime_of_own_target", "C08",
       "a swing is postponed by the downtime of the target of the swing before it, not of its own target (probe: "
       "downtime of B only, target changes from A to B between two swings)")
def _down(flags):
    w = World([dict(name="Hit", damage=dict(potency=100), **GCD)], flags=flags)
    return (w, dict(autos=True, downtime={"B": ((1.8, 5),)}),
            [(0, "Hit", None, None, "A"), (1500, "Hit", None, None, "B"), (9000, "Hit", None, None, "B")])


@probe("follow_up_order", "C04",
       "follow-ups of one skill that snapshot earlier than they land are resolved in reverse order of their "
       "declaration when they land together (probe: a buff and then a hit, both 0 s after a skill with a travel "
       "delay, buffs read at landing)")
def _order(flags):
    mk = lambda n, **k: dict(skill=dict(name=n, **k), buffs=False, debuffs=True, delay=0)
    w = World([dict(name="P", timing=dict(animation_lock=650, application_delay=1000), gcd=True,
                    fups=(mk("FB", buff=dict(duration=9000, damage_mult=1.1)), mk("FD", damage=dict(potency=10))))],
              flags=flags)
    return w, dict(), [(None, "P")]


def probe_all():
    """-> (flags, {property: [known finding texts]}, {property: broken probe text})"""
    flags, known, broken, on_file = {}, {}, {}, listed.load()
    for flag, (prop, text, f) in PROBES.items():
        res = {}
        for val in (True, False):
            w, settings, presses = f({flag: val})
            res[val] = conform(w, settings, presses, Stat())
        if res[True] is None and res[False] is None:
            raise AssertionError("probe %s cannot tell" % flag)
        flags[flag] = res[True] is None
        if res[True] is not None:
            if res[False] is None and (prop, flag) in on_file:
                known.setdefault(prop, []).append(on_file[prop, flag])
            elif res[False] is None:
                broken.setdefault(prop, text)
            else:
                broken.setdefault(prop, "probe %s: neither the specified outcome (%s) nor the known one (%s)" % (
                    flag, res[True], res[False]))
    return flags, known, broken
