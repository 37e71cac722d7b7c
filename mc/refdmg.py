"""Reference damage formulas (exact arithmetic, set-valued where a floor is a knife's edge).

Every published formula is evaluated with exact fractions.  Where the argument of a floor lies
within 1e-9 (relative) of an integer, floating point may legitimately land on either side, so
both results are carried on: a result is a small set of admissible values.
"""
from fractions import Fraction as Fr
from math import floor, ceil

from .ref import frac

CONST = {
    90: dict(sub=400, div=1900, main=390, ap=195, ap_tank=156, ten=100),
    100: dict(sub=420, div=2780, main=440, ap=237, ap_tank=190, ten=112),
}
DH, DET, SPD, CRIT = 550, 140, 130, 200
JOB_MOD = dict(SCH=115, SGE=115, WHM=115, AST=115, WAR=105, DRK=105, PLD=100, GNB=100, SAM=112, DRG=115, RPR=115,
               MNK=110, NIN=110, VPR=110, DNC=115, MCH=115, BRD=115, RDM=115, SMN=115, BLM=115, PCT=115)
TANKS, HEALERS = ("WAR", "DRK", "PLD", "GNB"), ("SCH", "SGE", "WHM", "AST")
CASTERS, RANGED = ("RDM", "SMN", "BLM", "PCT"), ("DNC", "MCH", "BRD")


def trait(job):
    return Fr(13, 10) if job in HEALERS + CASTERS else Fr(12, 10) if job in RANGED else Fr(1)


def fl(xs):
    """set-valued floor"""
    out = set()
    for x in xs:
        n, d = x.numerator, x.denominator
        f, r = divmod(n, d)
        tol = max(d, abs(n))
        out.add(f)
        if r * 10**9 <= tol:          # also an exact integer: in floating point it may come out just below
            out.add(f - 1)
        if (d - r) * 10**9 <= tol:
            out.add(f + 1)
    return out


def mp(xs, f):
    return {f(x) for x in xs}


def crit_tier(v, lv):
    return floor(Fr(CRIT * (v - CONST[lv]["sub"]), CONST[lv]["div"]))


def crit_rate(v, lv):
    return Fr(crit_tier(v, lv) + 50, 1000)


def crit_bonus(v, lv):
    return Fr(crit_tier(v, lv) + 400, 1000)


def dh_rate(v, lv):
    return Fr(floor(Fr(DH * (v - CONST[lv]["sub"]), CONST[lv]["div"])), 1000)


def f_det(v, lv):
    return floor(Fr(DET * (v - CONST[lv]["main"]), CONST[lv]["div"])) + 1000


def f_detdh(det, dh, lv):
    return f_det(det, lv) + floor(Fr(DET * (dh - CONST[lv]["sub"]), CONST[lv]["div"]))


def f_ten(v, lv):
    return floor(Fr(CONST[lv]["ten"] * (v - CONST[lv]["sub"]), CONST[lv]["div"])) + 1000


def f_spd(v, lv):
    return floor(Fr(SPD * (v - CONST[lv]["sub"]), CONST[lv]["div"]) + 1000)


def f_ap(ms, tank, lv):
    c = CONST[lv]
    return mp(fl(mp(ms, lambda m: Fr(c["ap_tank" if tank else "ap"] * (Fr(m) - c["main"])) / c["main"])),
              lambda x: x + 100)


def f_wd(wd, mod, lv):
    return floor(Fr(CONST[lv]["main"] * mod, 1000) + frac(wd))


def speed_time(t, speed, lv):
    k = ceil(Fr(SPD * (CONST[lv]["sub"] - speed), CONST[lv]["div"]))
    return 10 * floor(Fr(t * (1000 + k), 10000))


def forced(which, sp, mod, b, d):
    """YES / NO / DEFAULT / CONTRADICTION"""
    if which == "crit":
        all_ = (sp.guaranteed_crit, mod.crit, b.gcrit, d.gcrit)
    else:
        all_ = (sp.guaranteed_dh, mod.dh, b.gdh, d.gdh)
    y, n = "YES" in all_, "NO" in all_
    return "CONTRADICTION" if y and n else "YES" if y else "NO" if n else "DEFAULT"


def rates(st, sp, mod, b, d):
    """(dh rate, crit rate, crit bonus); None for a contradiction"""
    fc, fd = forced("crit", sp, mod, b, d), forced("dh", sp, mod, b, d)
    if "CONTRADICTION" in (fc, fd):
        return None
    cr = Fr(1) if fc == "YES" else Fr(0) if fc == "NO" else crit_rate(st["crit_stat"], st["level"]) + b.crit + d.crit
    dr = Fr(1) if fd == "YES" else Fr(0) if fd == "NO" else dh_rate(st["dh_stat"], st["level"]) + b.dh + d.dh
    return dr, cr, crit_bonus(st["crit_stat"], st["level"])


def base_damage(st, sp, mod, b, d):
    """set of admissible base damages"""
    if sp.potency == 0:
        return {Fr(0)}
    lv, job = st["level"], st["job"]
    tank, mage = job in TANKS, job in HEALERS + CASTERS
    pot = frac(sp.potency)
    fd = forced("dh", sp, mod, b, d) in ("YES", "CONTRADICTION")
    fc = forced("crit", sp, mod, b, d) in ("YES", "CONTRADICTION")
    det = f_detdh(st["det_stat"], st["dh_stat"], lv) if fd else f_det(st["det_stat"], lv)
    ten = f_ten(st["tenacity"], lv) if tank else 1000
    jm = JOB_MOD[job]
    party = 1 + Fr(st["num_roles_in_party"], 100)

    def main(m0, roles=True):
        ms = mp(fl({frac(m0) * b.ms_mult * d.ms_mult}), lambda x: x + b.ms_add + d.ms_add)
        return fl(mp(ms, lambda x: x * party)) if roles else ms

    cls = sp.damage_class
    if cls == "PET":
        mod_pet = jm if sp.pet_job_mod_override is None else sp.pet_job_mod_override
        lm = CONST[lv]["main"]
        delta = floor(Fr(lm * jm, 100)) - floor(Fr(lm * mod_pet, 100))
        ms = mp(main(st["main_stat"] - delta, roles=False), lambda x: x * frac(sp.pet_scalar))
        ap, wd = f_ap(ms, False, lv), f_wd(st["wd"], mod_pet, lv)
    elif cls == "AUTO" and mage:
        ap = f_ap({frac(st["healer_or_caster_strength"]) * party}, tank, lv)
        wd = f_wd(st["wd"], jm, lv)
    else:
        ap, wd = f_ap(main(st["main_stat"]), tank, lv), f_wd(st["wd"], jm, lv)

    spd = f_spd(st["speed_stat"], lv)
    if cls == "DIRECT" and mage:
        x = mp(fl(mp(ap, lambda a: Fr(a * det, 1000))), lambda v: Fr(v, 100))
        w = fl({wd * pot / 100})
        x = fl({p * q for p in x for q in w})
    elif cls in ("DIRECT", "PET", "AUTO"):
        x = fl(mp(ap, lambda a: pot * a / 100))
        x = mp(fl(mp(x, lambda v: Fr(v * det, 1000))), lambda v: Fr(v, 100))
        if tank:
            x = mp(fl(mp(x, lambda v: v * ten / 10)), lambda v: Fr(v, 100))
        if cls == "AUTO":
            s = 1000 if mage else spd
            auto = next(iter({floor(f_wd(st["wd"], jm, lv) * frac(st["weapon_delay"]) / 3)}))
            autos = fl({f_wd(st["wd"], jm, lv) * frac(st["weapon_delay"]) / 3}) | {auto}
            x = mp(fl(mp(x, lambda v: v * s)), lambda v: Fr(v, 10))
            x = fl({Fr(v * a) for v in x for a in autos})
            x = fl(mp(x, lambda v: Fr(v, 100)))
        else:
            x = fl(mp(x, lambda v: v * wd))
    elif cls == "MAGICAL_DOT":
        x = fl(mp(fl({pot * wd}), lambda v: Fr(v, 100)))
        x = {v * a * spd * det for v in x for a in ap}
        x = fl(mp(x, lambda v: Fr(v, 1000)))
        if tank:
            x = fl(mp(x, lambda v: Fr(v * ten, 1000)))
        x = fl(mp(fl(mp(x, lambda v: Fr(v, 1000))), lambda v: Fr(v, 100)))
    elif cls == "PHYSICAL_DOT":
        x = mp(fl(mp(ap, lambda a: pot * a * det / 100)), lambda v: Fr(v, 1000))
        if tank:
            x = mp(fl(mp(x, lambda v: v * ten / 1000)), Fr)
        x = fl(mp(fl(mp(x, lambda v: v * spd)), lambda v: Fr(v, 1000)))
        x = fl(mp(fl(mp(x, lambda v: Fr(v * wd))), lambda v: Fr(v, 100)))
    else:
        raise KeyError(cls)
    bdh = Fr(1, 4) * (b.dh + d.dh) if fd else Fr(0)
    bcr = crit_bonus(st["crit_stat"], lv) * (b.crit + d.crit) if fc else Fr(0)
    out = set()
    for v in x:
        for p in (fl({v * bdh}) if bdh else {0}):
            for q in (fl({v * bcr}) if bcr else {0}):
                out.add(max(Fr(1), (v + p + q) * frac(sp.single_damage_mult)))
    return out


def hit(base, roll, crit, dh, bonus, trait_mult, mult):
    """set of admissible values of one sampled hit; roll in [0, 1)"""
    x = fl(mp(base, lambda v: Fr(v) * (Fr(95, 100) + Fr(1, 10) * roll)))
    if crit:
        x = {v + w for v in x for w in fl({v * bonus})}
    if dh:
        x = {v + w for v in x for w in fl({Fr(v, 4)})}
    x = fl(mp(x, lambda v: v * trait_mult))
    return fl(mp(x, lambda v: v * mult))


def hit_range(base, crit, dh, bonus, trait_mult, mult):
    """(admissible lows, admissible highs): the reported range of one outcome"""
    out = []
    for f in (Fr(95, 100), Fr(105, 100)):
        x = fl(mp(base, lambda v: Fr(v) * f))
        if crit:
            x = {v + w for v in x for w in fl({v * bonus})}
        if dh:
            x = {v + w for v in x for w in fl({Fr(v, 4)})}
        x = fl(mp(x, lambda v: v * trait_mult))
        out.append(fl(mp(x, lambda v: v * mult)))
    return out
