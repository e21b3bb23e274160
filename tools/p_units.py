"""Measurements with units (C29)."""
from props import prop

SI = ["Y", "Z", "E", "P", "T", "G", "M", "k", "h", "da", "", "d", "c", "m", "mu", "n", "p", "f", "a", "z", "y"]
MEASURES = {"length": ["m", "in", "ft", "yd", "mi"], "area": ["m^2", "ac", "acre"], "volume": ["m^3", "L", "l"],
            "pressure": ["Pa", "bar", "atm", "psi"], "frequency": ["Hz", "per_min", "per_minute"], "force": ["N"],
            "power": ["W", "PS"], "mass": ["g", "t", "oz", "lb"], "volume_flux": ["m_cube_per_s", "1000m_cube_per_hour"],
            "temperature": ["K", "C", "Celsius", "F"]}


def number(r):
    a = r.choice(["", str(r.randint(0, 12)), str(r.randint(0, 99999)), "0", "00", "1"])
    b = r.choice(["", "", "." + str(r.randint(0, 999)), ".0", ".5"])
    c = r.choice(["", "", "e" + str(r.randint(0, 12)), "e-" + str(r.randint(0, 12))])
    if r.random() < .03:  # beyond what a double can hold, or almost
        c = "e" + r.choice(["309", "400", "2222", "99999", "-330", "-400", "-2222", "250", "-250"])
    return (a + b or "1") + c


def damage(r, s):
    k = r.random()
    if k < .3 and s:
        i = r.randrange(len(s))
        return s[:i] + s[i + 1:]
    if k < .7:
        i = r.randint(0, len(s))
        return s[:i] + r.choice(list("kmMdGnKPauhc1 .,-+e/^_02") + ["  ", "mu", "da"]) + s[i:]
    if k < .8:
        return s.upper() if r.random() < .5 else s.lower()
    return r.choice(["", " ", "k", "1", "1 ", " m", "e5 m", "-1 m", "1 k", "1.m", "1. m", ". m", "+1 m", "0x10 m", "1e+3 m", "1,5 m", "inf m", "nan m",
                     "1e m", "1 1 m", "m 1", "kmm", "dakm", "dd" + s, "k k" + s, s + s, s + " ", "\t" + s, "um", "1 µm"])


def case(r, measure=None, prefix=None, unit=None):
    m = measure or r.choice(sorted(MEASURES))
    u = unit or r.choice(MEASURES[m])
    # whether an SI prefix of a unit named "cube" is cubed too is not said anywhere
    p = "" if m == "volume_flux" else prefix if prefix is not None else r.choice(SI + [""] * 10)
    s = p + u
    if r.random() < .5:
        s = number(r) + " " + s
    if unit is None and r.random() < .35:
        s = damage(r, s)
        if m == "volume_flux" and not s.endswith(tuple(" " + x for x in MEASURES[m])) and s not in MEASURES[m]:
            s = "liter"
    if unit is None and r.random() < .05:
        s = r.choice([x for k in MEASURES for x in MEASURES[k] if k != m])
        if m == "volume_flux":
            s = "m^3"
    v = r.choice([0, 1, -1, r.randint(-50, 5000), r.uniform(-100, 100), r.uniform(0, 1e6), r.gauss(0, 1e-6), -273.15, -40])
    return {"measure": m, "shape": "good", "json": {"value": v, "unit": s}}


def shape(r, c):
    k = r.choice(["no value", "no unit", "surplus", "text value", "number unit", "null", "list"])
    j = c["json"]
    if k == "no value":
        del j["value"]
    elif k == "no unit":
        del j["unit"]
    elif k == "surplus":
        j[r.choice(["prefix", "Unit", "comment", ""])] = 1
    elif k == "text value":
        j["value"] = str(j["value"])
    elif k == "number unit":
        j["unit"] = 1
    elif k == "null":
        j[r.choice(["value", "unit"])] = None
    else:
        c["json"] = [j["value"], j["unit"]]
    c["shape"] = k
    return c


@prop("C29")
def c29(ctx):
    r = ctx.rng
    ctx.model_check("UnitsMC", expect_actions=["Extend", "Begin", "Symbol", "Unknown", "Num", "Prefix"])
    if ctx.thorough:
        ctx.model_check("UnitsMC", "UnitsMC6.cfg", timeout=3000)
    # every unit with every prefix
    cases = [case(r, m, p, u) for m in MEASURES for u in MEASURES[m] for p in (SI if m != "volume_flux" else [""]) for _ in range(2)]
    cases += [case(r) for _ in range(ctx.n(4000, 60000))]
    cases += [shape(r, case(r)) for _ in range(ctx.n(300, 2000))]
    r.shuffle(cases)
    ctx.conform("UnitsTrace", [{"kind": "units", "cases": cases[i:i + 40]} for i in range(0, len(cases), 40)])
