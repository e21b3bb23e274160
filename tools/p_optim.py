"""The optimizer, its set-up, its derivatives and the interior point solver's call-backs."""
from props import prop
from mockgen import *


def grid_over(r, a, b, k):
    inner = sorted({a + (b - a) * r.randint(1, 31) / 32 for _ in range(k)})
    return [a] + [t for t in inner if a < t < b] + [b]


def bounded(r, pts, w, lo, hi):
    return {"pts": pts, "w": w, "vals": traj(r, len(pts), w, lo, hi)}


def setup(r, n=None, m=None, q=None, nonlinear=.5, steps=None):
    """A consistent set-up."""
    n = n or r.randint(1, 3)
    m = r.choice([1, 1, 2, 3]) if m is None else m
    q = r.choice([0, 1, 2, 2, 3]) if q is None else q
    P = problem(r, n, m, q, nonlinear=nonlinear)
    st = times(r, (steps or r.randint(1, 6)) + 1, r.choice([0.0, 0.0, -2.0, 5.0, 100.0]), equidistant=r.random() < .3)
    kind = r.random()
    if kind < .2:
        ct = list(st)
    elif kind < .4:  # finer
        ct = sorted(set(st) | {a + (b - a) * r.randint(1, 7) / 8 for a, b in zip(st, st[1:]) if r.random() < .6})
    elif kind < .55:  # coarser, among the state times
        ct = [st[0]] + [t for t in st[1:-1] if r.random() < .4] + [st[-1]]
    elif kind < .7:  # beginning earlier, ending later
        ct = [st[0] - r.choice([0, 1, .5])] + [t for t in grid_over(r, st[0], st[-1], r.randint(0, 3))[1:-1]] + [st[-1] + r.choice([.25, 1, 3])]
    elif kind < .8:  # ending within the tolerance before the last state time
        ct = grid_over(r, st[0], st[-1], r.randint(0, 3))
        ct[-1] -= 2.0 ** -36 if ct[-1] < 50 else 0
    elif kind < .9:  # many control times before and after the state times
        ct = [st[0] - 3, st[0] - 2] + st[:1] + [(st[0] + st[-1]) / 2] + [st[-1] + 1, st[-1] + 2]
    else:
        ct = grid_over(r, st[0], st[-1], r.randint(0, 4))
    if r.random() < .25:  # inner control times very near state times, but apart from them
        gap = min(b - a for a, b in zip(st, st[1:]))
        near = {t + r.choice([-1, 1]) * gap / r.choice([128, 256, 1024]) for t in st[:-1] if r.random() < .7}
        ct = [ct[0]] + sorted(t for t in near | {t for t in ct[1:-1] if r.random() < .3} if ct[0] < t < ct[-1]) + [ct[-1]] if ct[-1] > ct[0] else ct
    g = r.random()
    rest = st[1:]
    gt = rest if g < .25 else rest[:1] if g < .35 else rest[-1:] if g < .45 else [] if g < .5 else [t for t in rest if r.random() < .5]
    if q == 0 and r.random() < .5:
        gt = []
    cover = grid_over(r, ct[0] - r.choice([0, 1]), ct[-1] + r.choice([0, 0, 2]), r.randint(0, 3)) if ct[-1] > ct[0] else list(ct)
    gcover = grid_over(r, st[0] - r.choice([0, 1]), st[-1] + r.choice([0, 0, 2]), r.randint(0, 3))
    pick = r.random()
    if pick < .3:
        cover = list(ct)
    if pick > .8 and gt:
        gcover = list(gt)
    lo, hi = r.choice([(-3, -2), (-3, -2), (-1, .5), (0, 0), (2, 4)]), r.choice([(2, 3), (2, 3), (-.5, 1), (5, 9)])  # initial controls may lie outside
    return {"kind": "optim", "P": P, "st": st, "ct": ct, "gt": gt, "init": vec(r, n),
            "ic": bounded(r, cover, m, -1, 1), "lb": bounded(r, cover, m, *lo), "ub": bounded(r, cover, m, *hi),
            "clb": bounded(r, gcover, q, -30, -20), "cub": bounded(r, gcover, q, 20, 30), "cache": r.choice(["mock", "real", "real"]),
            "via": "direct", "ops": []}


def point(r, s, lo=-1, hi=1):
    return traj(r, len(s["ct"]), s["P"]["m"], lo, hi)


GIVEN = ["sizes", "init", "lower", "upper", "clower", "cupper"]


def histories(ctx, num):
    return ctx.generate("OptimizerMC", "OptimizerGen.cfg", num, 15)


def from_history(r, s, h):
    """Fills in the points of a call sequence: 3 fails to simulate, 4 has no derivative."""
    m = s["P"]["m"]
    s["P"]["fail"], s["P"]["sing"] = 3.5, 1.5
    s["P"]["B"][0][0] = ODD
    lo = point(r, s)
    pts = {1: lo, 2: point(r, s), 5: list(lo)}
    pts[5][-1] += 2.0 ** -20
    i = r.randrange(len(s["ct"])) * m
    pts[3] = list(lo)
    pts[4] = list(lo)
    if r.random() < .5:
        for k in range(0, len(lo), m):
            pts[3][k], pts[4][k] = 4.0, 2.0
    else:
        pts[3][i], pts[4][i] = 4.0, 2.0
    ops = []
    for o in h:
        if o["op"] == "NewX":
            ops.append({"op": "NewX", "u": pts[o["k"]]})
        else:
            ops.append({"op": o["op"], "flaky": o["k"]})
            if r.random() < .05:
                ops.append({"op": "given", "what": r.choice(GIVEN)})
    s["ops"] = ops
    return s, pts


@prop("C06")
def c06(ctx):
    ctx.model_check("OptimizerMC", expect_actions=["DoNewX", "DoAsk"])
    r = ctx.rng
    scen = []
    for h in histories(ctx, ctx.n(450, 6000)):
        s, _ = from_history(r, setup(r, m=r.randint(1, 2), q=r.randint(0, 2), steps=r.randint(1, 4)), h)
        if r.random() < .3:  # asked by way of the solver's call-backs
            s["via"] = "tnlp"
        scen.append(s)
    ctx.conform("OptimizerTrace", scen)


@prop("C07")
def c07(ctx):
    r = ctx.rng
    ctx.model_check("OptimizerMC", expect_actions=["DoNewX", "DoAsk"])
    scen = []
    for k in range(ctx.n(500, 8000)):
        s = setup(r, n=r.randint(1, 4), m=r.choice([0, 1, 2, 3]), steps=r.choice([1, 2, 3, 5, 8, 12]))
        ops = [{"op": "given", "what": w} for w in GIVEN]
        for _ in range(r.randint(1, 2)):
            ops.append({"op": "NewX", "u": point(r, s, -2, 2)})
            qs = ["obj", "cost", "pen", "cons"]
            r.shuffle(qs)
            ops += [{"op": q} for q in qs]
        s["ops"] = ops
        scen.append(s)
    ctx.conform("OptimizerTrace", scen)


@prop("C08")
def c08(ctx):
    r = ctx.rng
    ctx.model_check("OptimizerMC", expect_actions=["DoNewX", "DoAsk"])
    scen = []
    for k in range(ctx.n(500, 8000)):
        s = setup(r, n=r.randint(1, 4), m=r.randint(1, 3), steps=r.choice([1, 2, 3, 4, 5, 8]))
        ops = []
        for _ in range(r.randint(1, 3)):
            ops.append({"op": "NewX", "u": point(r, s, -2, 2)})
            qs = r.choice([["grad", "jac"], ["jac", "grad"], ["jac"], ["cons", "jac", "obj", "grad"]])
            ops += [{"op": q} for q in qs]
        s["ops"] = ops
        scen.append(s)
    ctx.conform("OptimizerTrace", scen)


def spoil(r, s):
    """One way of making a set-up inconsistent (or not)."""
    k = r.randrange(23)
    m, q = s["P"]["m"], s["P"]["q"]
    span = s["st"][-1] - s["st"][0]

    def other_width(name, by):
        x = s[name]
        w = max(0, x["w"] + by)
        s[name] = bounded(r, x["pts"], w, -1, 1)

    def other_points(name):
        x = s[name]
        p = list(x["pts"])
        c = r.randrange(3)
        if c == 0:
            p = p + [p[-1] + 1]
        elif c == 1:
            p[-1] += 2.0 ** -12
        else:
            p[0] -= 2.0 ** -12
        s[name] = bounded(r, p, x["w"], -1, 1)
    if k < 5:
        other_width(["ic", "lb", "ub", "clb", "cub"][k], r.choice([-1, 1]))
    elif k < 10:
        other_points(["ic", "lb", "ub", "clb", "cub"][k - 5])
    elif k == 10:
        for x in ("ic", "lb", "ub"):
            other_width(x, 1)
    elif k == 11:
        for x in ("clb", "cub"):
            other_width(x, 1)
    elif k == 12:
        s["init"] = s["init"] + [0.5] if r.random() < .5 else s["init"][:-1]
    elif k == 13 and len(s["st"]) > 2:
        i = r.randrange(1, len(s["st"]) - 1)
        s["st"] = s["st"][:]
        s["st"][i], s["st"][i + 1] = s["st"][i + 1], s["st"][i]
    elif k == 14 and len(s["ct"]) > 1:
        i = r.randrange(len(s["ct"]) - 1)
        s["ct"] = s["ct"][:]
        s["ct"][i], s["ct"][i + 1] = s["ct"][i + 1], s["ct"][i]
    elif k == 15 and len(s["gt"]) > 1:
        i = r.randrange(len(s["gt"]) - 1)
        s["gt"] = s["gt"][:]
        s["gt"][i], s["gt"][i + 1] = s["gt"][i + 1], s["gt"][i]
    elif k == 16:  # controls end too early
        s["ct"] = [t for t in s["ct"] if t < s["st"][-1] - 1e-3] + [s["st"][-1] - r.choice([2.0 ** -11, 2.0 ** -32])]
        if s["ct"][0] > s["st"][0]:
            s["ct"] = [s["st"][0]] + s["ct"]
    elif k == 17:  # controls begin too late
        s["ct"] = [t for t in s["ct"] if t > s["st"][0]] or [s["st"][-1]]
        if r.random() < .5:
            s["ct"] = [s["st"][0] + r.choice([2.0 ** -11, 2.0 ** -36, 2.0 ** -50])] + s["ct"]
    elif k == 18:  # a constraint at the first time
        s["gt"] = [s["st"][0]] + s["gt"]
    elif k == 19:  # a constraint between state times
        i = r.randrange(1, len(s["st"]))
        s["gt"] = sorted(s["gt"] + [s["st"][i] - (s["st"][i] - s["st"][i - 1]) / 16])
    elif k == 20:  # a constraint after the end or before the beginning
        s["gt"] = s["gt"] + [s["st"][-1] + span / 4] if r.random() < .5 else [s["st"][0] - 1] + s["gt"]
    elif k == 22 and s["gt"]:  # almost a state time
        i = r.randrange(len(s["gt"]))
        s["gt"] = s["gt"][:]
        s["gt"][i] += r.choice([-1, 1]) * r.choice([2.0 ** -50, 2.0 ** -44, 2.0 ** -36, 2.0 ** -32, 2.0 ** -20])
    elif k == 21:
        s["ct"] = [] if r.random() < .5 else s["ct"][:1]
    return s


@prop("C10")
def c10(ctx):
    r = ctx.rng
    ctx.model_check("OptimizerMC", expect_actions=["DoNewX", "DoAsk"])
    scen = []
    for k in range(ctx.n(1500, 25000)):
        s = setup(r, m=r.choice([0, 1, 2]), q=r.choice([0, 1, 2]), steps=r.randint(1, 5))
        bad = r.random() < .8
        if bad:
            s = spoil(r, s)
            if r.random() < .1:
                s = spoil(r, s)
        else:  # consistent ones must also work
            if r.random() < .1 and len(s["ct"]) > 1 and s["ct"][-1] == s["st"][-1]:
                s["ct"] = s["ct"][:-1] + [s["ct"][-1] - 2.0 ** -36]  # ends early by less than 1e-10
            ops = [{"op": "given", "what": w} for w in GIVEN] + [{"op": "NewX", "u": point(r, s)}]
            ops += [{"op": q} for q in ("obj", "cons", "grad", "jac")]
            s["ops"] = ops
        scen.append(s)
    ctx.conform("OptimizerTrace", scen)


@prop("C11")
def c11(ctx):
    ctx.model_check("OptimizerMC", expect_actions=["DoNewX", "DoAsk"])
    r = ctx.rng
    scen = []
    for h in histories(ctx, ctx.n(300, 4000)):
        s, pts = from_history(r, setup(r, m=r.randint(1, 2), q=r.randint(0, 2), steps=r.randint(1, 4)), h)
        s["via"] = "tnlp"
        s["ops"] = [{"op": "given", "what": w} for w in GIVEN] + s["ops"]
        s["ops"].append({"op": "final", "u": r.choice([pts[1], pts[2], pts[5], pts[1], pts[3], pts[4]]), "success": r.random() < .7,
                         "flaky": 1 if r.random() < .1 else 0})
        scen.append(s)
    for k in range(ctx.n(60, 800)):  # complete runs of Ipopt
        s = setup(r, m=r.randint(1, 2), q=r.randint(0, 2), steps=r.randint(1, 4), nonlinear=r.choice([0, .3]))
        P = s["P"]
        for key in ("cq", "cs", "pq", "ps"):
            P[key] = [abs(v) + .125 for v in P[key]]
        P["cm"] = 0.0
        s["lb"], s["ub"] = bounded(r, s["lb"]["pts"], P["m"], -3, -2), bounded(r, s["ub"]["pts"], P["m"], 2, 3)
        s["via"] = "ipopt"
        scen.append(s)
    ctx.conform("OptimizerTrace", scen)
