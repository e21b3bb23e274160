from props import prop
from mockgen import *


def points(r, n, kind):
    s = r.choice([0, 0, r.uniform(-10, 10), r.uniform(-1e5, 1e5)])
    if kind == "equi":
        d = r.choice([r.uniform(1e-3, 10), 1800, .1])
        return [s + k * d for k in range(n)]
    p = [s]
    while len(p) < n:
        p.append(p[-1] + (0 if kind == "dup" and r.random() < .3 else r.choice([r.uniform(1e-3, 5), r.uniform(1, 1000), 1e-9])))
    if kind == "unsorted" and n > 1:
        i, j = r.sample(range(n), 2)
        p[i], p[j] = p[j], p[i]
    return p


def values(r, n):
    return [r.choice([0, r.uniform(-1, 1), r.uniform(-1e4, 1e4), float(r.randint(-5, 5))]) for _ in range(n)]


def arbitrary(r):
    """Three owning series over arbitrary floating-point times; the third is made to lie within the others."""
    w = r.randint(0 if r.random() < .1 else 1, 3)
    ops, pts = [], {}

    def new(s, p):
        ops.append({"op": r.choice(["NewOwn", "FromJson"]) if w and p else "NewOwn", "slot": s, "pts": p, "w": w, "vals": values(r, w * len(p))})
        if p == sorted(p):
            pts[s] = p
    new(1, points(r, r.randint(1, 8), r.choice(["equi", "any", "any", "dup"])))
    new(2, points(r, r.randint(1, 8), r.choice(["equi", "any", "unsorted"])))
    lo, hi = pts[1][0], pts[1][-1]
    new(3, sorted([min(hi, max(lo, r.choice([r.uniform(lo, hi), r.choice(pts[1])]))) for _ in range(r.randint(0, 6))]))
    for _ in range(r.randint(3, 12)):
        s = r.choice(sorted(pts))
        p = pts[s]
        k = r.random()
        if k < .55 and p:
            t = r.choice([r.choice(p), r.uniform(p[0], p[-1]), r.choice(p) + r.choice([-1, 1]) * r.choice([1e-12, 1e-7, 1e-3, 1]),
                          p[-1] + r.choice([5e-11, 2e-10]), p[0] - r.choice([5e-11, 2e-10])])
            # a time at the very edge of the tolerance is decided by rounding
            if max(abs(p[0]), abs(p[-1])) > 1e3 and (p[-1] < t < p[-1] + 1e-6 or p[0] - 1e-6 < t < p[0]):
                t = p[-1]
            ops.append({"op": "Eval", "slot": s, "t": t})
        elif k < .7:
            a, b = r.sample(sorted(pts), 2)
            A, B = pts[a], pts[b]
            if not A or (B and B[0] <= A[0] and A[-1] <= B[-1]):
                ops.append({"op": "InterpolateFrom", "slot": a, "src": b})
        elif k < .8:
            if not w:
                continue
            i = r.randint(-1, len(p))
            ops.append({"op": "SetRow", "slot": s, "i": i, "row": values(r, w)})
            ops.append({"op": "GetRow", "slot": s, "i": i})
        elif k < .9:
            ops.append({"op": "Bulk", "slot": s, "vals": values(r, w * len(p) + r.choice([0, 0, 1]))})
        else:
            a, b = r.sample(sorted(pts), 2)
            o = r.choice(["Assign", "AssignBase", "Equal", "CopyNew"])
            ops.append({"op": o, "slot": a, "src": b})
            if o in ("Assign", "CopyNew"):
                pts[a] = pts[b]
    return ops


@prop("C01")
def c01(ctx):
    ctx.model_check("InterpMC", "InterpMC.cfg")
    hists = ctx.generate("InterpMC", "InterpGen.cfg", ctx.n(300, 6000), 15)
    hists += [arbitrary(ctx.rng) for _ in range(ctx.n(400, 8000))]
    scen = [{"kind": "interp", "ops": h, "variant": v} for h in hists for v in (0, 1)]
    ctx.conform("InterpTrace", scen)
