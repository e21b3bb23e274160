"""Time grids, the equation solver, time stepping and the state cache."""
from props import prop
from mockgen import *


@prop("C02")
def c02(ctx):
    ctx.model_check("TimeGridMC", expect_actions=["Next"])
    r = ctx.rng
    scen = []

    def add(mode, start, end, delta, number, **k):
        d = {"kind": "grid", "mode": mode, "start": start, "end": end, "delta": delta, "number": number}
        d.update(k)
        scen.append(d)
    # requests every user makes, and those that cannot be met
    for mode in ("sde", "sne", "sdn", "sim"):
        for s, t in ((0, 1), (0, 86400), (-5, 5), (1, 1), (2, 1), (3600, 7200.5), (0, 1e-3), (1e6, 1e6 + 10)):
            for d in (1, 7, 0.1, 0.25, 1e5, 0, -1, 1800):
                if d > 0 and (t - s) / d > 2e5:
                    continue
                if mode == "sdn" and d > 0 and 1e6 <= s and d < 1e-3:
                    continue
                for n in ((2,) if mode in ("sde", "sim") else (-1, 0, 1, 2, 3, 50)):
                    add(mode, s, t, d, n, mapped=r.random() < .3)
    # long intervals: a year, ten years in seconds
    for t in (31536000, 315360000, 2678400):
        for d in (3600, 7200, 1799, 86400 / 7):
            add("sde", 0, t, d, 2)
            add("sim", 0, t, d, 2)
            add("sne", 0, t, d, 997)
    for cs in ("none", "delta", "number", "both", "neither"):
        for s, t, d, c in ((0, 10, 1, 3), (0, 86400, 7, 3600), (-1, 1, .3, .7), (5, 6, 2, 2)):
            for n in (-1, 0, 1, 2, 5):
                for m in (0, 1, 2):
                    add("control", s, t, d, n, cs=cs, cdelta=c, m=m)
    for c in (0, -1):
        add("control", 0, 10, 1, 2, cs="delta", cdelta=c, m=1)
    # arbitrary ones; every second has a step that divides the interval up to rounding
    for k in range(ctx.n(1500, 40000)):
        s = r.choice([0, 0, r.uniform(-100, 100), r.uniform(-1e5, 1e5)])
        n = r.randint(1, 4000) if r.random() < .3 else r.randint(1, 60)
        d = r.choice([r.uniform(1e-3, 10), r.uniform(1, 4000), r.randint(1, 100) / r.choice([1, 3, 7, 10, 60])])
        t = s + n * d if r.random() < .5 else s + n * d * r.uniform(.01, 1)
        mode = r.choice(["sde", "sne", "sdn", "sim", "control"])
        if mode == "control":
            add(mode, s, t, d, n + 1, cs=r.choice(["none", "delta", "number"]), cdelta=d * r.uniform(.5, 5), m=r.randint(1, 3))
        else:
            add(mode, s, t, d, n + 1, mapped=r.random() < .3)
    ctx.conform("TimeGridTrace", scen)


@prop("C03")
def c03(ctx):
    ctx.model_check("NewtonMC", expect_actions=["Finish", "Direction", "Halve", "Accept"])
    r = ctx.rng
    scen = []
    for k in range(ctx.n(700, 20000)):
        solves, structure = [], 0
        n = r.randint(1, 4)
        base = problem(r, n, r.randint(0, 2), 0, nonlinear=r.choice([0, 0, .6, 1]))
        for _ in range(r.randint(1, 5)):
            if r.random() < .3:
                structure += 1
                n = r.randint(1, 4)
                base = problem(r, n, r.randint(0, 2), 0, nonlinear=r.choice([0, 0, .6, 1]))
            P = dict(base)
            u = vec(r, P["m"], lo=-2, hi=2)
            kind = r.random()
            x = vec(r, n, lo=-4, hi=4)
            l0 = vec(r, n, lo=-2, hi=2)
            if kind < .08 and P["m"]:
                P["fail"] = u[0] - 1
            elif kind < .16 and P["m"]:
                P["sing"] = u[0] - 1
            elif kind < .24:  # no root nearby, or several
                P["a"] = [4 * v - .5 for v in P["a"]]
                P["hard"] = 1
            elif kind < .3:
                x = [v * 1000 for v in x]
            elif kind < .4:  # already solved: everything zero
                x, l0 = [0.0] * n, [0.0] * n
                u = [0.0] * P["m"]
                P["d"] = [0.0] * n
            elif kind < .5:  # solved up to about the tolerance
                x, l0 = [r.choice([1e-9, 1e-7, 1e-5, 1e-3]) for _ in range(n)], [0.0] * n
                u = [0.0] * P["m"]
                P["d"] = [0.0] * n
            solves.append({"P": P, "structure": structure, "x": x, "l": l0, "u": u, "tl": 0, "tn": r.randint(1, 8) / 8,
                           "newjac": r.random() < .3 or kind < .24, "full": r.random() < .6})
        scen.append({"kind": "newton", "tol": r.choice([1e-8, 1e-6, 1e-3, .5]), "maxit": r.choice([0, 1, 1, 2, 3, 50, 50]), "solves": solves})
    ctx.conform("NewtonTrace", scen)


@prop("C04")
def c04(ctx):
    r = ctx.rng
    scen = []
    for s in ("TRUE", "FALSE"):
        for k in (0, 1, 2):
            ctx.model_check("TimeSteppingMC", "TimeSteppingMC_%s_%d.cfg" % (s, k), workers="2",
                            expect_actions=["DoPrepare", "DoRetry", "DoGiveUp", "DoReturn", "DoThrow"])
    gens = []
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(6) as ex:
        for g in ex.map(lambda a: ctx.generate("TimeSteppingMC", "TimeSteppingGen_%s_%d.cfg" % a, 0, 0, exhaustive=True),
                        [(s, k) for s in ("TRUE", "FALSE") for k in (0, 1, 2)]):
            r.shuffle(g)
            gens += g[:ctx.n(70, 1500)]
    ctx.notes.append("%d scripts of attempt results" % len(gens))

    def run(P, pts, script):
        nc = r.randint(2, 4)
        cp = [pts[0]] + sorted(pts[0] + (pts[-1] - pts[0]) * r.randint(1, 15) / 16 for _ in range(nc - 2)) + [pts[-1] + r.choice([0, 1])]
        cp = sorted(set(cp))
        return {"script": script, "pts": pts, "init": vec(r, P["n"]), "cpts": cp, "cvals": traj(r, len(cp), P["m"])}
    for g in gens:
        P = problem(r, r.randint(1, 3), r.randint(0, 2), 0)
        runs = [run(P, times(r, g["steps"] + 1, r.choice([0.0, -3.0, 10.0])), g["script"])]
        if r.random() < .3:  # the same evolver again
            runs.append(run(P, times(r, r.randint(2, 6)), []))
        scen.append({"kind": "evolve", "P": P, "tol": r.choice([1e-8, 1e-10]), "maxit": 40, "retries": g["retries"],
                     "simplified": g["simplified"], "runs": runs})
    for k in range(ctx.n(150, 3000)):  # longer ones, and too few iterations for one attempt
        P = problem(r, r.randint(1, 3), r.randint(0, 2), 0)
        P["hard"] = 1
        scen.append({"kind": "evolve", "P": P, "tol": r.choice([1e-6, 1e-9, 1e-3]), "maxit": r.choice([1, 2, 3, 5]), "retries": r.randint(0, 4),
                     "simplified": r.random() < .5, "runs": [run(P, times(r, r.randint(2, 12)), [r.choice(["ok", "ok", "nan"]) for _ in range(10)])
                                                           for _ in range(r.randint(1, 3))]})
    for k in range(ctx.n(60, 1000)):  # steps too large for a derivative that is not renewed
        P = problem(r, 1, 0, 0)
        P["hard"], P["a"], P["d"] = 1, [r.choice([1.0, 4.0, 16.0])], [r.choice([-1, 1]) * r.choice([8.0, 40.0, 200.0])]
        scen.append({"kind": "evolve", "P": P, "tol": r.choice([1e-8, 1e-9]), "maxit": 24, "retries": r.randint(0, 2),
                     "simplified": r.random() < .8, "runs": [run(P, times(r, r.randint(2, 5)), [r.choice(["ok", "ok", "nan"])])]})
    ctx.conform("TimeSteppingTrace", scen)


@prop("C05")
def c05(ctx):
    ctx.model_check("StateCacheMC", expect_actions=["Next"])
    r = ctx.rng
    hists = ctx.generate("StateCacheMC", "StateCacheGen.cfg", ctx.n(250, 4000), 13)
    scen = []
    for h in hists:
        m = r.choice([0, 1, 1, 2])
        P = problem(r, r.randint(1, 3), m, 0)
        P["fail"] = 1.5
        if r.random() < .3:
            P["fail"], P["sing"] = 100.0, 1.5
            if m:
                P["B"][0][0] = ODD
        pts = times(r, r.randint(2, 5))
        cp = sorted({pts[0], (pts[0] + pts[-1]) / 2, pts[-1]})
        cv = traj(r, len(cp), m, -1, 1)
        init = vec(r, P["n"])
        keys = {1: (pts, init, cp, cv)}
        bad = list(cv)
        if m:
            bad[-m] = 2.0
        keys[2] = (pts, init, cp, [cv[0] + .125] + cv[1:] if m else cv)              # first control only
        keys[3] = (pts, init, cp, bad)                                              # fails at the end
        keys[4] = (pts, init[:-1] + [init[-1] + 2 ** -40], cp, cv)                   # last initial value only
        keys[5] = (pts[:-1] + [pts[-1] - 2 ** -10], init, cp, cv)                    # last time point only
        c2 = sorted(set(cp + [pts[0] + (pts[-1] - pts[0]) / 8]))
        keys[6] = r.choice([(pts[:-1] if len(pts) > 2 else pts + [pts[-1]], init, cp, cv), (pts, init, c2, traj(r, len(c2), m))])  # other sizes
        b2 = list(cv)
        if m:
            b2[m if len(cv) > m else 0] = 2.5
        keys[7] = (pts, init, cp, b2) if r.random() < .5 else (pts, init, cp[:-1] + [cp[-1] + 1], cv)
        if r.random() < .5:  # requests that share some of their inputs
            early = pts[:-1] if len(pts) > 2 else [pts[0], (pts[0] + pts[1]) / 2]
            mixed = [(p, i, c, v) for p in (pts, keys[5][0], early) for i in (init, keys[4][1])
                     for c, v in ((cp, cv), keys[2][2:], (cp, bad), (cp[:-1] + [cp[-1] + 1], cv), (cp, b2))]
            keys = dict(enumerate(r.sample(mixed, 7), 1))
            if r.random() < .5:
                keys[1], keys[2], keys[3] = (early, init, cp, cv), (pts, init, cp, bad), (early, init, cp, bad)
        ops = []
        for o in h:
            p, i, c, v = keys[o["key"]]
            ops.append({"op": o["op"], "key": o["key"], "pts": p, "init": i, "cpts": c, "cvals": v})
        scen.append({"kind": "cache", "P": P, "tol": 1e-9, "ops": ops})
    ctx.conform("StateCacheTrace", scen)
