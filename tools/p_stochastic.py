"""Stochastic demand (C30)."""
from props import prop
from netgen import *


def oup(r):
    """a call with known samples; thresholds are either exact in binary or clearly missed"""
    exact = r.random() < .25
    a = r.choice([.5, .25, 1.0, 1.5]) if exact else r.uniform(.01, 1.99)
    theta = r.choice([0.0, .5, 1.0, 2.0, 4.0]) if exact else r.choice([0.0, r.uniform(0, 5), r.uniform(0, .01)])
    dt = r.choice([.25, 1.0, 2.0]) if exact else r.choice([r.uniform(.01, 5), r.uniform(100, 2000) / max(1, 400 * theta)])
    N = r.choice([0, 1, 2, 4, 8]) if exact else r.choice([0, 1, 2, 3, 7, r.randint(1, 30)])
    if N == 0 and theta == 0:
        N = 1
    if r.random() < .12:
        k = r.choice(["a", "theta", "N"])
        a = r.choice([0.0, -.5, 2.0, 3.0]) if k == "a" else a
        theta = -r.uniform(.01, 2) if k == "theta" else theta
        N = -r.randint(1, 9) if k == "N" else N
    mu = r.choice([0.0, 1.0, -1.0, r.uniform(-3, 3), r.gauss(0, 1e-3)])
    c = r.choice([0.0, .1, .4, 1.0, 2.5, r.uniform(0, 3)])
    v = mu * r.uniform(.5, 1.5) if r.random() < .7 else r.uniform(-4, 4)
    sigma = r.choice([0.0, .01, .1, 1.0, r.uniform(0, 3)])
    n = 400 if not (0 < a < 2 and theta >= 0 and N >= 0) else max(N, math.ceil(theta * dt / a) + 1) + 4
    if n > 400:
        return oup(r)
    return {"a": a, "c": c, "theta": theta, "sigma": sigma, "N": N, "dt": dt, "mu": mu, "v": v,
            "z": [r.gauss(0, 1) for _ in range(n)] if n != 400 else [0.0]}


def sampling(r):
    given = r.random() < .7
    return {"kind": "samples", "given": given, "seed": [r.getrandbits(r.choice([1, 31, 32])) for _ in range(8)], "word": r.randrange(8),
            "flip": 1 << r.randrange(32), "n": r.choice([40, 40, 40, 4000]),
            "asks": [[r.choice([0.0, 1.0, r.gauss(0, 10)]), r.choice([1.0, .5, r.uniform(0.01, 20)]), r.random() < .5] for _ in range(30)],
            "truncated": [truncated(r) for _ in range(15)]}


def truncated(r):
    m, sd, how = r.choice([0.0, r.uniform(-5, 5)]), r.uniform(.1, 3), r.randrange(4)
    base = m if how < 2 else 0.0
    lo = base + sd * r.uniform(-3, 1)
    hi = lo + sd * r.uniform(.2, 3)
    if how in (0, 2) and r.random() < .02:
        lo, hi = base + 40 * sd, base + 41 * sd
    return [m, sd, lo, hi, how]


def stoch_data(r, dt):
    a = r.choice([.25, .5, 1.0, 1.9, r.uniform(.1, 1.9)])
    d = {"stability_parameter": a, "cut_off_factor": r.choice([.1, .4, 1.0, 3.0]), "number_of_stochastic_steps": r.choice([1, 2, 5, 9])}
    for q in "PQ":
        d["theta_" + q] = r.choice([0.0, r.uniform(0, 3) / dt, r.uniform(0, 3) / dt])
        d["sigma_" + q] = r.choice([0.0, .05, .2]) / math.sqrt(dt)
    return d


def stochastic_net(r, wellposed):
    while True:
        comps = wellposed_net(r, power=r.choice([2, 3, 4])) if wellposed else random_net(r, power=r.choice([1, 2, 3, 4]), small=True)
        if wellposed:
            pq = [c for c in comps if c["type"] == "PQnode"]
            for c in r.sample(pq, min(len(pq), r.choice([1, 2, 3]))):
                c["type"] = "StochasticPQnode"
        st = [c for c in comps if c["type"] == "StochasticPQnode"]
        if st:
            break
    op = sim_op(r, comps, steps=r.choice([2, 3]))
    dts = [b - a for a, b in zip(op["times"], op["times"][1:])]
    for c in st:
        c["stoch"] = stoch_data(r, max(dts))
    b = None
    seeds = {}
    for c in st:
        c["seed"] = seeds[c["id"]] = [r.getrandbits(r.choice([1, 32])) for _ in range(8)]
    b = problem_json(r, comps)
    for c in comps:
        c.pop("seed", None)
    if r.random() < .4:
        for l in [b["problem"]["boundary_json"]["nodes"].get("StochasticPQnode", [])]:
            for e in l:
                if r.random() < .6:
                    e.pop("seed", None)
    return comps, b, op


@prop("C30")
def c30(ctx):
    r = ctx.rng
    ctx.model_check("OrnsteinMC", expect_actions=["Begin", "Draw", "Look", "Accept"])
    if ctx.thorough:
        ctx.model_check("OrnsteinMC", "OrnsteinMC2.cfg", timeout=3000)
    calls = [oup(r) for _ in range(ctx.n(3000, 40000))]
    ctx.conform("OrnsteinTrace", [{"kind": "walk", "calls": calls[i:i + 50]} for i in range(0, len(calls), 50)], label="Walks")
    ctx.conform("OrnsteinTrace", [sampling(r) for _ in range(ctx.n(60, 800))], label="Samples")
    scen = []
    for k in range(ctx.n(250, 3000)):
        comps, b, op = stochastic_net(r, wellposed=k % 2 == 0)
        ops = []
        for _ in range(r.choice([0, 2, 4])):
            a = args(r, comps, smooth=False)
            a["t1"] = a["t0"] + r.choice([1, .5, .01, 1e-6]) * (op["times"][1] - op["times"][0])
            ops.append(dict(a, op="Prepare"))
            for _ in range(r.choice([0, 1, 2])):
                ops.append(dict(args(r, comps, smooth=False), op="Eval", prepare=False))
        if k % 2 == 0:
            ops.append(op)
        samples = 0
        st = [c["stoch"] for c in comps if c["type"] == "StochasticPQnode"]
        def steps(s, q, dt):
            return max(s["number_of_stochastic_steps"], math.ceil(s["theta_" + q] * dt / s["stability_parameter"]) + 1)
        for o in ops:
            if o["op"] == "Eval":
                continue
            dts = [o["t1"] - o["t0"]] if o["op"] == "Prepare" else [y - x for x, y in zip(o["times"], o["times"][1:])]
            times = 1 if o["op"] == "Prepare" else o["set"]["retries"] + 2
            samples += times * max(sum(steps(s, "P", d) + steps(s, "Q", d) for d in dts) for s in st)
        scen.append({"kind": "stoch", "comps": comps, "build": b, "ops": ops, "samples": samples + 5})
    ctx.conform("OrnsteinTrace", scen, label="Nodes")
