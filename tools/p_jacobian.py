from props import prop


def arbitrary(r, rand):
    """Arbitrary grids; the constraint times may coincide with control times or lie just beside them."""
    n = r.randint(1, 5)
    ct = sorted(r.uniform(0, 10) for _ in range(n)) if r.random() < .5 else [float(k) for k in range(n)]
    if len(set(ct)) < n:
        ct = [float(k) for k in range(n)]
    gt = sorted({r.choice([r.choice(ct), r.choice(ct) + r.choice([-1, 1]) * 2.0 ** -20, r.uniform(ct[0], ct[-1] + 1)]) for _ in range(r.randint(0, 6))})
    h, w = r.randint(0, 3), r.randint(1, 3)
    new = lambda s, k, m: {"op": "New", "slot": s, "kind": k, "h": h, "w": w, "ct": ct, "gt": gt, "m": m}
    ops = [new(1, "own", 0), new(2, "map", r.randint(0, 2)), new(3, r.choice(["own", "map"]), 0)]
    if ops[2]["kind"] == "map":
        ops[2]["m"] = r.randint(0, 2)
    height = lambda j: h * sum(1 for g in gt if j == 1 or g > ct[j - 2])
    for _ in range(r.randint(3, 10)):
        k = r.random()
        s = r.randint(1, 3)
        if k < .6:
            j = r.randint(1, n)
            r0 = r.randint(0, height(j))
            ops.append({"op": "Block", "slot": s, "j": j, "r0": r0, "mode": r.choice(["set", "add"]),
                        "mat": [[float(r.randint(-9, 9)) for _ in range(w)] for _ in range(r.randint(0, height(j) - r0))]})
        elif k < .75:
            ops.append({"op": "Fill", "slot": s, "x": r.choice(["0", "1"])})
        else:
            ops.append({"op": r.choice(["Assign", "Equal"]), "slot": s, "src": r.randint(1, 3)})
    return ops


@prop("C09")
def c09(ctx):
    ctx.model_check("JacobianMC")
    hists = ctx.generate("JacobianMC", "JacobianGen.cfg", ctx.n(300, 6000), 15)
    scen = [{"kind": "jacobian", "ops": h, "variant": k % 2} for k, h in enumerate(hists)]
    scen += [{"kind": "jacobian", "ops": arbitrary(ctx.rng, None), "memsize": 300} for _ in range(ctx.n(300, 6000))]
    ctx.conform("JacobianTrace", scen)
