"""Whole networks: numbering, equations, physical laws, derivatives."""
import copy
from props import prop
from netgen import *


def typed(ctx, num):
    """networks that are behaviours of the assembly specification, as canonical descriptions"""
    res = []
    for net in ctx.generate("AssemblyMC", "AssemblyGen.cfg", num, 40):
        comps = []
        names = {}
        used = set()
        for c in net:
            names[c["id"]] = pick_id(ctx.rng, used)
        for c in net:
            comps.append({"id": names[c["id"]], "type": c["type"], "cls": c["cls"],
                          "from": names.get(c["from"], ""), "to": names.get(c["to"], "")})
        if any(c["cls"] == "edge" for c in comps) or ctx.rng.random() < .05:
            res.append(parameters(ctx.rng, comps, small=True))
    return res


def nets(ctx, num, gen, **k):
    r = ctx.rng
    return typed(ctx, gen) + [random_net(r, small=r.random() < .7, **k) for _ in range(num)]


def scenario(r, comps, ops, builds=1):
    return {"kind": "network", "comps": comps, "builds": [problem_json(r, comps) for _ in range(builds)], "ops": ops}


@prop("C12")
def c12(ctx):
    r = ctx.rng
    ctx.model_check("AssemblyMC", "AssemblyMC.cfg", expect_actions=["AddNode", "AddEdge", "Close", "NumberAny", "ClaimNext"])
    if ctx.thorough:
        ctx.model_check("AssemblyMC", "AssemblyMC3.cfg", timeout=1800)
    scen = []
    for comps in nets(ctx, ctx.n(150, 3000), ctx.n(600, 6000)):
        s = scenario(r, comps, [], builds=3)
        b = copy.deepcopy(s["builds"][0])
        b["offset"] = [r.randint(0, 5), r.randint(0, 5), r.randint(0, 5)]
        if r.random() < .3:
            s["builds"].append(b)
        scen.append(s)
    ctx.conform("AssemblyTrace", scen)


@prop("C13")
def c13(ctx):
    r = ctx.rng
    ctx.model_check("AssemblyMC", "AssemblyMC.cfg", expect_actions=["AddNode", "AddEdge", "Close", "NumberAny", "ClaimNext"])
    scen = []
    for comps in nets(ctx, ctx.n(150, 3000), ctx.n(600, 6000)):
        ops = [dict(args(r, comps, smooth=False), op="Eval") for _ in range(2)]
        scen.append(scenario(r, comps, ops))
    ctx.conform("EquationsTrace", scen)


def no_power(r):
    return random_net(r, gas=r.choice([2, 3, 4, 5]), power=r.choice([0, 0, 1]), small=True)


def evals(r, comps, n=2):
    return [dict(args(r, comps, smooth=False), op="Eval") for _ in range(n)]


def sims(r, num, **k):
    res = []
    for _ in range(num):
        comps = wellposed_net(r, **{a: r.choice(v) for a, v in k.items()})
        res.append(scenario(r, comps, [sim_op(r, comps)]))
    return res


@prop("C14")
def c14(ctx):
    r = ctx.rng
    ctx.model_check("GasNetMC", expect_actions=["AddEdge", "Flow", "Arrange"])
    if ctx.thorough:
        ctx.model_check("GasNetMC", "GasNetMC3.cfg", timeout=1800)
    scen = []
    for comps in nets(ctx, ctx.n(60, 1500), ctx.n(500, 4000)) + [no_power(r) for _ in range(ctx.n(150, 3000))]:
        scen.append(scenario(r, comps, evals(r, comps)))
    ctx.conform("JunctionTrace", scen)
    ctx.conform("JunctionTrace", sims(r, ctx.n(80, 1500), gas=[3, 4, 5]), label="Solutions")


def edge_net(r):
    return random_net(r, gas=r.choice([2, 3]), power=0, small=False)


@prop("C15")
def c15(ctx):
    r = ctx.rng
    ctx.model_check("GasLawMC", expect_actions=["Next"])
    scen = []
    for _ in range(ctx.n(150, 3000)):
        comps = edge_net(r)
        scen.append(scenario(r, comps, evals(r, comps) + [results_op(r, comps), initial_op(r, comps)]))
    ctx.conform("GasEdgeTrace", scen)
    ctx.conform("GasEdgeTrace", laws(r, ctx.n(100, 2000), False), label="Law")
    ctx.conform("GasEdgeTrace", sims(r, ctx.n(80, 1500), gas=[2, 3, 4], power=[0]), label="Solutions")


def laws(r, num, smooth):
    res = []
    for _ in range(num):
        c = {"type": "Pipe"}
        pipe_data(r, c, True)
        st = [[r.uniform(15, 75), flow(r, c, smooth)] for _ in range(6)]
        res.append({"kind": "law", "D": c["D"], "k": c["k"], "states": st, "smooth": smooth,
                    "pipe": {"diameter": {"value": c["D"], "unit": "m"}, "roughness": {"value": c["k"], "unit": "m"}}})
    return res


@prop("C16")
def c16(ctx):
    r = ctx.rng
    ctx.model_check("PowerNetMC", "PowerNetMC.cfg", expect_actions=["AddLine", "SetState", "TurnLine"])
    if ctx.thorough:
        ctx.model_check("PowerNetMC", "PowerNetMC3.cfg", timeout=1800)
    scen = []
    for k in range(ctx.n(250, 5000)):
        comps = random_net(r, gas=r.choice([0, 0, 0, 2]), power=r.choice([1, 2, 3, 4, 5]), small=True)
        scen.append(scenario(r, comps, evals(r, comps) + [results_op(r, comps)]))
    ctx.conform("PowerTrace", scen)
    ctx.conform("PowerTrace", sims(r, ctx.n(80, 1500), gas=[0, 2], power=[2, 3, 4]), label="Solutions")


@prop("C17")
def c17(ctx):
    r = ctx.rng
    ctx.model_check("GasPowerMC", expect_actions=["Next"])
    scen = []
    for k in range(ctx.n(250, 5000)):
        comps = random_net(r, gas=r.choice([2, 3]), power=r.choice([1, 2, 3]), small=True, plants=r.choice([1, 2, 3]))
        if r.random() < .15:
            misplace(r, comps)
        scen.append(scenario(r, comps, evals(r, comps, 3) + [results_op(r, comps)]))
    ctx.conform("CouplingTrace", scen)
    ctx.conform("CouplingTrace", sims(r, ctx.n(80, 1500), gas=[2, 3], power=[2, 3]), label="Solutions")


def misplace(r, comps):
    """a coupling to another power node, or a plant without coupling"""
    conns = [c for c in comps if c["type"] == "Gaspowerconnection"]
    others = [c for c in comps if c["type"] in POWERNODES]
    e = r.choice(conns)
    k = r.random()
    if k < .5:
        e["to"] = r.choice(others)["id"]
    elif k < .8:
        comps.remove(e)
    else:
        plant = e["to"]
        e["to"] = r.choice(others)["id"]
        comps.append(dict(e, id="extra coupling", to=plant))


@prop("C18")
def c18(ctx):
    r = ctx.rng
    ctx.model_check("DerivativeMC", expect_actions=["Perturb"])
    scen = []
    for comps in nets(ctx, ctx.n(100, 2500), ctx.n(300, 4000)):
        scen.append(scenario(r, comps, [deriv_args(r, comps)]))
    ctx.conform("DerivTrace", scen)
    ctx.conform("DerivTrace", laws(r, ctx.n(100, 2000), True), label="Law")
