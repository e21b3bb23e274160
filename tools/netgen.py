"""Random networks: a canonical description (comps) and the JSON grazer reads."""
import math

GASNODES = ["Source", "Sink", "ConstraintSink", "Innode", "Pressureboundarynode"]
POWERNODES = ["PQnode", "PVnode", "Vphinode", "StochasticPQnode"]
GASEDGES = ["Pipe", "Shortpipe", "Compressorstation", "Controlvalve"]
SHORT = ["Shortpipe", "Compressorstation", "Controlvalve"]
POWER = POWERNODES + ["ExternalPowerplant"]
UNITS = [("m", 1.0), ("km", 1000.0), ("cm", 0.01), ("mm", 0.001), ("dm", 0.1)]
STOCH = {"stability_parameter": 0.5, "cut_off_factor": 0.4, "number_of_stochastic_steps": 7,
         "theta_P": 3.0, "sigma_P": 0.1, "theta_Q": 2.0, "sigma_Q": 0.05}


def pick_id(r, used):
    while True:
        k = r.random()
        if k < .4:
            s = r.choice("abcdefgh") + str(r.randint(0, 30))
        elif k < .6:
            s = str(r.randint(0, 120))
        elif k < .8:
            s = r.choice(["node", "Node", "pipe_", "n", "N", "x y", "-"]) + r.choice(["", "_", "1", "10", "2", "01"])
        else:
            s = "".join(r.choice("aAbB019_ ") for _ in range(r.randint(1, 4)))
        if s not in used:
            used.add(s)
            return s


def series(r, w, gen, t0, t1):
    n = r.randint(1, 4)
    inner = sorted({t0 + (t1 - t0) * r.randint(0, 64) / 64 for _ in range(n)})
    pts = sorted({float(t0)} | {float(x) for x in inner} | {float(t1)})
    return pts, [[gen(k) for k in range(w)] for _ in pts]


def length(r, si):
    """{value, unit} denoting si metres, and what it denotes exactly"""
    u, f = r.choice(UNITS[:2]) if si > 50 else r.choice(UNITS[:1] + UNITS[2:])
    v = si / f
    return {"value": v, "unit": u}


def boundary_values(r, t, t0, t1):
    if t == "Pressureboundarynode":
        return series(r, 1, lambda k: r.uniform(40, 80), t0, t1)
    if t in ("Source", "Sink", "ConstraintSink"):
        return series(r, 1, lambda k: r.uniform(-30, 90), t0, t1)
    if t in ("PQnode", "StochasticPQnode"):
        return series(r, 2, lambda k: r.uniform(-.5, .3), t0, t1)
    if t == "PVnode":
        return series(r, 2, lambda k: r.uniform(.9, 1.1) if k else r.uniform(0, .6), t0, t1)
    if t in ("Vphinode", "ExternalPowerplant"):
        return series(r, 2, lambda k: r.uniform(-.3, .3) if k else r.uniform(.95, 1.1), t0, t1)
    return [], []


def pipe_data(r, c, small):
    c["D"] = r.choice([.3, .5, .8, 1.0, 1.2, r.uniform(.1, 1.5)])
    c["k"] = r.choice([1e-5, 1e-4, 5e-5, 1e-3, r.uniform(1e-6, 2e-3), c["D"] * r.uniform(.01, .09)])
    dx = r.choice([500, 1000, 2500, 10000, r.uniform(100, 20000)])
    n = r.choice([1, 1, 2, 2, 3] if small else [1, 2, 3, 4, 6])
    k = r.random()
    c["L"] = dx * n if k < .3 else dx * (n - r.uniform(.02, .98)) if k < .9 else dx * (n - 1) + r.uniform(.001, .01) * dx
    if k >= .3 and abs(c["L"] / dx - round(c["L"] / dx)) < 1e-6:
        c["L"] *= 1.001
    c["dx"] = dx


def parameters(r, comps, t0=0.0, t1=86400.0, small=False):
    """fills in the data of components given by id, type, cls, from, to"""
    if t0 == 0.0 and r.random() < .2:
        t0 = -50000.0
    for c in comps:
        t = c["type"]
        for k in ("L", "D", "k", "dx", "G", "B", "ga", "pa"):
            c.setdefault(k, 0.0)
        c.setdefault("from", "")
        c.setdefault("to", "")
        c["pts"], c["vals"] = boundary_values(r, t, t0, t1)
        if t == "Pipe":
            pipe_data(r, c, small)
        if t in POWER:
            c["G"], c["B"] = r.choice([0, r.uniform(0, 15), r.uniform(-2, 2)]), r.choice([0, r.uniform(-30, 0), r.uniform(-2, 2)])
        if t == "Transmissionline":
            c["G"], c["B"] = r.choice([0, r.uniform(-10, 0), r.uniform(-2, 2)]), r.choice([r.uniform(0, 30), r.uniform(-2, 2)])
        if t == "Gaspowerconnection":
            c["ga"], c["pa"] = r.choice([r.uniform(.001, .1), r.uniform(.1, 5)]), r.choice([r.uniform(.001, .2), r.uniform(.1, 5)])
        for k in ("L", "D", "k", "dx", "G", "B", "ga", "pa"):
            c[k] = float(c[k])
    return comps


DEFAULTABLE = {"Pipe": ["length", "diameter", "roughness", "desired_delta_x"], "Transmissionline": ["G", "B"],
               "Gaspowerconnection": ["gas2power_q_coeff", "power2gas_q_coeff"]}
DEFAULTABLE.update({t: ["G", "B"] for t in POWER})


def problem_json(r, comps, shuffle=True, share=True):
    """the JSON read by grazer; entries of a type in random order, optional data partly as defaults"""
    top, bnd, defaults = {"nodes": {}, "connections": {}}, {"nodes": {}}, {}
    common = {}
    if r.random() < .7:
        common = {"balancelaw": "Isothermaleulerequation", "scheme": "Implicitboxscheme"}
        defaults["Pipe"] = dict(common)
    order = list(comps)
    if shuffle:
        r.shuffle(order)
    for c in order:
        t = c["type"]
        o = {"id": c["id"]}
        if c["cls"] == "edge":
            o["from"], o["to"] = c["from"], c["to"]
        if t == "Pipe":
            for key, name in (("L", "length"), ("D", "diameter"), ("k", "roughness")):
                o[name] = {"value": c[key], "unit": "m"} if key == "L" else length_exact(r, c[key])
            o["desired_delta_x"] = c["dx"]
            if not common:
                o.update(balancelaw="Isothermaleulerequation", scheme="Implicitboxscheme")
        if t in POWER or t == "Transmissionline":
            o["G"], o["B"] = c["G"], c["B"]
        if t == "Gaspowerconnection":
            o["gas2power_q_coeff"], o["power2gas_q_coeff"] = c["ga"], c["pa"]
        if t == "StochasticPQnode":
            o.update(c.get("stoch", STOCH))
        if r.random() < .2:
            o["note"] = "x"
        top["nodes" if c["cls"] == "node" else "connections"].setdefault(t, []).append(o)
        if c["pts"]:
            b = {"id": c["id"], "data": [{"time": p, "values": v} for p, v in zip(c["pts"], c["vals"])]}
            if t == "StochasticPQnode":
                b["seed"] = c.get("seed", list(range(1, 9)))
            bnd["nodes"].setdefault(t, []).append(b)
    # values shared by entries of a type, or given once, may stand in the defaults
    for cls in top.values():
        for t, l in cls.items():
            if not share or t not in DEFAULTABLE or r.random() > .3:
                continue
            for key in DEFAULTABLE[t]:
                if r.random() < .5:
                    d = r.choice(l)[key]
                    defaults.setdefault(t, {})[key] = d
                    for o in l:
                        if o[key] == d and r.random() < .8:
                            del o[key]
    if r.random() < .1:
        defaults.setdefault(r.choice(list(DEFAULTABLE)), {})
    if shuffle:
        for l in bnd["nodes"].values():
            r.shuffle(l)
    if r.random() < .3:  # surplus boundary values are ignored
        for t, l in bnd["nodes"].items():
            l.insert(r.randint(0, len(l)), {"id": r.choice(["", "0surplus", "zz_surplus"]), "data": [{"time": 0.0, "values": [1.0] * len(l[0]["data"][0]["values"])}]})
            break
    return {"problem": {"topology_json": top, "boundary_json": bnd}, "defaults": defaults}


def length_exact(r, si):
    u, f = r.choice(UNITS)
    v = si / f
    return {"value": v, "unit": u} if v * f == si else {"value": si, "unit": "m"}


def random_net(r, gas=None, power=None, small=False, types=None, plants=None):
    """connected gas part, power part, couplings; every node has edges of its kind"""
    used, comps = set(), []
    hub = r.random() < .12  # many edges at one node
    gas = r.choice([0, 5, 6, 7] if hub else [0, 2, 2, 3, 4, 5]) if gas is None else 7 if hub and gas > 2 else gas
    power = r.choice([0, 5, 6, 7] if hub else [0, 0, 1, 2, 3, 4]) if power is None else 7 if hub and power > 1 else power
    if gas < 2 and power == 0:
        gas = 2
    gt = [r.choice(GASNODES) for _ in range(gas)]
    if gas and r.random() < .6 and "Pressureboundarynode" not in gt:
        gt[r.randrange(gas)] = "Pressureboundarynode"
    def node(t):
        c = {"id": pick_id(r, used), "type": t, "cls": "node"}
        comps.append(c)
        return c
    def edge(t, a, b):
        if t != "Gaspowerconnection" and r.random() < .5:
            a, b = b, a
        comps.append({"id": pick_id(r, used), "type": t, "cls": "edge", "from": a["id"], "to": b["id"]})
    G = [node(t) for t in gt]
    for k in range(1, gas):
        edge(r.choice(types or GASEDGES), G[k], G[0 if hub else r.randrange(k)])
    for _ in range(r.choice([0, 0, 1, 2])):
        if gas > 1:
            a, b = r.sample(G, 2)
            edge(r.choice(types or GASEDGES), a, b)
    P = [node(r.choice(POWERNODES)) for _ in range(power)]
    for k in range(1, power):
        edge("Transmissionline", P[k], P[0 if hub else r.randrange(k)])
    for _ in range(r.choice([0, 0, 1, 2]) if power > 1 else 0):
        a, b = r.sample(P, 2)
        edge("Transmissionline", a, b)
    if gas and (plants or power or r.random() < .3):
        for _ in range(plants or r.choice([0, 1, 1, 2])):
            e = node("ExternalPowerplant")
            g = r.choice(G)
            edge("Gaspowerconnection", g, e)
            for p in r.sample(P, min(len(P), r.choice([4, 5] if hub else [0, 1, 2]))):
                edge("Transmissionline", e, p)
    r.shuffle(comps)
    return parameters(r, comps, small=small)


def points(c):
    return math.ceil(c["L"] / c["dx"]) + 1


def nstates(c):
    t = c["type"]
    return 2 * points(c) if t == "Pipe" else 4 if t in SHORT else 2 if t in POWER or t == "Gaspowerconnection" else 0


def ncontrols(c):
    return 1 if c["type"] in ("Compressorstation", "Controlvalve") else 0


def q_of_re(re, c):
    return re * (math.pi * (c["D"] / 2) ** 2 * 1e-5) / (c["D"] * .785)


def flow(r, c, smooth):
    """a flow in one of the friction regimes"""
    k = r.random()
    s = r.choice([-1, 1])
    if c["type"] == "Gaspowerconnection":
        return s * (r.uniform(60.001, 200) if k < .5 else r.uniform(.5, 59.5)) if smooth else r.choice([s * r.uniform(0, 200), s * 60.0, 0.0, s * r.uniform(0, 60)])
    if k < .55 or c["type"] != "Pipe":
        return s * r.uniform(2, 300)
    re = r.uniform(200, 1900) if k < .7 else r.uniform(2100, 3900) if k < .9 else r.uniform(4100, 9000)
    if not smooth and k > .95:
        re = r.choice([0.0, 1e-9, 2000.0, 4000.0, 1999.999, 2000.001, 3999.999, 4000.001])
    return s * q_of_re(re, c)


def state(r, comps, smooth=True, flat=None):
    """a random state of every component, internal variables"""
    st = {}
    flat = r.random() < .3 if flat is None else flat
    for c in comps:
        n, t = nstates(c), c["type"]
        if not n:
            continue
        v = []
        rho0, regime = r.uniform(15, 75), None
        for k in range(n // 2):
            if t == "Pipe":
                v += [rho0 if flat else r.uniform(15, 75), flow(r, c, smooth)]
            elif t in POWER:
                v += [r.uniform(.8, 1.2) if r.random() < .85 else r.uniform(-1.5, 1.5), r.choice([r.uniform(-.7, .7), r.uniform(-4, 4)])]
            else:
                v += [r.uniform(20, 90), flow(r, c, smooth)]
        st[c["id"]] = v
    return st


def controls(r, comps):
    return {c["id"]: [r.uniform(-5, 30)] for c in comps if ncontrols(c)}


def begin(r, comps):
    """a time before which the data of all components begin"""
    t = max([c["pts"][0] for c in comps if c.get("pts")] + [-50000.0])
    return r.uniform(t, 0) if t < 0 and r.random() < .5 else 0.0


def args(r, comps, smooth=True):
    t0 = r.choice([0.0, 1000.0, r.uniform(0, 40000)]) + begin(r, comps)
    t1 = t0 + r.choice([1800.0, 60.0, 1.0, r.uniform(.5, 40000)])
    return {"t0": t0, "t1": t1, "last": state(r, comps, smooth), "new": state(r, comps, smooth), "control": controls(r, comps)}


def deriv_args(r, comps):
    a = args(r, comps, smooth=True)
    a["other"] = args(r, comps, smooth=True)
    return dict(a, op="Deriv")


def wellposed_net(r, gas=None, power=None, loose=0):
    """one pressure node per gas part, one reference node per grid: simulations should succeed"""
    used, comps = set(), []
    hub = r.random() < .08
    gas = r.choice([0, 2, 3, 4, 5]) if gas is None else 7 if hub and gas > 2 else gas
    power = r.choice([0, 2, 3, 4]) if power is None else 7 if hub and power > 2 else power
    if gas < 2 and power < 2:
        gas = 2
    def node(t):
        c = {"id": pick_id(r, used), "type": t, "cls": "node"}
        comps.append(c)
        return c
    def edge(t, a, b):
        if t != "Gaspowerconnection" and r.random() < .5:
            a, b = b, a
        comps.append({"id": pick_id(r, used), "type": t, "cls": "edge", "from": a["id"], "to": b["id"]})
    G = [node(r.choice(["Source", "Sink", "ConstraintSink", "Innode"])) for _ in range(gas)]
    if G:
        G[r.randrange(gas)]["type"] = "Pressureboundarynode"
    for k in range(1, gas):
        edge(r.choice(["Pipe", "Pipe"] + GASEDGES), G[k], G[0 if hub else r.randrange(k)])
    for _ in range(r.choice([0, 0, 1]) if gas > 1 else 0):
        edge("Pipe", *r.sample(G, 2))
    P = [node(r.choice(["PQnode", "PVnode"])) for _ in range(power)]
    plant = bool(G and P) and r.random() < .7
    if P and not plant or r.random() < .3 and P:
        P[r.randrange(power)]["type"] = "Vphinode"
    for k in range(1, power):
        edge("Transmissionline", P[k], P[0 if hub else r.randrange(k)])
    for _ in range(r.choice([0, 0, 1]) if power > 1 else 0):
        edge("Transmissionline", *r.sample(P, 2))
    if plant:
        e = node("ExternalPowerplant")
        edge("Gaspowerconnection", r.choice(G), e)
        edge("Transmissionline", e, r.choice(P))
    while r.random() < loose:  # gas nodes nothing is attached to
        node(r.choice(["Source", "Sink", "ConstraintSink", "Innode", "Pressureboundarynode"]))
    r.shuffle(comps)
    parameters(r, comps, small=True)
    byid = {c["id"]: c for c in comps}
    for c in comps:
        t = c["type"]
        if t == "Pipe":
            c["dx"], n = r.choice([1000.0, 5000.0]), r.choice([1, 2, 3])
            c["L"] = c["dx"] * (n - r.choice([0, .25, .5]))
            c["D"] = r.choice([.5, .8, 1.0])
        if t == "Pressureboundarynode":
            c["vals"] = [[r.uniform(60, 64)] for _ in c["pts"]]
        if t in ("Source", "Sink", "ConstraintSink"):
            c["vals"] = [[r.uniform(-5, 30)] for _ in c["pts"]]
        if t == "Transmissionline":
            c["B"], c["G"] = r.uniform(10, 25), -r.uniform(0, 2)
        if t == "Gaspowerconnection":
            c["ga"] = c["pa"] = r.uniform(.02, .2)
            if r.random() < .5:
                c["pa"] = c["ga"] * r.uniform(1, 2)
        if t in POWER:
            ls = [e for e in comps if e["type"] == "Transmissionline" and c["id"] in (e["from"], e["to"])]
            c["ls"] = ls
    for c in comps:
        if "ls" in c:
            ls = c.pop("ls")
            c["G"], c["B"] = -sum(e["G"] for e in ls), -sum(e["B"] for e in ls)
            if c["type"] == "PQnode":
                c["vals"] = [[r.uniform(-.4, .4), r.uniform(-.2, .2)] for _ in c["pts"]]
            if c["type"] == "PVnode":
                c["vals"] = [[r.uniform(-.4, .4), r.uniform(.98, 1.02)] for _ in c["pts"]]
            if c["type"] in ("Vphinode", "ExternalPowerplant"):
                c["vals"] = [[r.uniform(.98, 1.02), 0.0] for _ in c["pts"]]
    return comps


def rho_of_bar(p):
    P = p * 1e5
    pcrit, c2 = 46.4512e5, 1.01325e5 * 283.15 / (1.005 * 273.15 * .785)
    al = .257 / pcrit - .533 * 192.033 / (pcrit * 283.15)
    return P / (c2 * (1 + al * P))


def sim_op(r, comps, steps=None):
    n = steps or r.choice([2, 3, 5])
    dt = r.choice([60.0, 600.0, 1800.0])
    t0 = r.choice([0.0, 3600.0]) + begin(r, comps)
    times = [t0 + dt * k for k in range(n + 1)]
    if r.random() < .3:
        times = [t0] + sorted({t0 + dt * n * r.uniform(.05, 1) for _ in range(n)})
    init = {}
    for c in comps:
        k, t = nstates(c), c["type"]
        if t == "Pipe":
            init[c["id"]] = [rho_of_bar(62.0), r.uniform(2, 8)] * (k // 2)
        elif t in POWER:
            init[c["id"]] = [1.0, 0.0]
        elif k:
            init[c["id"]] = [62.0, 5.0] * (k // 2)
    base = {c["id"]: r.uniform(0, 3) for c in comps if ncontrols(c)}
    ctl = [{i: [b + r.uniform(-.3, .3)] for i, b in base.items()} for _ in times]
    return {"op": "Sim", "times": times, "init": init, "controls": ctl,
            "set": {"use_simplified_newton": r.random() < .5, "retries": r.choice([0, 1, 3]),
                    "maximal_number_of_newton_iterations": 60, "tolerance": r.choice([1e-8, 1e-7, 1e-6])}}


def results_op(r, comps):
    n = r.choice([1, 2, 3, 4])
    b = begin(r, comps)
    times = sorted({b + r.uniform(0, 86400) for _ in range(n)})
    return {"op": "Results", "times": times, "states": [state(r, comps) for _ in times]}


def initial_op(r, comps):
    """initial values for every component with states: exactly one point or a profile"""
    by, given = {}, []
    for c in comps:
        t = c["type"]
        if not nstates(c):
            continue
        if t == "Pipe":
            xs = sorted({0.0, c["L"]} | {c["L"] * r.uniform(.01, .99) for _ in range(r.choice([0, 0, 1, 3]))})
        elif t in SHORT:
            xs = [0.0, 1.0]
        else:
            xs = [0.0]
        val = (lambda: [r.uniform(.8, 1.2), r.uniform(-.5, .5)]) if t in POWER else (lambda: [r.uniform(20, 80), r.uniform(-100, 100)])
        d = [{"x": x, "values": val()} for x in xs]
        by.setdefault((c["cls"], t), []).append({"id": c["id"], "data": d})
        given.append({"id": c["id"], "data": d})
    js = {"nodes": {}, "connections": {}}
    for (cls, t), l in by.items():
        r.shuffle(l)
        js["nodes" if cls == "node" else "connections"][t] = l
    return {"op": "Data", "what": "initial", "json": js, "given": given}
