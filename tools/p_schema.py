"""Component data, defaults (C22) and generated schemas (C33)."""
import copy
import random
from props import prop
from netgen import *

NODES = GASNODES + POWERNODES + ["ExternalPowerplant"]
EDGES = GASEDGES + ["Transmissionline", "Gaspowerconnection"]
WIDTH = dict([(t, 2) for t in POWER] + [(t, 1) for t in ("Source", "Sink", "ConstraintSink", "Pressureboundarynode")])
STATES = POWER + SHORT + ["Pipe", "Gaspowerconnection"]
CONTROLS = ["Compressorstation", "Controlvalve"]
AROUND = {"Innode": [{"id": "g1"}, {"id": "g2"}]}
NUMBERS = dict([(t, ["B", "G"]) for t in POWER + ["Transmissionline"]],
               Gaspowerconnection=["gas2power_q_coeff", "power2gas_q_coeff"], Pipe=["desired_delta_x"])
NUMBERS["StochasticPQnode"] = ["B", "G"] + list(STOCH)
cls = lambda t: "node" if t in NODES else "edge"


def num(r):
    return r.choice([1, 0, 2.5, -3, r.uniform(.1, 100)])


def wrong(r, kind):
    """a value of another kind"""
    pool = {"number": ["1", True, None, [1], {}], "string": [5, None, ["m"], {}, False],
            "object": ["m", 5, [], None, True], "array": [{}, 5, "x", None]}[kind]
    return copy.deepcopy(r.choice(pool))


def series(r, key, w, pts):
    return [{key: p, "values": [num(r) for _ in range(w)]} for p in pts]


def points_of(r, file, t):
    if file == "initial":
        return [0, 1] if t in SHORT else sorted({0, 1000} | {r.randint(1, 999) for _ in range(r.choice([0, 1]))}) if t == "Pipe" else [0]
    return [0.0] + [float(k) for k in range(1, r.choice([2, 2, 3]))] if file != "boundary" else [float(k) for k in range(r.choice([1, 2, 3]))]


def boundary(r, t):
    b = {"id": "c", "data": series(r, "time", WIDTH[t], points_of(r, "boundary", t))}
    if t == "StochasticPQnode" and r.random() < .4:
        b["seed"] = [r.randint(0, 2 ** 31 - 1) for _ in range(8)]
    return b


def properties(t):
    """name -> (kind, maker) of the topology data"""
    p = {"id": ("string", lambda r: r.choice(["c", "x", "c 1"]))}
    if cls(t) == "edge":
        p["from"], p["to"] = ("string", lambda r: "g1"), ("string", lambda r: "g2")
    for n in NUMBERS.get(t, []):
        p[n] = ("number", lambda r: r.choice([1000, 500.5, 7]))
        if n not in STOCH and n != "desired_delta_x":
            p[n] = ("number", num)
    if "number_of_stochastic_steps" in p:
        p["number_of_stochastic_steps"] = ("number", lambda r: r.choice([1, 5, 1000]))
    if t == "Pipe":
        for n in ("length", "diameter", "roughness"):
            p[n] = ("quantity", lambda r: {"value": r.choice([1, 2.5, 40]), "unit": r.choice(["m", "km", "cm", "mm", "dm"])})
        p["balancelaw"] = ("string", lambda r: "Isothermaleulerequation")
        p["scheme"] = ("string", lambda r: "Implicitboxscheme")
    if t in WIDTH:
        p["boundary_values"] = ("boundary", lambda r: boundary(r, t))
    return p


def spoil(r, kind, v, t=None, key="time", file="boundary"):
    """something of v missing, too much or of the wrong kind"""
    v = copy.deepcopy(v)
    if kind in ("number", "string"):
        return wrong(r, kind)
    if r.random() < .15:
        return wrong(r, "object")
    if kind == "quantity":
        k = r.choice(["value", "unit"])
        x = r.random()
        if x < .4:
            del v[k]
        elif x < .7:
            v[k] = wrong(r, "number" if k == "value" else "string")
        elif x < .85:
            v["more"] = 1
        else:
            v["unit"] = r.choice(["parsec", "", "kg"])
        return v
    v.setdefault("id", "c")
    x = r.random()
    if x < .12:
        del v["id"]
    elif x < .2:
        v["id"] = wrong(r, "string")
    elif x < .3:
        del v["data"]
    elif x < .38:
        v["data"] = wrong(r, "array")
    elif x < .45:
        v["data"] = []
    elif x < .52:
        v["data"].append(r.choice([5, "x", None, True, [], {}]))
    elif x < .6:
        d = r.choice(v["data"])
        del d[r.choice([key, "values"])]
    elif x < .68:
        d = r.choice(v["data"])
        k = r.choice([key, "values"])
        d[k] = wrong(r, "number" if k == key else "array")
    elif x < .76:
        d = r.choice(v["data"])["values"]
        d[r.randrange(len(d))] = wrong(r, "number")
    elif x < .82:
        r.choice(v["data"])["values"].append(1.0)
    elif x < .88:
        r.choice(v["data"])["values"].pop()
    elif x < .92 and file == "initial":
        v["data"] = v["data"][1:] or series(r, key, 2, [5])
    elif x < .96 and file == "initial":
        v["data"].append({"x": v["data"][-1]["x"] + 1, "values": [1, 1]})
    elif t == "StochasticPQnode" and file == "boundary":
        v["seed"] = r.choice([[1, 2], list(range(9)), list(range(16)), [], "x", [1, 2, 3, 4, 5, 6, 7, "8"]])
    else:
        v["more"] = r.choice([1, "x", {}])
    return v


def partial(r, kind, v):
    """a part of an object"""
    v = copy.deepcopy(v)
    keys = sorted(v)
    for k in r.sample(keys, r.randint(1, len(keys))):
        del v[k]
    return v


def default_set(r, t, clean=False, need=()):
    """defaults of a type: right, wrong, partial or surplus"""
    d = {}
    for n, (kind, gen) in properties(t).items():
        if n in need or r.random() < (.35 if n not in ("id", "from", "to") else .08):
            v = gen(r)
            if kind == "boundary" and r.random() < .5:
                v.pop("id")
            if not clean:
                x = r.random()
                if x < .12:
                    v = spoil(r, kind, v, t)
                elif x < .3 and kind in ("quantity", "boundary"):
                    v = partial(r, kind, v)
            elif kind in ("quantity", "boundary") and r.random() < 0:
                v = partial(r, kind, v)
            d[n] = v
    if not clean and r.random() < .1:
        d[r.choice(["unknown", "lenght", "boundary_values", "control_values", "ID"])] = {}
    if not clean and r.random() < .03:
        return wrong(r, "object")
    return d


def entry_of(r, t, dflt, without=()):
    """data of a component: given, left to the defaults, missing or of the wrong kind"""
    e, bad = {}, r.random() < .4
    dflt = dflt if isinstance(dflt, dict) else {}
    for n, (kind, gen) in properties(t).items():
        if n in without:
            continue
        v = gen(r)
        x = r.random()
        has = n in dflt
        if has and x < .55:
            if kind in ("quantity", "boundary") and isinstance(dflt[n], dict) and r.random() < .5:
                for k in list(v):
                    if k in dflt[n] and r.random() < .7:
                        del v[k]
                e[n] = v
            continue
        if bad and x > .93:
            continue
        if bad and x > .86:
            v = spoil(r, kind, v, t)
        elif bad and x > .8 and kind in ("quantity", "boundary"):
            v = partial(r, kind, v)
        e[n] = v
    if r.random() < .2:
        e[r.choice(["note", "more", "Length", "control_values"])] = r.choice([1, "x", {"a": 1}, [1], None])
    return e


def makes(r, num):
    """one factory, components of several types made one after the other"""
    types = r.sample(NODES + EDGES, 4)
    d = {t: default_set(r, t) for t in types if r.random() < .8}
    ops = [{"op": "Factory", "defaults": d}]
    for _ in range(num):
        t = r.choice(types)
        ops.append({"op": "Make", "cls": cls(t), "type": t, "entry": entry_of(r, t, d.get(t, {}))})
        if r.random() < .2:
            ops.append(copy.deepcopy(ops[r.randrange(1, len(ops))]))
    return {"kind": "defaults", "around": AROUND, "ops": ops}


def move_to_defaults(r, full):
    """the same network with shared data moved to the defaults"""
    fill = copy.deepcopy(full)
    d = fill["defaults"]
    for group in ("nodes", "connections"):
        for t, comps in fill["problem"]["topology_json"][group].items():
            for n, (kind, _) in properties(t).items():
                if n in ("id", "from", "to") or r.random() < .3:
                    continue
                if kind == "boundary":
                    bs = fill["problem"]["boundary_json"]["nodes"].get(t, [])
                    mine = [b for b in bs if b["id"] in [c["id"] for c in comps]]
                    if not mine:
                        continue
                    for k in ("data", "seed"):
                        if k in mine[0] and r.random() < .7:
                            v = copy.deepcopy(r.choice(mine)[k])
                            d.setdefault(t, {}).setdefault("boundary_values", {})[k] = v
                            for b in mine:
                                if b[k] == v and r.random() < .8:
                                    del b[k]
                    continue
                given = [c[n] for c in comps if n in c]
                if not given or n in d.get(t, {}):
                    continue
                v = copy.deepcopy(r.choice(given))
                if kind == "quantity" and r.random() < .5:
                    k = r.choice(["unit", "value"])
                    d.setdefault(t, {})[n] = {k: v[k]}
                    for c in comps:
                        if c[n][k] == v[k] and r.random() < .8:
                            del c[n][k]
                else:
                    d.setdefault(t, {})[n] = v
                    for c in comps:
                        if c[n] == v and r.random() < .8:
                            del c[n]
    return fill


def twin(r):
    comps = random_net(r, small=True)
    for t in {c["type"] for c in comps}:
        same = [c for c in comps if c["type"] == t]
        for c in same[1:]:
            for k in ("L", "D", "k", "dx", "G", "B", "ga", "pa"):
                if r.random() < .5:
                    c[k] = same[0][k]
            if r.random() < .5:
                c["pts"], c["vals"] = same[0]["pts"], same[0]["vals"]
    full = problem_json(r, comps, share=False)
    full["defaults"] = {}
    for group in ("nodes", "connections"):
        for t, l in full["problem"]["topology_json"][group].items():
            for c in l:
                if t == "Pipe":
                    c.update(balancelaw="Isothermaleulerequation", scheme="Implicitboxscheme")
                if t == "StochasticPQnode" and r.random() < .5:
                    c.update(sigma_P=.1 * r.randint(0, 3), theta_Q=.5 * r.randint(1, 3))
    return {"kind": "defaults", "around": AROUND, "ops": [{"op": "Twin", "seed": r.randint(1, 10 ** 6), "full": full, "filled": move_to_defaults(r, full)} for _ in range(2)]}


@prop("C22")
def c22(ctx):
    r = ctx.rng
    ctx.model_check("DefaultsMC", expect_actions=["Set", "First", "Later"])
    if ctx.thorough:
        ctx.model_check("DefaultsMC", "DefaultsMC3.cfg", timeout=3000)
    ctx.conform("DefaultsTrace", [makes(r, 25) for _ in range(ctx.n(250, 5000))], label="Made")
    ctx.conform("DefaultsTrace", [twin(r) for _ in range(ctx.n(150, 3000))], label="Twins")


# ---- generated schemas ----
def one_of_each(r):
    """a network with one component of every type, its initial values and controls"""
    g = [t for t in GASNODES]
    comps = [{"id": "c" + t, "type": t, "cls": "node"} for t in NODES]
    ring = ["c" + t for t in g]
    ends = {"Pipe": (0, 1), "Shortpipe": (1, 2), "Compressorstation": (2, 3), "Controlvalve": (3, 4)}
    for t, (a, b) in ends.items():
        comps.append({"id": "c" + t, "type": t, "cls": "edge", "from": ring[a], "to": ring[b]})
    comps.append({"id": "cTransmissionline", "type": "Transmissionline", "cls": "edge", "from": "cPQnode", "to": "cPVnode"})
    comps.append({"id": "cGaspowerconnection", "type": "Gaspowerconnection", "cls": "edge", "from": "cInnode", "to": "cExternalPowerplant"})
    parameters(r, comps, small=True)
    for c in comps:
        if c["type"] == "Pipe":
            c["L"], c["dx"] = 1000.0, 500.0
    return comps


def data_file(r, what):
    js = {"nodes": {}, "connections": {}}
    for t in STATES if what == "initial" else CONTROLS:
        js["nodes" if cls(t) == "node" else "connections"][t] = [data_entry(r, what, t)]
    return js


def data_entry(r, what, t):
    if what == "initial":
        return {"id": "c" + t, "data": [{"x": p, "values": [r.uniform(30, 60), 1]} for p in points_of(r, what, t)]}
    return {"id": "c" + t, "data": [{"time": p, "values": [num(r)]} for p in (0.0, 1.0)]}


def judge(r, file, t, d):
    op = {"op": "Judge", "file": file, "cls": cls(t), "type": t}
    if file == "topology":
        op["entry"] = entry_of(r, t, d, without=["boundary_values"])
        if t in WIDTH:
            op["boundary"] = boundary(r, t)
    elif file == "boundary":
        op["topology"] = {n: gen(r) for n, (k, gen) in properties(t).items() if n != "boundary_values"}
        b = boundary(r, t)
        bd = d.get("boundary_values", {})
        for k in list(b):
            if k in bd and r.random() < .6:
                del b[k]
        op["entry"] = spoil(r, "boundary", boundary(r, t), t) if r.random() < .5 else b
    else:
        e = data_entry(r, file, t)
        op["id"] = e["id"]
        if r.random() < .6:
            e2 = spoil(r, "data", e, t, "x" if file == "initial" else "time", file)
            # another id is another component
            e = e2
        op["entry"] = e
    return op


def outers(r):
    ops = []
    for f in ("topology", "boundary", "initial", "control"):
        for data, fine in (({"nodes": {}, "connections": {}}, True), ({"nodes": {}}, False), ({"connections": {}}, False), ([], False), (5, False),
                           ("x", False), (None, False), ({"nodes": [], "connections": {}}, False), ({"nodes": {}, "connections": 5}, False),
                           ({"nodes": {}, "connections": {"Pipes": []}}, False), ({"nodes": {"Pipe": []}, "connections": {}}, False),
                           ({"nodes": {}, "connections": {}, "$schema": "../schemas/x"}, True),
                           ({"nodes": {}, "connections": {"Compressorstation": {}}}, False)):
            if f == "boundary" and isinstance(data, dict) and "Compressorstation" in (data.get("connections") if isinstance(data.get("connections"), dict) else {}):
                continue
            ops.append({"op": "Outer", "file": f, "data": data, "fine": fine})
    return ops


def settings(r):
    s = {"simulation_settings": {"use_simplified_newton": r.random() < .5, "maximal_number_of_newton_iterations": 50, "tolerance": 1e-8, "retries": 0,
                                 "start_time": 0, "end_time": 3600, "desired_delta_t": r.choice([1800, 7.5])},
         "problem_data": {"topology_json": r.choice(["topology.json", {"nodes": {}, "connections": {}}]), "boundary_json": "boundary.json"}}
    if r.random() < .5:
        s["problem_data"]["defaults"] = {"Pipe": {"desired_delta_x": 5}}
    if r.random() < .5:
        s["optimize"] = r.random() < .5
        s["control_settings"] = r.choice([{"desired_delta_t": 450}, {"number_of_steps": 10}])
        s["constraint_settings"] = {"evaluate_constraints_every_n": 2}
    fine = r.random() < .4
    if not fine:
        k = r.choice(list(s["simulation_settings"]) + ["simulation_settings", "problem_data", "topology_json", "boundary_json"])
        home = s if k in s else s["simulation_settings"] if k in s["simulation_settings"] else s["problem_data"]
        if r.random() < .5:
            del home[k]
        else:
            home[k] = [5]
    return {"op": "Outer", "file": "problem_data", "data": s, "fine": fine}


def generated(r, num):
    types = r.sample(NODES + EDGES, 5)
    d = {t: default_set(r, t, clean=True, need=["boundary_values"] if r.random() < .3 else ()) for t in types if r.random() < .8}
    if r.random() < .15:
        d = {}
    gen = {"op": "Generate", "defaults": d, "types": {"node": NODES + ["Pipe", "Nonode"], "edge": EDGES + ["PQnode", "Pipes"]}}
    if d or r.random() < .8:
        gen["problem_data"] = {"simulation_settings": {}, "problem_data": {"defaults": d}}
    ops = []
    foreign = r.random()
    if foreign < .3:
        gen0 = dict(gen, present={r.choice(["results.json", "notes.txt", "Topology.json", ".hidden"]): "precious", "topology_schema.json": "{}"})
        if r.random() < .4:
            gen0["present"] = {r.choice(["old", "topology_old", "control"]): "directory", "boundary_schema.json": "{}"}
        ops.append(gen0)
    if foreign > .6:
        gen["present"] = {f + "_schema.json": r.choice(["{}", "x" * 100000]) for f in r.sample(["topology", "boundary", "initial", "control", "problem_data"], 3)}
    ops.append(gen)
    ops += outers(r) if r.random() < .2 else []
    ops += [settings(r) for _ in range(2)]
    for _ in range(num):
        f = r.choice(["topology", "topology", "boundary", "initial", "control"])
        t = r.choice({"topology": NODES + EDGES, "boundary": list(WIDTH), "initial": STATES, "control": CONTROLS}[f])
        if f in ("topology", "boundary") and d and r.random() < .6:
            t = r.choice([x for x in d if f == "topology" or x in WIDTH] or [t])
        dt = d.get(t, {})
        ops.append(judge(r, f, t, dt))
    return {"kind": "defaults", "around": AROUND, "problem": problem_json(r, one_of_each(r), shuffle=False, share=False),
            "initial": data_file(r, "initial"), "control": data_file(r, "control"), "ops": ops}


@prop("C33")
def c33(ctx):
    r = ctx.rng
    ctx.model_check("DefaultsMC", expect_actions=["Set", "First", "Later"])
    ctx.conform("DefaultsTrace", [generated(r, 25) for _ in range(ctx.n(250, 5000))], label="Generated")
