"""From files to a graph: merging topology and boundary values (C20), nodes and edges (C21)."""
import copy
from props import prop
from netgen import *
from p_network import nets, scenario, evals


def tag(pj):
    n = 0
    for key, base in (("topology_json", 1), ("boundary_json", 5001)):
        for cls in ("nodes", "connections"):
            for t, l in pj[key].get(cls, {}).items():
                for c in l:
                    c["tag"] = base + n
                    n += 1
    return pj


def shuffled(r, pj):
    pj = copy.deepcopy(pj)
    for key in ("topology_json", "boundary_json"):
        for cls in pj[key]:
            for l in pj[key][cls].values():
                r.shuffle(l)
            items = list(pj[key][cls].items())
            r.shuffle(items)
            pj[key][cls] = dict(items)
        pj[key] = dict(r.sample(list(pj[key].items()), len(pj[key])))
    return pj


def entries(f, cls=None):
    return [(k, t, l, c) for k in ("nodes", "connections") if cls in (None, k) for t, l in f.get(k, {}).items() for c in l]


def new_id(r, ids):
    base = r.choice(sorted(ids) or ["a"])
    new = r.choice([base + "0", base[:-1], "!" + base, "~" + base, base + " ", "nobody", base.upper(), base.lower()])
    return new if new not in ids else new_id(r, set(ids) | {base + "%d" % r.randint(0, 99)})


FAULTS = ["dup_same", "dup_cross", "dup_boundary", "no_boundary", "no_boundary_type", "unknown_type", "wrong_class",
          "nowhere", "to_edge", "loop", "no_id", "no_boundary_id", "case"]


def fault(r, pj, kind):
    top, bnd = pj["topology_json"], pj["boundary_json"]
    T, B = entries(top), entries(bnd)
    ids = {c.get("id") for _, _, _, c in T if "id" in c}
    edges = [x for x in T if x[0] == "connections"]
    if not T:
        return
    if kind == "dup_same":
        _, _, l, c = r.choice(T)
        l.append(copy.deepcopy(c))
    if kind == "dup_cross" and len(T) > 1:
        a, b = r.sample(T, 2)
        if "id" in b[3]:
            a[3]["id"] = b[3]["id"]
    if kind == "dup_boundary" and B:
        k, t, l, c = r.choice(B)
        if r.random() < .5:
            l.append(copy.deepcopy(c))
        else:
            bnd.setdefault(r.choice(["nodes", "connections"]), {}).setdefault(r.choice(["Pipe", "Sink", "Other"]), []).append(copy.deepcopy(c))
    if kind == "no_boundary" and B:
        k, t, l, c = r.choice(B)
        if len(l) > 1:
            l.remove(c)
        else:
            c["id"] = new_id(r, ids)
    if kind == "no_boundary_type" and B:
        k, t, l, c = r.choice(B)
        del bnd[k][t]
    if kind in ("unknown_type", "wrong_class", "case"):
        k, t, l, c = r.choice(T)
        if kind == "case":
            top[k][r.choice([t.lower(), t.upper(), t + " "])] = top[k].pop(t)
        elif kind == "unknown_type":
            top[k].setdefault(r.choice(["Reservoir", "", "Pip", "Powernode", "Gasedge"]), []).append(dict(c, id="odd" + str(r.randint(0, 99))))
        else:
            o = "nodes" if k == "connections" else "connections"
            top.setdefault(o, {}).setdefault(t, []).append(dict(c, id="odd" + str(r.randint(0, 99))))
    if kind in ("nowhere", "to_edge", "loop") and edges:
        c = r.choice(edges)[3]
        e = r.choice(["from", "to"])
        o = "to" if e == "from" else "from"
        c[e] = new_id(r, ids) if kind == "nowhere" else c[o] if kind == "loop" else r.choice(edges)[3].get("id", "x")
    if kind == "no_id":
        r.choice(T)[3].pop("id", None)
    if kind == "no_boundary_id" and B:
        r.choice(B)[3].pop("id", None)


def surplus(r, pj):
    """boundary values nobody needs"""
    top, bnd = pj["topology_json"], pj["boundary_json"]
    ids = {c["id"] for f in (top, bnd) for _, _, _, c in entries(f) if "id" in c}
    for _ in range(r.choice([0, 0, 1, 2])):
        i = new_id(r, ids)
        if i in ids:
            continue
        ids.add(i)
        B = entries(bnd)
        if B and r.random() < .7:
            _, _, l, c = r.choice(B)
            l.append(dict(copy.deepcopy(c), id=i))
        else:
            cls = r.choice(["nodes", "connections"])
            unused = [t for t in ["Sink", "Source", "PQnode", "Valve", "Unheard"] if t not in top.get(cls, {})]
            if unused:
                bnd.setdefault(cls, {}).setdefault(r.choice(unused), []).append({"id": i, "data": [{"time": 0.0, "values": [1.0]}]})


def changes(r, comps, n):
    nodes = [c["id"] for c in comps if c["cls"] == "node"]
    edges = [c for c in comps if c["cls"] == "edge"]
    if not edges:
        return []
    ops = []
    for _ in range(n):
        e = r.choice(edges)
        if r.random() < .25:
            ids = [c["id"] for c in comps]
            a, b = [r.choice(nodes) if r.random() < .95 else new_id(r, ids) for _ in (1, 2)]
            ops.append({"op": "join", "a": new_id(r, ids + [o["a"] for o in ops]), "b": a, "c": a if r.random() < .5 else b, "like": e["id"]})
            continue
        a = r.choice([e["from"], e["to"], r.choice(nodes)])
        ops.append({"op": r.choice(["start", "end", "remove", "remove"]), "a": a, "b": e["id"]})
    ops.append({"op": "net", "drop": r.choice(["", "", r.choice(nodes)])})
    return ops


def graph_scenario(r, comps, n=None, p_fault=.5):
    b = problem_json(r, comps)
    pj = b["problem"]
    surplus(r, pj)
    if r.random() < p_fault:
        for _ in range(r.choice([1, 1, 1, 2])):
            fault(r, pj, r.choice(FAULTS))
    if r.random() < .2:
        k, t = r.choice([("nodes", "Sink"), ("connections", "Pipe"), ("connections", "Shortpipe")])
        pj["topology_json"].setdefault(k, {}).setdefault(t, [])
    tag(pj)
    ids = [c["id"] for c in comps]
    probes = sorted(set(r.sample(ids, min(len(ids), 7)) + [new_id(r, ids), ""]))
    how = lambda: r.choice(["inline", "inline", "inline", "relative", "absolute"])
    ops = changes(r, comps, r.randint(0, 5)) if n is None else n
    return {"kind": "assemble", "graph": True, "probes": probes, "ops": ops,
            "builds": [dict(b, how=how()), dict(b, problem=shuffled(r, pj), how=how())]}


def plain_entries(r, files):
    """files of the specification, with everything else random"""
    n = [0]
    def one(f, boundary):
        js = {} if r.random() < .3 else {"nodes": {}, "connections": {}}
        for e in f:
            c = {"id": e["id"], "tag": e["tag"], "x": [r.random()] * r.randint(0, 3)}
            if e["id"] == "<none>":
                del c["id"]
            if boundary and r.random() < .5:
                c["boundary"] = True
            js.setdefault(e["cls"], {}).setdefault(e["type"], []).append(c)
        return js
    return {"topology_json": one(files["top"], False), "boundary_json": one(files["bnd"], True)}


def random_files(r):
    types = r.sample([("nodes", t) for t in ("A", "B", "Source")] + [("connections", t) for t in ("A", "Pipe")], r.randint(1, 4))
    pool = [pick_id(r, set()) for _ in range(r.randint(1, 9))] + ["a", "aa", "ab", "b", "10", "9", "1"]
    def file(n, base, own):
        f, used = [], set()
        for k in range(n):
            i = r.choice(own or pool)
            if i in used and r.random() < .95:
                continue
            used.add(i)
            c, t = r.choice(types)
            f.append({"cls": c, "type": t, "id": i, "tag": base + k})
        return f
    top = file(r.randint(0, 10), 1, None)
    bnd = file(r.choice([0, 1, 2]), 101, None)
    kept = {x["id"] for x in bnd}
    for k, x in enumerate(top):
        if r.random() < .9 and x["id"] not in kept:
            kept.add(x["id"])
            bnd.append(dict(x, tag=201 + k))
    if r.random() < .3 and bnd:
        bnd.pop(r.randrange(len(bnd)))
    return {"top": top, "bnd": bnd}


def merges(ctx, gen, num):
    r, scen = ctx.rng, []
    files = ctx.generate("TopologyMC", "TopologyGen.cfg", gen, 13) + [random_files(r) for _ in range(num)]
    for f in files:
        pj = plain_entries(r, f)
        scen.append({"kind": "assemble", "probes": [], "ops": [],
                     "builds": [{"problem": pj, "how": r.choice(["inline", "inline", "relative"])}, {"problem": shuffled(r, pj)}]})
    return scen


@prop("C20")
def c20(ctx):
    r = ctx.rng
    ctx.model_check("TopologyMC", expect_actions=["Top", "Bnd", "Begin", "DropSurplus", "AttachOne", "KeepPlain", "StarveOne", "End"])
    ctx.conform("TopologyTrace", merges(ctx, ctx.n(1000, 8000), ctx.n(800, 8000)), label="Merging")
    ctx.conform("TopologyTrace", [graph_scenario(r, comps, n=[]) for comps in nets(ctx, ctx.n(150, 3000), ctx.n(200, 2000))], label="Building")
    bnd = [scenario(r, comps, evals(r, comps)) for comps in [random_net(r, small=True) for _ in range(ctx.n(60, 1000))]]
    ctx.conform("JunctionTrace", bnd, label="GasBoundary")
    ctx.conform("PowerTrace", bnd, label="PowerBoundary")


def replayed(ctx, num):
    """histories of the graph specification over real components"""
    r, scen = ctx.rng, []
    for b in ctx.generate("GraphMC", "GraphGen.cfg", num, 16):
        names, used, comps, ops = {}, set(), [], []
        power = r.random() < .4
        for o in b["ops"]:
            if o["op"] in ("node", "edge"):
                names[o["a"]] = pick_id(r, used)
            if o["op"] == "node":
                comps.append({"id": names[o["a"]], "type": r.choice(POWERNODES if power else GASNODES), "cls": "node"})
            elif o["op"] == "edge":
                comps.append({"id": names[o["a"]], "type": "Transmissionline" if power else r.choice(GASEDGES), "cls": "edge",
                              "from": names[o["b"]], "to": names[o["c"]]})
            elif o["op"] in ("join", "refuse"):
                new = pick_id(r, used)
                if o["op"] == "join":
                    names[o["a"]] = new
                like = r.choice([c["id"] for c in comps if c["cls"] == "edge"])
                end = lambda n: names[n] if n in names else new_id(r, used)
                ops.append({"op": "join", "a": new, "b": end(o["b"]), "c": end(o["c"]), "like": like})
            else:
                ops.append({"op": o["op"], "a": names[o["a"]], "b": names[o["b"]]})
        ops.append({"op": "net", "drop": r.choice(["", "", "", names["a"] if "a" in names else ""])})
        scen.append(graph_scenario(r, parameters(r, comps, small=True), ops, p_fault=0))
    if len(scen) < 20:
        raise Exception("only %d histories generated" % len(scen))
    return scen


@prop("C21")
def c21(ctx):
    r = ctx.rng
    ctx.model_check("GraphMC", expect_actions=["AddNode", "AddEdge", "LateEdge", "Refuse", "Start", "End", "Take"])
    ctx.conform("TopologyTrace", replayed(ctx, ctx.n(300, 4000)), label="Histories")
    ctx.conform("TopologyTrace", [graph_scenario(r, comps) for comps in nets(ctx, ctx.n(200, 4000), ctx.n(250, 2500))], label="Graphs")
