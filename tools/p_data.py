"""Data per component: files read into vectors (C19), results (C23), controls read back (C24)."""
from props import prop
from netgen import *
from p_network import nets, scenario, evals

LETTER = {"initial": "s", "clower": "q", "cupper": "q"}


def size(c, what):
    l = LETTER.get(what, "c")
    return nstates(c) if l == "s" else ncontrols(c) if l == "c" else int(c["type"] == "ConstraintSink")


def entry(r, c, what, times, kind):
    w = 2 if what == "initial" else 1
    if what == "initial":
        t = c["type"]
        if t == "Pipe":
            p = sorted({0.0, c["L"] * r.choice([1, 1, 1, 1.5])} | {c["L"] * r.uniform(.01, .99) for _ in range(r.choice([0, 0, 1, 3]))})
        elif t in SHORT:
            p = [0.0, 1.0]
        else:
            p = [0.0]
    else:
        a, b = times[0], times[-1]
        lo = r.choice([a, a, a - r.uniform(0, 50)])
        hi = r.choice([b, b, b + r.uniform(0, 50)])
        inner = r.sample(times, r.randint(0, len(times))) + [r.uniform(a, b) for _ in range(r.choice([0, 1, 2]))]
        p = sorted({lo, hi} | set(inner))
    if kind == "short":
        p = p[:-1] if what == "initial" or len(p) == 1 else [x for x in p if x < times[-1] - 1e-6]
    if kind == "unsorted":
        p = p[::-1]
    if kind == "off":
        p = [x + .25 for x in p] if what == "initial" else [x for x in p if x > times[0] + 1e-6]
    if kind == "narrow":
        w = r.choice([0, w - 1])
    if kind == "wide":
        w += r.choice([1, 2])
    g = (lambda k: r.uniform(20, 80) if k == 0 else r.uniform(-100, 100)) if what == "initial" else (lambda k: r.uniform(-20, 60))
    return {"id": c["id"], "pts": p, "vals": [[g(k) for k in range(w)] for _ in p]}


def data_op(r, comps, what, kinds=None):
    times = [r.uniform(-100, 100)]
    for _ in range(r.choice([0, 1, 2, 4])):
        times.append(times[-1] + r.choice([1.0, .1, r.uniform(.5, 4000)]))
    need = [c for c in comps if size(c, what)]
    plan = {c["id"]: "good" for c in need}
    if need and r.random() < .35:
        for c in r.sample(need, min(len(need), r.choice([1, 1, 1, 2]))):
            plan[c["id"]] = r.choice(["narrow", "wide", "short", "unsorted", "off", "missing", "missing"])
    entries = [(c, entry(r, c, what, times, plan[c["id"]])) for c in need if plan[c["id"]] != "missing"]
    for k in range(r.choice([0, 0, 1, 2])):
        o = [c for c in comps if not size(c, what) and c["id"] not in [e["id"] for _, e in entries]]
        if o and r.random() < .4:
            c = r.choice(o)
        else:
            c = {"id": "stranger_%d" % k, "type": r.choice([c["type"] for c in need] + ["Pipe", "Innode"]), "cls": r.choice(["node", "edge"])}
            if r.random() < .7 and need:  # next to the others, sorted before or behind them
                c = dict(r.choice(need), id=r.choice(["!stranger%d", "stranger_%d", "~stranger%d"]) % k)
        like = dict(r.choice(need)) if need else {"id": "", "type": "PQnode"}
        entries.append((c, dict(entry(r, like, what, times, r.choice(["good", "good", "narrow", "short"])), id=c["id"])))
    return write(r, what, times, entries, [c["id"] for c in need])


def write(r, what, times, entries, need):
    r.shuffle(entries)
    js = {}
    for c, e in entries:
        d = [{"x" if what == "initial" else "time": p, "values": v} for p, v in zip(e["pts"], e["vals"])]
        js.setdefault("nodes" if c["cls"] == "node" else "connections", {}).setdefault(c["type"], []).append({"id": e["id"], "data": d})
    return {"op": "Data", "what": what, "times": times, "json": js, "given": [e for _, e in entries],
            "unknown": [e["id"] for _, e in entries if e["id"] not in need]}


WHATS = ["initial", "control", "lower", "upper", "clower", "cupper"]


def data_ops(r, comps):
    return [data_op(r, comps, w) for w in WHATS if w == "initial" or any(size(c, w) for c in comps) or r.random() < .2]


def small_net():
    """the network of DataFileMC, made complete by the nodes its edges need"""
    base = {k: 0.0 for k in ("L", "D", "k", "dx", "G", "B", "ga", "pa")}
    def c(i, t, cls, a="", b="", **k):
        return dict(base, id=i, type=t, cls=cls, pts=[], vals=[], **{"from": a, "to": b}, **k)
    q = {"pts": [0.0, 9.0], "vals": [[1.0], [2.0]]}
    return [dict(c("s", "ConstraintSink", "node"), **q), c("n1", "Innode", "node"), c("n2", "Innode", "node"),
            dict(c("v", "PQnode", "node"), pts=[0.0, 9.0], vals=[[0.1, 0.1], [0.1, 0.1]]),
            dict(c("p", "Pipe", "edge", "s", "n1"), L=2.0, dx=1.0, D=.5, k=1e-4),
            c("b", "Compressorstation", "edge", "n1", "n2"), c("a", "Controlvalve", "edge", "n2", "s")]


def replayed(ctx, num):
    """behaviours of the specification: files over its small network, composed entry by entry"""
    r, comps = ctx.rng, small_net()
    byid = {c["id"]: c for c in comps}
    ops = []
    for b in ctx.generate("DataFileMC", "DataFileGen.cfg", num, 12):
        f = lambda x: float(x)
        es = [(byid.get(e["id"], {"cls": "edge", "type": "Shortpipe"}),
               {"id": e["id"], "pts": [f(x) for x in e["pts"]], "vals": [[f(x) for x in v] for v in e["vals"]]}) for e in b["given"]]
        need = [c["id"] for c in comps if size(c, b["what"])]
        ops.append(write(r, b["what"], [0.0, 1.5, 4.0], es, need))
    if len(ops) < 20:
        raise Exception("only %d files generated" % len(ops))
    return [scenario(r, comps, ops[i:i + 4]) for i in range(0, len(ops), 4)]


@prop("C19")
def c19(ctx):
    r = ctx.rng
    ctx.model_check("DataFileMC", expect_actions=["Compose", "Written", "Read", "TakeOne", "End"])
    if ctx.thorough:
        ctx.model_check("DataFileMC", "DataFileMC4.cfg", timeout=3000)
    ctx.conform("DataTrace", replayed(ctx, ctx.n(300, 4000)), label="Replayed")
    scen = [scenario(r, comps, data_ops(r, comps)) for comps in nets(ctx, ctx.n(250, 4000), ctx.n(200, 2000))]
    ctx.conform("DataTrace", scen)
    # boundary values reach the equations of the right node
    bnd = []
    for _ in range(ctx.n(60, 1000)):
        comps = random_net(r, small=True)
        bnd.append(scenario(r, comps, evals(r, comps)))
    ctx.conform("JunctionTrace", bnd, label="GasBoundary")
    ctx.conform("PowerTrace", bnd, label="PowerBoundary")


def readback_op(r, comps):
    t = [r.choice([0.0, -5.0, r.uniform(-1000, 1000)])]
    for _ in range(r.choice([0, 1, 2, 3, 6])):
        t.append(t[-1] + r.choice([1.0, .1, 1 / 3, r.uniform(1e-3, 4000)]))
    v = lambda: r.choice([r.uniform(-5, 30), 0.0, -0.1, 1 / 3, 1e-17, 123456789.123456789, r.gauss(0, 1e-5)])
    return {"op": "ReadBack", "times": t, "controls": [{c["id"]: [v()] for c in comps if ncontrols(c)} for _ in t]}


@prop("C23")
def c23(ctx):
    r = ctx.rng
    ctx.model_check("ResultsMC", expect_actions=["Change", "SaveNow", "Write", "ReadBack"])
    scen = [scenario(r, comps, [results_op(r, comps), readback_op(r, comps)]) for comps in nets(ctx, ctx.n(250, 4000), ctx.n(200, 3000))]
    ctx.conform("ResultsTrace", scen)


@prop("C24")
def c24(ctx):
    r = ctx.rng
    ctx.model_check("ResultsMC", expect_actions=["Change", "SaveNow", "Write", "ReadBack"])
    scen = [scenario(r, comps, [readback_op(r, comps) for _ in range(2)])
            for comps in nets(ctx, ctx.n(200, 4000), ctx.n(150, 2000), types=SHORT)]
    ctx.conform("ResultsTrace", scen)
    sims = []
    for _ in range(ctx.n(60, 1000)):
        while True:
            comps = wellposed_net(r, gas=r.choice([3, 4, 5]))
            if any(ncontrols(c) for c in comps):
                break
        o = sim_op(r, comps)
        sims.append(scenario(r, comps, [dict(o, op="ReadBack")]))
    ctx.conform("ResultsTrace", sims, label="Simulated")
