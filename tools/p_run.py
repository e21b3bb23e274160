"""The program itself: simulation runs (C31) and optimization runs (C32) on whole problem directories."""
import copy, json
from props import prop
from netgen import *
from p_data import entry, write, size, LETTER

FULL = ["PQnode", "Vphinode", "ExternalPowerplant", "StochasticPQnode"]


def data(r, comps, what, times, value, plan=None):
    """a data file: value(component) gives the value at a point"""
    plan = plan or {}
    res = []
    for c in comps:
        if not size(c, what) or plan.get(c["id"]) == "missing":
            continue
        e = entry(r, c, what, times, plan.get(c["id"], "good"))
        if plan.get(c["id"], "good") in ("good", "short", "unsorted", "off"):
            g = value(c)
            e["vals"] = [g(p) if g.__code__.co_argcount else g() for p in e["pts"]]
        res.append((c, e))
    if r.random() < .2:
        like = r.choice([c for c in comps if size(c, what)] or [{"id": "", "type": "PQnode", "cls": "node"}])
        res.append((dict(like, id="stranger"), dict(entry(r, like, what, times, "good"), id="stranger")))
    d = write(r, what, times, res, [])
    return d["json"], d["given"]


def start_value(r):
    def f(c):
        q = r.uniform(2, 8)
        if c["type"] in POWER:
            return lambda: [1.0, 0.0]
        return lambda: [62.0 + r.uniform(-.3, .3), q]
    return f


def settings(r, comps, optimize):
    start = r.choice([0.0, 0.0, 3600.0, 1800.0, r.uniform(0, 20000)]) + begin(r, comps)
    n = r.choice([1, 2, 3, 4, 5]) if not optimize else r.choice([1, 2, 3, 4])
    dt = r.choice([60.0, 600.0, 1800.0, r.uniform(30, 2000)])
    span = dt * n
    k = r.random()
    delta = dt if k < .5 else span / (n - r.uniform(.05, .95)) if k < .9 else span * r.uniform(1.01, 3)
    s = {"start": start, "end": start + span, "delta": delta, "cs": "none", "cdelta": 1.0, "cnumber": 2, "optimize": optimize, "every": 1}
    k = r.random()
    if k < .35:
        s["cs"], s["cdelta"] = "delta", r.choice([dt, span / r.uniform(.8, 4), span * 2])
    elif k < .7:
        s["cs"], s["cnumber"] = "number", r.choice([2, 3, 4, 6])
    if optimize:
        s["every"] = r.choice([1, 1, 2, 2, 3, 3, 10, 0, 0, -1])
    s["tol"] = r.choice([1e-8, 1e-7, 1e-6])
    return s


def grids(s):
    """approximate times, to write data that cover them"""
    n = max(1, math.ceil((s["end"] - s["start"]) / s["delta"] - 1e-9)) if s["delta"] > 0 else 1
    return [s["start"] + (s["end"] - s["start"]) * k / n for k in range(n + 1)]


def problem(r, comps, optimize, bad=None):
    """the data of a problem and how it lies on disk; bad: what is wrong with it"""
    s = settings(r, comps, optimize)
    newton = {"use_simplified_newton": r.random() < .5, "retries": r.choice([0, 1, 3]), "maximal_number_of_newton_iterations": 60, "tolerance": s["tol"]}
    broken, plans = [], {}
    hasctl = any(ncontrols(c) for c in comps)
    hascon = any(c["type"] == "ConstraintSink" for c in comps)
    if bad == "hard":
        newton.update(r.choice([{"tolerance": 1e-300}, {"maximal_number_of_newton_iterations": 1, "tolerance": 1e-13}]))
        s["tol"] = newton["tolerance"]
    if bad == "cover":  # the boundary data end at 86400
        k = r.choice([86400.0 - s["delta"] / 2, 90000.0, -s["end"] + s["start"] - 100.0, -10.0, 86400.0 - (s["end"] - s["start"])])
        s["end"] += k - s["start"]
        s["start"] = k
    if bad == "grid":
        s.update(r.choice([{"end": s["start"]}, {"end": s["start"] - 100.0}, {"delta": 0.0}, {"delta": -60.0}]))
    if bad == "cgrid":
        s.update(r.choice([{"cs": "both"}, {"cs": "both"}, {"cs": "both"}, {"cs": "neither"}, {"cs": "neither"}, {"cs": "delta", "cdelta": 0.0}, {"cs": "delta", "cdelta": -1.0},
                           {"cs": "number", "cnumber": 1}, {"cs": "number", "cnumber": 0}, {"cs": "number", "cnumber": -3}]))
    whats = ["initial"] + (["control"] if hasctl else []) + (["lower", "upper"] if hasctl and optimize else []) + (["clower", "cupper"] if hascon and optimize else [])
    if bad == "data":
        w = r.choice(whats)
        c = r.choice([c for c in comps if size(c, w)])
        plans[w] = {c["id"]: r.choice(["narrow", "wide", "short", "unsorted", "off", "missing"])}
    times = grids(s)
    js, given = {}, {}
    ctl = {c["id"]: r.uniform(0, 3) for c in comps if ncontrols(c)}
    wide = {c["id"]: r.choice([0.0, .5, 2.0, 5.0]) for c in comps}
    clo, chi = r.choice([(30, 90), (50, 70), (55, 66), (61, 63)])
    values = {"initial": start_value(r), "control": lambda c: lambda: [ctl[c["id"]] + r.uniform(-.3, .3)],
              "lower": lambda c: lambda: [ctl[c["id"]] - wide[c["id"]] - .4], "upper": lambda c: lambda: [ctl[c["id"]] + wide[c["id"]] + .4 + r.uniform(0, .2)],
              "clower": lambda c: lambda: [clo + r.uniform(-1, 1)], "cupper": lambda c: lambda: [chi + r.uniform(-.5, 1)]}
    if optimize and bad is None and r.random() < .6:  # bounds that matter at some times only, often at the last
        clo, chi = 30, 95
        top = r.choice(times[-1:] * 2 + times[1:])
        size_ = r.uniform(0, 4)
        hump = lambda t: max(0.0, 1.0 - abs(t - top) / (max(times[-1] - times[0], 1e-3) / r.choice([1, len(times)])))
        if r.random() < .6:
            values["clower"] = lambda c: lambda t: [45.0 + (16.0 + size_) * hump(t)]
        else:
            values["cupper"] = lambda c: lambda t: [85.0 - (20.0 + size_) * hump(t)]
    if bad == "order":
        k = r.choice((["lower"] if hasctl else []) + (["clower"] if hascon else [])) if optimize and (hasctl or hascon) else "lower"
        f = values[k]
        values[k] = lambda c: lambda: [f(c)()[0] + 200.0]
    for w in ("initial", "control", "lower", "upper", "clower", "cupper"):
        if w == "initial" or times[-1] > times[0]:
            js[w], given[w] = data(r, comps, w, times, values[w], plans.get(w))
        else:
            js[w], given[w] = data(r, comps, w, [times[0], times[0] + 1.0], values[w], plans.get(w))
    b = problem_json(r, comps)
    top, bnd = copy.deepcopy(b["problem"]["topology_json"]), copy.deepcopy(b["problem"]["boundary_json"])
    sim = dict(newton, start_time=s["start"], end_time=s["end"], desired_delta_t=s["delta"])
    pd = {"simulation_settings": sim, "problem_data": {}}
    if b["defaults"] or r.random() < .3:
        pd["problem_data"]["defaults"] = b["defaults"]
    if s["cs"] in ("delta", "both"):
        pd.setdefault("control_settings", {})["desired_delta_t"] = s["cdelta"]
    if s["cs"] in ("number", "both"):
        pd.setdefault("control_settings", {})["number_of_steps"] = s["cnumber"]
        if s["cs"] == "both" and r.random() < .5:
            pd["control_settings"]["comment"] = "x"
    if s["cs"] == "neither":
        pd["control_settings"] = r.choice([{}, {"steps": 3}])
    for part in (pd, pd.get("control_settings"), pd["problem_data"], sim):  # what grazer does not know
        if part is not None and r.random() < .15:
            part[r.choice(["comment", "author"])] = r.choice(["text", 7, {"a": []}])
    if optimize or r.random() < .5:
        pd["optimize"] = optimize
        if not optimize and r.random() < .15:  # anything but "true" means no
            pd["optimize"] = r.choice([1, "true", "yes", None, [True], {"a": True}])
    if s["every"] != 1 or r.random() < .3:
        pd["constraint_settings"] = {"evaluate_constraints_every_n": s["every"]}
    if bad == "topology":
        broken.append("topology")
        k = r.choice(["type", "dangling", "duplicate", "noid", "number"])
        cls = "connections" if top["connections"] and (k == "dangling" or r.random() < .5) else "nodes"
        t = r.choice(list(top[cls]))
        x = r.choice(top[cls][t])
        if k == "type":
            top[cls]["Unheardof"] = [dict(x, id="unheard of")]
        elif k == "dangling" and cls == "connections":
            x["to"] = "nowhere to be found"
        elif k == "duplicate":
            top[cls][t].append(dict(x))
        elif k == "noid":
            del x["id"]
        else:
            x["id"] = 7
    if bad == "boundary":
        t = r.choice([t for t in bnd["nodes"]])
        l = bnd["nodes"][t]
        ids = [c["id"] for c in comps]
        x = r.choice([x for x in l if x["id"] in ids])
        broken.append("boundary")
        k = r.choice(["missing", "type", "wide", "nodata"])
        if k == "missing":
            l.remove(x)
        elif k == "type":
            del bnd["nodes"][t]
        elif k == "wide":
            x["data"][0]["values"].append(1.0)
        else:
            del x["data"]
    role = {"initial.json": js["initial"], "control.json": js["control"], "lower_bounds.json": js["lower"], "upper_bounds.json": js["upper"],
            "constraint_lower_bounds.json": js["clower"], "constraint_upper_bounds.json": js["cupper"]}
    files = {}
    for name, j in role.items():
        if name not in ("initial.json", "control.json") and not optimize and r.random() < .6:
            continue
        if name == "control.json" and not hasctl and r.random() < .5:
            continue
        files[name] = j
    where = {}
    for name, key, j in (("topology", "topology_json", top), ("boundary", "boundary_json", bnd)):
        k = r.random()
        if k < .2:
            pd["problem_data"][key] = j
            where[name] = None
        else:
            at = name + ".json" if k < .6 else "sub dir/my %s" % name if k < .75 else None
            if at:
                pd["problem_data"][key] = r.choice([at, "./" + at, "@DIR@/problem/" + at])
                files[at] = j
                where[name] = "problem/" + at
            else:
                pd["problem_data"][key] = r.choice(["@DIR@/shared/%s.json", "../shared/%s.json"]) % name
                files["../shared/%s.json" % name] = j
                where[name] = "shared/%s.json" % name
    if r.random() < .3:
        for f, j in files.items():
            if r.random() < .7:
                j["$schema"] = "./../schemas/" + f
        if r.random() < .7:
            pd["$schema"] = "x"
    if bad == "settings":
        broken.append("settings")
        holder, key = r.choice([(pd, "simulation_settings"), (pd, "problem_data")] + [(sim, k) for k in sim if k not in ("comment", "author")] + [(pd["problem_data"], "topology_json"), (pd["problem_data"], "boundary_json")])
        if r.random() < .6:
            del holder[key]
        else:
            holder[key] = r.choice(["nothing sensible", [1, 2], None]) if key != "use_simplified_newton" else "yes"
    files["problem_data.json"] = pd
    texts = {("problem/" + n if not n.startswith("../") else n[3:]): "=" + json.dumps(j, indent=r.choice([None, 1, 4])) for n, j in files.items()}
    if bad == "file":
        f = r.choice(["initial.json", "problem_data.json"] + (["control.json"] if hasctl else []) +
                     (["lower_bounds.json", "upper_bounds.json", "constraint_lower_bounds.json", "constraint_upper_bounds.json"] if optimize else []) +
                     [k for k, v in where.items() if v])
        path = where.get(f) or "problem/" + f
        t = texts[path]
        k = r.random()
        if k < .35:
            del texts[path]
        elif k < .6:
            texts[path] = t[:r.randint(1, len(t) - 1)]
        elif k < .7:
            texts[path] = t + r.choice(["}", " {}", "\n[]", ",", t[1:]])
        else:
            texts[path] = r.choice(["=[]", "=null", "=3", "=\"text\"", "= ", "=[1]", "=}"])
        if texts.get(path, "").strip() in ("=null", "=[]", "=3", "=\"text\"", "=[1]") and f in role and not any(size(c, w) for c in comps for w in [NAMES[f]]):
            texts[path] = "=}"
        broken.append(f)
    return {"set": s, "newton": newton, "build": b, "initial": js["initial"], "control": js["control"], "given": given, "broken": broken, "texts": texts, "bad": bad}


NAMES = {"initial.json": "initial", "control.json": "control", "lower_bounds.json": "lower", "upper_bounds.json": "upper",
         "constraint_lower_bounds.json": "clower", "constraint_upper_bounds.json": "cupper"}
EXTRA = {"problem/notes.txt": "=remarks\n", "problem/more/deep/er.bin": "=\u0001\u0002", "problem/empty dir": "dir", "problem/empty": "=",
         "output/2020.01.01_00:00:00.1/states.json": "=old results", "output/notes": "=kept", "other/file": "=kept, too", "schemas/a.json": "={}"}


def scenario(r, comps, plan, optimize, faults=None):
    """plan: [(kind of problem, how many runs at once)]; the network stays, the rest may change"""
    first = problem(r, comps, optimize)
    runs, on_disk = [], set()
    build = first["build"]
    good = None
    for kind, many in plan:
        p = first if kind == "good" else problem(r, comps, optimize, None if kind == "other" else kind)
        files = dict(p["texts"])
        for old in on_disk - set(files):
            files[old] = None
        on_disk = set(p["texts"])
        if not runs:
            files.update({k: v for k, v in EXTRA.items() if r.random() < .3})
        run = {"files": files, "set": p["set"], "newton": p["newton"], "initial": p["initial"], "control": p["control"], "given": p["given"],
               "broken": p["broken"], "parallel": many, "where": r.choice(["absolute", "absolute", "relative", "dot"])}
        if faults and kind in ("good", "other") and many == 1:
            run["faults"] = faults
        runs.append(run)
    return {"kind": "run", "comps": comps, "build": build, "runs": runs, "timeout": 120}


BADS = ["hard", "cover", "grid", "cgrid", "data", "topology", "boundary", "settings", "file"]


def plans(ctx, num, optimize):
    """histories of the specification: versions of the problem and how many runs start on each"""
    r = ctx.rng
    res = []
    bads = BADS + (["order", "data", "file"] if optimize else [])
    for b in ctx.generate("RunMC", "RunGen.cfg", num, 60):
        if not b["started"][-1]:
            continue
        plan = []
        for v, k in zip(b["hist"], b["started"]):
            if k == 0:
                continue
            kind = v if v in ("good", "other") else "hard" if v == "hard" else r.choice(bads)
            many = k if r.random() < .5 or k > 2 else 1
            plan += [(kind, many)] if many > 1 else [(kind, 1)] * k
        if plan not in res or r.random() < .3:
            res.append(plan)
    r.shuffle(res)
    return res


def network(r, optimize, control=False):
    while True:
        comps = wellposed_net(r, gas=r.choice([0, 2, 3, 4]) if not optimize else r.choice([2, 3, 4]), power=r.choice([0, 0, 2, 3]), loose=.1)
        pts = sum(nstates(c) for c in comps)
        if pts > 60:
            continue
        for c in comps:
            if c["type"] == "PQnode" and not optimize and r.random() < .2:
                c["type"] = "StochasticPQnode"
                c["stoch"] = dict(STOCH, sigma_P=.01, sigma_Q=.01)
        if control and not any(ncontrols(c) for c in comps) and r.random() < .9:
            continue
        if not optimize or r.random() < .1:
            return comps
        if any(ncontrols(c) for c in comps) and (any(c["type"] == "ConstraintSink" for c in comps) or r.random() < .2):
            return comps


FAULTS = [{"how": h, "at": k} for k in range(0, 60) for h in ("fail", "full", "read")]


@prop("C31")
def c31(ctx):
    r = ctx.rng
    ctx.model_check("RunMC", expect_actions=["StartOne", "ReadOne", "RefuseOne", "ComputeOne", "DivergeOne", "CopyOne", "WriteOne", "BreakOne", "ChangeIt"])
    if ctx.thorough:
        ctx.model_check("RunMC", "RunMC3.cfg", timeout=3000)
    scen = [scenario(r, network(r, False), p, False) for p in plans(ctx, ctx.n(2000, 20000), False)[:ctx.n(60, 800)]]
    for bad in BADS:
        scen += [scenario(r, network(r, False, bad == "cgrid"), [(bad, 1), ("good", 1)], False) for _ in range(ctx.n(8, 120))]
    scen += [scenario(r, network(r, False), [("good", 1)], False) for _ in range(ctx.n(60, 1200))]
    ctx.conform("RunTrace", scen)
    f = []
    for how in ("fail", "full", "read"):
        for _ in range(ctx.n(2, 20)):
            f.append(scenario(r, network(r, False), [("good", 1)], False, [{"how": how, "at": k} for k in range(100)]))
    ctx.conform("RunTrace", f, label="FailingDisk")


@prop("C32")
def c32(ctx):
    r = ctx.rng
    ctx.model_check("RunMC", expect_actions=["StartOne", "ReadOne", "RefuseOne", "ComputeOne", "DivergeOne", "CopyOne", "WriteOne", "BreakOne", "ChangeIt"])
    scen = [scenario(r, network(r, True), p, True) for p in plans(ctx, ctx.n(2000, 20000), True)[:ctx.n(30, 400)]]
    for bad in BADS + ["order"]:
        scen += [scenario(r, network(r, True), [(bad, 1), ("good", 1)], True) for _ in range(ctx.n(4, 60))]
    scen += [scenario(r, network(r, True), [("good", 1)], True) for _ in range(ctx.n(100, 1200))]
    ctx.conform("RunTrace", scen)
    f = [scenario(r, network(r, True), [("good", 1)], True, [{"how": how, "at": k} for k in range(100)]) for how in ("fail", "full") for _ in range(ctx.n(1, 10))]
    ctx.conform("RunTrace", f, label="FailingDisk")


def referring(ctx, num):
    """runs on directories whose data files were given references to generated schemas (C34)"""
    r, scen = ctx.rng, []
    for k in range(num):
        sc = scenario(r, network(r, False), [("good", 1), ("other", 1)][:r.choice([1, 1, 2])], False)
        for x in sc["runs"]:
            x["refer"] = True
            x["files"].pop("schemas/a.json", None)
        scen.append(sc)
    return scen
