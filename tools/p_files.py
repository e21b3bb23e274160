"""Matrix handlers (C28), paths (C27), overwriting (C26) and output locations (C25)."""
from props import prop


def value(r):
    return r.choice([1.0, -1.0, 0.0, 0.5, r.randint(-9, 9) * 1.0, r.gauss(0, 1), r.gauss(0, 1e8), r.gauss(0, 1e-8)])


def phase(r, rows, cols, kind, pattern, n, outside):
    t = r.random() < .5
    ops = [{"op": kind, "flip": t}]
    for _ in range(n):
        a, b = r.choice(pattern)
        if outside and r.random() < .1:
            a, b = r.choice([(rows, b), (a, cols), (-1, b), (a, -1), (rows + 3, cols + 3), (b, a)])
        i, j = (b, a) if t else (a, b)
        ops.append({"op": "add", "i": i, "j": j, "v": value(r)})
    r.shuffle(ops[1:])
    ops.append({"op": "set"})
    return ops


def history(r):
    ops = []
    for _ in range(r.choice([1, 1, 2])):
        rows, cols = r.randint(1, 9), r.randint(1, 9)
        ops.append({"op": "empty", "rows": rows, "cols": cols})
        cells = [(i, j) for i in range(rows) for j in range(cols)]
        pattern = r.sample(cells, r.randint(1, min(len(cells), 14)))
        outside = r.random() < .3
        ops += phase(r, rows, cols, r.choice(["build", "build", "build", "refill"]), pattern, r.randint(0, 20), outside)
        if r.random() < .2:   # the same builder again: it keeps nothing
            ops += [{"op": "set"}]
        for _ in range(r.randint(0, 3)):
            p = pattern if r.random() < .7 else pattern + r.sample(cells, 1)
            if r.random() < .1:
                ops.append({"op": "build", "flip": r.random() < .5})
            ops += phase(r, rows, cols, "refill", p, r.randint(0, 20), outside)
    return ops


@prop("C28")
def c28(ctx):
    r = ctx.rng
    ctx.model_check("MatrixMC", expect_actions=["DoBuild", "DoRefill", "DoAdd", "DoFinish", "DoForget"])
    if ctx.thorough:
        ctx.model_check("MatrixMC", "MatrixMC8.cfg", timeout=3000)
    scen = []
    for b in ctx.generate("MatrixMC", "MatrixGen.cfg", ctx.n(500, 5000), 26):
        ops, e = [], {"op": "empty", "rows": b["rows"], "cols": b["cols"]}
        for o in b["ops"]:
            ops.append(e if o["op"] == "forget" else o)
        scen.append({"kind": "matrix", "ops": [e] + ops})
    ctx.conform("MatrixTrace", scen, label="Behaviours")
    ctx.conform("MatrixTrace", [{"kind": "matrix", "ops": history(r)} for _ in range(ctx.n(1000, 12000))], label="Histories")


def texts(alphabet, n):
    level, res = [""], [""]
    for _ in range(n):
        level = [a + c for a in level for c in alphabet]
        res += level
    return res


NAMES = ["a", "ab", "b", "...", "..a", "a..", ".a", "a.", "problem", "problem2", "prob", "lem", "out put", "ä", "..", "..", "."]


def path(r, k=None):
    t = "/" if r.random() < .45 else ""
    for _ in range(r.randint(0, 6) if k is None else k):
        t += r.choice(NAMES) + r.choice(["/", "/", "/", "//", "/./", ""])
    return t


def near(r, root):
    """files around the root's own name"""
    parts = [p for p in root.split("/") if p not in ("", ".")] or ["a"]
    k = r.choice(["below", "sibling", "climb", "back", "other", "absolute", "absolute sibling"])
    up = "../" * r.randint(1, 4)
    last = parts[-1]
    if k == "below":
        return "/".join(r.choice(NAMES) for _ in range(r.randint(0, 4)))
    if k == "sibling":
        return up + last + r.choice(["2", "x", ".", "", "/x", "/../" + last])
    if k == "climb":
        return up + r.choice(["", "x", last])
    if k == "back":
        n = r.randint(1, len(parts))
        return "../" * n + "/".join(parts[len(parts) - n:]) + r.choice(["", "/x", "/", "2", "/.."])
    if k == "absolute":
        return root + r.choice(["", "/", "/x", "/../x", "/x/..", "/x/../.."])
    if k == "absolute sibling":
        return root.rstrip("/") + r.choice(["2", "x/y", "."])
    return path(r)


@prop("C27")
def c27(ctx):
    r = ctx.rng
    ctx.model_check("PathsMC", expect_actions=["GrowRoot", "GrowFile", "Go", "Keep", "Up", "Down", "In", "Out"])
    if ctx.thorough:
        ctx.model_check("PathsMC", "PathsMC5.cfg", timeout=3000)
    # the specification's whole bounded domain
    small = texts("/.a", ctx.n(4, 5))
    ctx.conform("PathsTrace", [{"kind": "paths", "asks": [{"root": t, "files": small}]} for t in small], label="Exhaustive")
    asks = []
    for _ in range(ctx.n(3000, 40000)):
        root = path(r)
        asks.append({"root": root, "files": [near(r, root) for _ in range(12)] + [path(r) for _ in range(3)]})
    ctx.conform("PathsTrace", [{"kind": "paths", "asks": asks[i:i + 50]} for i in range(0, len(asks), 50)], label="Random")


def some_json(r, big=False):
    import json
    j = {r.choice("abcdef") + str(k): r.choice([1, "x", [1, 2], {"y": None}, True, "ü"]) for k in range(r.randint(0, 5))}
    if big:
        j["big"] = ["item %d" % k for k in range(r.choice([600, 900, 3000]))]
    return json.dumps(j, indent=r.choice([None, 1, 2]), ensure_ascii=r.random() < .5)


@prop("C26")
def c26(ctx):
    r = ctx.rng
    ctx.model_check("OverwriteMC", expect_actions=["SetAside", "SetAsideFails", "Nothing", "Create", "CreateFails", "Write", "WriteFails",
                                                  "Clear", "ClearFails", "Back", "BackFails"])
    types = ["boundary", "control", "initial", "topology", "problem_data"]
    scen = []
    for _ in range(ctx.n(150, 2500)):
        keys = r.random() < .3
        target = r.choice(["a.json", "b", "tmp_backup", "tmp.json", "file", "a.json.bak", "x y.json"])
        files = {}
        if keys:
            for t in types:
                if r.random() < .8:
                    files[t + ".json"] = some_json(r, r.random() < .1)
        elif r.random() < .85:
            files[target] = r.choice([some_json(r, r.random() < .4), "not json at all", "", "{}"])
        for n in ["tmp_backup", "tmp_backup_", "a.json.bak", "a.json.tmp", "b.tmp_backup", "other.json", "a.json_backup", "a.json~", "backup"]:
            if r.random() < .25 and n != target:
                files[n] = "kept " + str(r.random())
        new = some_json(r, r.random() < .4)
        scen.append({"kind": "overwrite", "mode": "keys" if keys else "direct", "types": r.sample(types, r.randint(1, 5)), "target": target,
                     "files": files, "new": new[:-1] + (", " if len(new) > 2 else "") + '"fresh": 1}', "impossible": r.random() < .1,
                     "where": r.choice(["absolute", "relative", "bare"]),
                     "pairs": [[a, b, r.random() < .3] for a in range(r.choice([0, 4, 7])) for b in range(a + 1, a + 4)]})
    ctx.conform("OverwriteTrace", scen)


def race(r, what, names, schedule, before, **kw):
    inside = before if what == "output" else {}
    return dict({"kind": "race", "what": what, "names": names, "schedule": schedule, "before": {} if what == "output" else before,
                 "inside": inside, "rivals": r.choice(["file", "dir"])}, **kw)


def some_tree(r, names):
    return {n: r.choice(["dir", "empty", "=kept " + str(r.randint(0, 99))]) for n in names}


def races(ctx):
    r, scen = ctx.rng, []
    for b in ctx.generate("OutputsMC", "OutputsGen.cfg", ctx.n(400, 6000), 60):
        what = r.choice(["directory", "directory", "file"])
        names = [b["asked"]["r%d" % k] or ["a"] for k in (1, 2, 3)]
        sched = [s["n"] if s["op"] == "rival" else int(s["r"][1]) - 1 for s in b["sched"] if s["op"] in ("begin", "ask", "grab", "rival")]
        kw = {"fault": r.randint(0, 4)} if any(s["op"] == "hurt" for s in b["sched"]) else {}
        scen.append(race(r, what, names, sched, some_tree(r, b["before"]), **kw))
    pool = ["a", "b", "c", "d", "2026.01.01_00:00:00.1", "x y", "e.json", "output_1.json"]
    for _ in range(ctx.n(400, 6000)):
        n = r.randint(1, 5)
        ns = r.sample(pool, r.randint(1, len(pool)))
        what = r.choice(["directory", "file", "output"])
        names = [[r.choice(ns) for _ in range(r.choice([1, 2, 3, 9, 15]))] for _ in range(n)]
        if r.random() < .3:
            names = [names[0]] * n
        sched = [r.choice(ns) if r.random() < .1 and what != "output" else r.randrange(n) for _ in range(r.randint(0, 60))]
        kw = {"fault": r.randint(0, 9)} if r.random() < .25 else {}
        scen.append(race(r, what, names, sched, some_tree(r, r.sample(ns, r.randint(0, len(ns)))), **kw))
    return scen


def fills(r, num):
    scen = []
    for k in range(num):
        files = {}
        for n in r.sample(["topology.json", "boundary.json", "empty", "sub/a.json", "sub/deep/er/b.json", ".hidden", "void", "sub2", "x y", "bin"], r.randint(0, 8)):
            files[n] = "dir" if n in ("void", "sub2") else "empty" if n == "empty" else "=" + r.choice(["{}", "text %d" % k, "\u0001\u007f\n\n", "long " * r.choice([10, 5000])])
        if r.random() < .2 and files.get("topology.json"):
            files["linked.json"] = "->topology.json"
        names = r.choice([["states.json"], ["states.json", "controls.json"], [], ["a", "b", "c"], ["states.json", "states.json"],
                          ["a longer name.json", "c", "states.json"]])
        before = r.choice([{}, {}, {}, {"states.json": "=old results"}, {"problem/topology.json": "=old"}, {"problem": "=a file"}, {"other": "=x", "d/e": "empty"},
                           {"controls.json": "dir"}, {"c": "=cc"},
                           {"controls.json": "=old controls"}, {"a longer name.json": "=old"}])
        scen.append({"kind": "fill", "problem": files, "names": names, "before": before, "with_faults": r.random() < .4})
    scen.append({"kind": "fill", "problem": {"t.json": "={}"}, "names": [], "before": {}, "default": True, "with_faults": False})
    return scen


@prop("C25")
def c25(ctx):
    r = ctx.rng
    ctx.model_check("OutputsMC", expect_actions=["Start", "Ask", "Grab", "Other", "Break", "Win", "Lose"])
    if ctx.thorough:
        ctx.model_check("OutputsMC", "OutputsMC3.cfg", timeout=3000)
    ctx.conform("OutputsTrace", races(ctx), label="Races")
    ctx.conform("OutputsTrace", fills(r, ctx.n(120, 2000)), label="Filling")
    ctx.conform("OutputsTrace", [{"kind": "processes", "what": w, "processes": 6, "each": 5} for w in ("directory", "output") for _ in range(ctx.n(2, 20))],
                label="Processes", chunks=1)


KINDS = ["boundary", "control", "initial", "topology", "problem_data"]


def ref_value(r, deep=2):
    """any JSON value, as text"""
    import json
    def v(d):
        k = r.randrange(9 if d else 6)
        if k == 0:
            return r.choice([0, -1, 7, 2 ** 40, -(2 ** 62), 1.5, -0.1, 1e-300, 2.5e17, 0.1 + 0.2])
        if k == 1:
            return r.choice(["", "x", "ü€", "a\"b", "\\", "line\nline", "../schemas/no_schema.json", "$schema"])
        if k < 4:
            return r.choice([True, False, None])
        if k < 6:
            return r.choice([[], {}])
        if k == 6:
            return [v(d - 1) for _ in range(r.randint(1, 4))]
        names = ["id", "b", "a", "$schema", "nodes", "Ü", "1"]
        r.shuffle(names)
        return {n: v(d - 1) for n in names[:r.randint(1, 4)]}
    return json.dumps(v(deep), ensure_ascii=r.random() < .5)


def data_file(r, f, kind):
    """the text of a data file with the keys in the order the specification chose"""
    import json
    if f["kind"] == "none":
        return None
    if f["kind"] == "other":
        return r.choice(["[1, 2]", "[]", "3", "null", "\"text\"", "", "{\"a\": 1", "not json", "{\"a\": 1} }", "true", "[{\"id\": 1}]", "\ufeff"])
    names = ["nodes", "connections", "id", "remarks", "$Schema", "schema", "x y", "Ü", "", "10", "9"]
    r.shuffle(names)
    names = dict(zip("abc", names))
    q = []
    for k, v in f["items"]:
        if k == "$schema":
            q.append('"$schema": ' + r.choice(['"../schemas/%s_schema.json"' % kind, '"../schemas/topology_schema.json"', '"http://other.org/x"', '""', "5"]))
        else:
            q.append(json.dumps(names[k]) + ": " + ref_value(r, r.choice([0, 2, 3])))
    return r.choice(["{%s}", "{ %s }\n", "\n{\n%s\n}"]) % r.choice([", ", ",\n  "]).join(q)


@prop("C34")
def c34(ctx):
    import json
    r = ctx.rng
    ctx.model_check("SchemaKeysMC", expect_actions=["Begin", "Give", "Pass", "Refuse", "Finish", "Generate", "GenerateRefused", "Write", "Drop", "Litter"])
    scen = []
    for b in ctx.generate("SchemaKeysGen", "SchemaKeysGen.cfg", ctx.n(300, 4000), 120):
        steps, strange, data, messy = [], False, "none", None
        extra = {p: c for p, c in {"problem/notes.json": "{}", "problem/tmp_backup": "kept", "output/a/states.json": "[1]", "problem/lower_bounds.json": "{ }",
                                   "schemas_old/topology_schema.json": "{}", "problem/more/initial.json": "{\"a\": 1}", "topology.json": "{}"}.items() if r.random() < .2}
        if extra:
            steps.append({"op": "put", "files": extra})
        for o in b["ops"]:
            if o["op"] == "edit":
                t = data_file(r, o["f"], o["k"])
                if o["k"] == "problem_data":
                    # generating reads the defaults
                    data = o["f"]["kind"]
                    if data == "object" and r.random() < .5:
                        t = t.rstrip()[:-1] + (", " if o["f"]["items"] else "") + '"problem_data": ' + r.choice(["{}", '{"defaults": {}}', '{"defaults": {"nodes": {}}}']) + "}"
                steps.append({"op": "put", "files": {"problem/%s.json" % o["k"]: t}})
            elif o["op"] == "drop":
                steps.append({"op": "put", "files": {"schemas/%s_schema.json" % o["k"]: None}})
            elif o["op"] == "litter":
                strange = not strange
                if strange:
                    messy = r.choice([("notes.txt", "x"), ("sub", "dir"), ("topology_old", "dir"), ("boundary", "dir"), ("initial_schema.json.d/x", "{}"), ("x_schema.json", "{}"), ("sub/topology_schema.json", "{}")])
                steps.append({"op": "put", "files": {"schemas/" + messy[0].split("/")[0]: None}} if not strange else {"op": "put", "files": {"schemas/" + messy[0]: messy[1]}})
            else:
                steps.append({"op": o["op"], "where": r.choice(["absolute", "absolute", "relative", "dot", "slash"]), "strange": strange, "readable": data != "other",
                              "hurt": r.random() < .3})
        if r.random() < .5:
            steps.append({"op": "insert", "where": "absolute", "strange": strange, "readable": data != "other", "hurt": True})
            if r.random() < .5:
                steps.append(dict(steps[-1], hurt=False))
        scen.append({"kind": "schemakeys", "kinds": KINDS, "steps": steps, "with_faults": r.random() < .12})
    for _ in range(ctx.n(5, 50)):
        scen.append({"kind": "schemakeys", "kinds": KINDS, "steps": [{"op": "put", "files": {"problem": "a file", "schemas/topology_schema.json": "{}"}},
                     {"op": "insert", "where": "absolute", "strange": False, "readable": True}]})
    ctx.conform("SchemaKeysTrace", scen)
    from p_run import referring
    ctx.conform("RunTrace", referring(ctx, ctx.n(30, 600)), label="Runs")
