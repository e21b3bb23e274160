#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below; a property is
claimed as soon as tools/p_*.py holds a check for it."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import props
S = "src/"
IV = S + "Auxillary/InterpolatingVector/InterpolatingVector.cpp"
NS = S + "Newtonsolver/Newtonsolver.cpp"
TE = S + "Model/Problemlayer/Timeevolver.cpp"
CC = S + "Optimization_helpers/ControlStateCache.cpp"
IO_ = S + "IpoptWrapper/ImplicitOptimizer.cpp"
CJ = S + "IpoptWrapper/ConstraintJacobian.cpp"
WR = S + "IpoptWrapper/Wrapper.cpp"
NP = S + "Model/Networkproblem/"
NF = S + "Model/Netfactory/Netfactory.cpp"
NW = S + "Model/Network/"
GC = S + "Grazer/commands.cpp"
GH = S + "Grazer/helpers.cpp"
IOU = S + "Auxillary/Input_Output/Input_output.cpp"
AJ = S + "Auxillary/aux_json/Aux_json.cpp"
CF = S + "Model/Componentfactory/"
JS = S + "Auxillary/json_schema/"

def P(pid, title, statement, over, qtext, why, files, mech, spec, note, state=None, observe=None):
    return dict(pid=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                mech=mech, spec=spec, note=note, state=state, observe=observe)

TABLE = []
exec(open(os.path.join(VERIF, "tools", "properties_table.py")).read())

def main():
    ids = set()
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in TABLE:
            assert p["pid"] not in ids and len(p["title"]) <= 80, p["pid"]
            ids.add(p["pid"])
            for x in p["files"]:
                assert os.path.exists("/repo/" + x), x
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": m} for n, m in p["state"]]
            if p["observe"]:
                a["observe_at"] = p["observe"]
            f.write(json.dumps({"id": p["pid"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["qtext"]},
                                "why_tests_cant": p["why"], "anchors": a}) + "\n")
    checks, na = [], []
    for p in TABLE:
        if p["pid"] in props.CHECKS:
            checks.append({"property": p["pid"],
                           "quick_cmd": "python3 check.py %s --tier quick" % p["pid"],
                           "thorough_cmd": "python3 check.py %s --tier thorough" % p["pid"],
                           "evidence_file": "evidence/%s.json" % p["pid"],
                           "technique": "TLA+ specification (%s), model-checked with TLC; conformance of the real code by replayed behaviours and trace validation" % p["spec"],
                           "level": "model_checking", "level_note": p["note"]})
        else:
            na.append({"property": p["pid"], "reason": "no check built yet"})
    m = {"version": 1, "setup_cmd": "python3 tools/build.py",
         "hooks": {"guard": "GRAZER_VERIF", "enable": "no hooks are needed: the harness in /verif/harness links /repo/src unchanged", "source_commits": []},
         "checks": checks, "not_applicable": na,
         "notes": "The checks compile /repo/src together with /verif/harness (tools/build.py), run scenarios, and let TLC accept or reject the recorded traces against the TLA+ specifications in specs/."}
    json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(VERIF, "MANIFEST.json"), "a").write("\n")
    print(len(checks), "claimed", len(na), "not")
main()
