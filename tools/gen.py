#!/usr/bin/env python3
"""Generates properties.jsonl, checks.json, MANIFEST.json and the per-property
section of DESIGN.md from tools/spec_*.py."""
import json, os, re, glob, importlib.util, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PROPS = []
NA = []

def H(pkg, func, bounds, quick=None, thorough=None, secs=60, tsecs=900, reach=(), qskip=False, steps=0, doc=""):
    d = {"pkg": pkg, "func": func, "bounds": bounds, "reach": list(reach),
         "quick": {"params": quick or {}, "secs": secs}, "thorough": {"params": thorough if thorough is not None else (quick or {}), "secs": tsecs}}
    if qskip: d["quick"]["skip"] = True
    if steps: d["quick"]["steps"] = steps; d["thorough"]["steps"] = steps
    if doc: d["doc"] = doc
    return d

def P(id, title, statement, over, text, why, files, mech, how, harnesses, assumptions=(), outside="", state=(), observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, how=how,
                      harnesses=harnesses, assumptions=list(assumptions), outside=outside, state=state, observe=observe))

def NOT(id, title, statement, over, text, why, files, mech, reason):
    P(id, title, statement, over, text, why, files, mech, "", [])
    NA.append((id, reason))

def load():
    for f in sorted(glob.glob(os.path.join(HERE, "spec_*.py"))):
        src = open(f).read()
        exec(compile(src, f, "exec"), {"P": P, "H": H, "NOT": NOT})

def main():
    load()
    PROPS.sort(key=lambda p: p["id"])
    ids = [p["id"] for p in PROPS]
    assert len(ids) == len(set(ids)), "duplicate ids"
    na = {i for i, _ in NA}
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            anchors = {"files": ["src/" + x for x in p["files"]], "mechanism": [{"name": a, "where": "src/" + b} for a, b in p["mech"]], "hook_needed": None}
            if p["state"]: anchors["state"] = [{"name": a, "meaning": b, "where": "src/" + c} for a, b, c in p["state"]]
            if p["observe"]: anchors["observe_at"] = list(p["observe"])
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
    checks = {}
    man = []
    for p in PROPS:
        if p["id"] in na: continue
        checks[p["id"]] = {"assumptions": p["assumptions"] + (["outside the claim: " + p["outside"]] if p["outside"] else []), "harnesses": p["harnesses"]}
        man.append({"property": p["id"], "quick_cmd": "tools/check.sh %s quick" % p["id"], "thorough_cmd": "tools/check.sh %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "symbolic execution of the Go SSA of the real code; SMT solver (z3) decides every symbolic branch and assertion",
            "level": "model_checking",
            "level_note": "Exhaustive within the stated bounds: every path of the encoded code is explored and every assertion decided by the solver for all symbolic inputs of that path; says nothing outside the bounds. Trusts the SSA builder, the engine's semantics of Go (sampled paths are replayed against the native build on every run) and z3. A run that cannot finish reports a reduced bound in its evidence (complete_within_bounds=false)."})
    json.dump(checks, open(os.path.join(ROOT, "checks.json"), "w"), indent=1)
    json.dump({"version": 1, "setup_cmd": "tools/setup.sh", "checks": man,
        "not_applicable": [{"property": i, "reason": r} for i, r in NA],
        "notes": "The engine lives in engine/ (Go, golang.org/x/tools/go/ssa), harnesses in harness/ (laid over /repo/src with a build overlay), specification in tools/spec_*.py. /repo carries no hooks, only fix: commits."},
        open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    dp = os.path.join(ROOT, "DESIGN.md")
    out = []
    for p in PROPS:
        out.append("### %s — %s\n" % (p["id"], p["title"]))
        if p["id"] in na:
            out.append("Not applicable: %s\n" % dict(NA)[p["id"]]); continue
        out.append(p["statement"] + "\n")
        if p["how"]: out.append("*How it is decided.* " + p["how"] + "\n")
        for h in p["harnesses"]:
            q = ", ".join("%s=%s" % kv for kv in h["quick"]["params"].items()) or "-"
            t = ", ".join("%s=%s" % kv for kv in h["thorough"]["params"].items()) or "-"
            if h["quick"].get("skip"): q = "not run"
            out.append("- `%s.%s` — %s (quick: %s; thorough: %s)" % (h["pkg"], h["func"], h["bounds"], q, t))
        if p["outside"]: out.append("\n*Outside the claim.* " + p["outside"])
        out.append("")
    if os.path.exists(dp):
        s = open(dp).read()
        a, b = "<!-- properties:begin -->", "<!-- properties:end -->"
        if a in s:
            s = s[:s.index(a) + len(a)] + "\n\n" + "\n".join(out) + "\n" + s[s.index(b):]
            open(dp, "w").write(s)
    print(len(PROPS), "properties,", len(man), "checks")
main()
