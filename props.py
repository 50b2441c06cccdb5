#!/usr/bin/env python3
"""Property statements; running this file writes properties.jsonl and MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
PROPS = []
def prop(id, title, statement, qtext, why, files, mech, observe=(), over=("inputs",), na=None):
    PROPS.append(dict(id=id, title=title, statement=" ".join(statement.split()), quantifier=dict(over=list(over), text=" ".join(qtext.split())), why_tests_cant=" ".join(why.split()),
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None), na=na))
exec(open(os.path.join(HERE, "proplist.py")).read())
if __name__ == "__main__":
    from specs import SPECS
    ids = [p["id"] for p in PROPS]; assert len(ids) == len(set(ids)); assert not set(SPECS) - set(ids), set(SPECS) - set(ids)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as o:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            for f in p["anchors"]["files"]:
                assert os.path.exists(os.path.join("/repo", f)), f
            o.write(json.dumps({k: v for k, v in p.items() if k != "na"}) + "\n")
    checks, na = [], []
    for p in PROPS:
        i = p["id"]
        if i in SPECS:
            s = SPECS[i]
            checks.append(dict(property=i, quick_cmd="python3 /verif/check.py %s --tier quick" % i, thorough_cmd="python3 /verif/check.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
                technique="bounded symbolic execution of the LLVM IR of /repo's current sources, assertions decided by Z3, counterexamples replayed on the real code",
                level="other", level_note="Every assertion decided by the solver for all values within the bounds: " + s["bounds"] + ". Doubles are exact reals (NaN/inf tracked as concrete shapes), so rounding is not covered. Trusted: clang -O1 front end without LLVM passes, the executor, Z3, the small libstdc++/BLAS/boost-text models in engine/rt." + ((" Assumes: " + "; ".join(s["assumptions"])) if s["assumptions"] else "")))
        else:
            assert p["na"], i
            na.append(dict(property=i, reason=p["na"]))
    json.dump(dict(version=1, setup_cmd="/verif/engine/build.sh", checks=checks, not_applicable=na, notes="Each check builds the engine (if absent) and the LLVM IR of /repo's sources itself; see DESIGN.md."), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks;", len(na), "not applicable")
    T = os.path.join(HERE, "design.timing.json")
    tm = json.load(open(T)) if os.path.exists(T) else {}
    md = open(os.path.join(HERE, "design.head.md")).read() + "## 5. Properties\n\nGenerated by `props.py` from `proplist.py` and `harness/specs.py`. \"Cost\" is the wall time of the quick check on 8 cores, with the number of paths, queries and assertions.\n"
    for p in PROPS:
        i = p["id"]; md += "\n### %s - %s\n\n*Specified:* %s\n\n" % (i, p["title"], p["statement"])
        md += "*Why tests cannot settle it:* %s.\n\n" % p["why_tests_cant"]
        if i not in SPECS: md += "*Not applicable:* %s\n" % p["na"]; continue
        s = SPECS[i]
        md += "*Decided by:* " + "; ".join("`harness/%s`: %s" % (g["harness"], ", ".join(g["entries"])) for g in s["groups"]) + ".\n\n"
        md += "*Bounds:* %s.\n" % s["bounds"]
        if s["outside"]: md += "\n*Outside:* %s.\n" % s["outside"]
        if s["assumptions"]: md += "\n*Assumes:* %s.\n" % "; ".join(s["assumptions"])
        if i in tm: md += "\n*Cost:* %s.\n" % tm[i]
    rows = ["", "| seed | what it breaks | needs |", "|---|---|---|"]
    for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
        rows.append("| %s | %s | %s |" % (d, m["what_it_breaks"], m["needs"]))
    md += "\n" + open(os.path.join(HERE, "design.tail.md")).read().replace("SEEDTABLE", "\n".join(rows))
    open(os.path.join(HERE, "DESIGN.md"), "w").write(md)
