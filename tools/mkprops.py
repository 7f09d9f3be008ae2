"""Writes properties.jsonl and MANIFEST.json from one table (development tool,
not used by any check).  BUILT lists the properties that have a check."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/qrisp/"


def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique="", note=""):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=[S + f for f in files],
                             mechanism=[dict(name=a, where=S + b) for a, b in mech],
                             state=[dict(name=a, meaning=b, where=S + c) for a, b, c in state],
                             observe_at=list(observe), hook_needed=None)), technique, note


exec(open(os.path.join(ROOT, "tools", "table.py")).read())

NA = globals().get("NOT_APPLICABLE", [])


def main():
    wip = open(os.path.join(ROOT, ".git", "info", "exclude")).read().split()  # unfinished checks
    built = [r for r in ROWS if os.path.exists(os.path.join(ROOT, "harness", "checks", r[0]["id"].lower() + ".py"))
             and "harness/checks/" + r[0]["id"].lower() + ".py" not in wip]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
        for r in ROWS:
            fh.write(json.dumps(r[0]) + "\n")
        for p, _ in NA:
            fh.write(json.dumps(p) + "\n")
    man = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[])
    for p, tech, note in built:
        man["checks"].append(dict(
            property=p["id"], quick_cmd=f"bash run_check.sh {p['id']}",
            thorough_cmd=f"VERIF_TIER=thorough bash run_check.sh {p['id']}",
            technique=tech, level="model_checking", level_note=note))
    for r in ROWS:
        if r not in built:
            man["not_applicable"].append(dict(property=r[0]["id"], reason="Decidable with the approach of DESIGN.md; "
                                              "its check is not finished, so it is not claimed."))
    for p, reason in NA:
        man["not_applicable"].append(dict(property=p["id"], reason=reason))
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


main()
