#!/usr/bin/env python3
"""The properties, in one place.  Writes properties.jsonl and MANIFEST.json."""
import json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = {}


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, state=None,
         observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, state=state, observe=observe))


exec(open(os.path.join(VERIF, "tools", "spec_props.py")).read())


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["qtext"]},
                 "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"],
                             "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
            if p["state"]:
                d["anchors"]["state"] = p["state"]
            if p["observe"]:
                d["anchors"]["observe_at"] = p["observe"]
            d["anchors"]["hook_needed"] = None
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for p in P:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
        else:
            checks.append({"property": p["id"],
                           "quick_cmd": "./check %s quick" % p["id"],
                           "thorough_cmd": "./check %s thorough" % p["id"],
                           "technique": p["technique"],
                           "level": "exploration",
                           "level_note": p["note"]})
    m = {"version": 1, "setup_cmd": "python3 tools/build.py", "checks": checks, "not_applicable": na}
    json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(VERIF, "MANIFEST.json"), "a").write("\n")


main()
