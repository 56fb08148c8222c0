#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE  # noqa: E402

ROOT = os.path.dirname(HERE)


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf-8") as fh:
        for p in PROPS:
            q = p["quantifier"]
            fh.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=q[0], text=q[1]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))) + "\n")
    checks, na = [], []
    for p in PROPS:
        if p["id"] in NOT_APPLICABLE:
            na.append(dict(property=p["id"], reason=NOT_APPLICABLE[p["id"]]))
            continue
        checks.append(dict(
            property=p["id"], quick_cmd="./check %s --tier quick" % p["id"],
            thorough_cmd="./check %s --tier thorough" % p["id"],
            evidence_file="evidence/%s.json" % p["id"], technique=p["technique"],
            level="other", level_note=p["note"]))
    man = dict(version=1, setup_cmd="python3 -m compileall -q sa rules", checks=checks, not_applicable=na)
    with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
