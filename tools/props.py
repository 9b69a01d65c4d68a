#!/usr/bin/env python3
"""Single source of the property texts: writes properties.jsonl and
MANIFEST.json from PROPS (run it from anywhere)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
FMT = "openformats/formats/"


def prop(pid, title, statement, over, quant, why, files, mechanism,
         technique=None, note=None, observe=None, state=None):
    PROPS.append(dict(
        id=pid, title=title, statement=statement, over=over, quant=quant,
        why=why, files=files, mechanism=mechanism, technique=technique,
        note=note, observe=observe, state=state))


exec(open(os.path.join(HERE, "tools", "texts.py"), encoding="utf-8").read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            anchors = {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w}
                              for n, w in p["mechanism"]],
            }
            if p["observe"]:
                anchors["observe_at"] = p["observe"]
            if p["state"]:
                anchors["state"] = [
                    {"name": a, "meaning": b, "where": c}
                    for a, b, c in p["state"]]
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"], "anchors": anchors,
            }) + "\n")
    checks, na = [], []
    for p in PROPS:
        built = os.path.exists(os.path.join(
            HERE, "vp", "checks", p["id"].lower() + ".py"))
        if not built:
            na.append({"property": p["id"],
                       "reason": p["note"] or "check not built yet"})
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": "./check %s" % p["id"],
            "thorough_cmd": "VERIF_TIER=thorough ./check %s" % p["id"],
            "technique": p["technique"], "level": "model_checking",
            "level_note": p["note"],
        })
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({
            "version": 1,
            "setup_cmd": "sh ./setup.sh",
            "checks": checks, "not_applicable": na,
            "notes": "Explicit-state / stateless exploration of the real "
                     "openformats code against reference models; no hooks in "
                     "/repo. See DESIGN.md.",
        }, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
