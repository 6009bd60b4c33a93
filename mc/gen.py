"""Regenerate properties.jsonl and MANIFEST.json from the META of the check modules."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
sys.path.insert(0, HERE)

NOT_CLAIMED = []        # (property dict, reason) for properties without a check


def main():
    from mc import compat  # noqa: F401
    props, checks = [], []
    for path in sorted(glob.glob(os.path.join(HERE, "mc", "props", "c[0-9][0-9].py"))):
        pid = os.path.basename(path)[:-3].upper()
        m = importlib.import_module("mc.props." + pid.lower()).META
        assert len(m["title"]) <= 80, (pid, len(m["title"]))
        props.append(dict(id=pid, **{k: m[k] for k in ("title", "statement", "quantifier", "why_tests_cant", "anchors")}))
        checks.append(dict(property=pid, quick_cmd="./check %s" % pid, thorough_cmd="./check %s --thorough" % pid,
                           evidence_file="evidence/%s.json" % pid, technique=m["technique"], level=m["level"],
                           level_note=m["level_note"]))
    na = []
    for prop, reason in NOT_CLAIMED:
        props.append(prop)
        na.append(dict(property=prop["id"], reason=reason))
    props.sort(key=lambda p: p["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in props:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    manifest = dict(version=1, setup_cmd="./check --selftest", checks=checks, not_applicable=na,
                    notes="No hooks in /repo are needed: the checks replace sockets, the random source and missing third-party packages from outside. See DESIGN.md.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(manifest, f, indent=1, ensure_ascii=False)
        f.write("\n")
    import jsonschema
    ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in props:
        jsonschema.validate(p, ps)
    jsonschema.validate(manifest, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print(len(props), "properties,", len(checks), "checks")


if __name__ == "__main__":
    main()
