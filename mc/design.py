"""Fill DESIGN.md from DESIGN.in.md, the check modules, the findings and mc/matrix.json."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
sys.path.insert(0, HERE)


def main():
    from mc import compat  # noqa: F401
    props = []
    for path in sorted(glob.glob(os.path.join(HERE, "mc", "props", "c[0-9][0-9].py"))):
        pid = os.path.basename(path)[:-3].upper()
        mod = importlib.import_module("mc.props." + pid.lower())
        m = mod.META
        q = m["quantifier"]
        props.append("### %s %s\n" % (pid, m["title"]))
        props.append("*Property.* " + m["statement"] + "\n")
        props.append("*Explored.* " + q["text"] + ". *Bounds:* quick `%s`, thorough `%s`. *Case:* %s.\n" % (
            json.dumps(m["bounds"]["quick"]), json.dumps(m["bounds"]["thorough"]), m["rule"]))
        props.append("*Deciding method.* " + m["technique"] + ". " + m["level_note"] + "\n")
        props.append("*Beyond tests.* " + m["why_tests_cant"] + "\n")
        if m.get("assumptions"):
            props.append("*Assumes.* " + "; ".join(m["assumptions"]) + ".\n")
        if mod.__doc__:
            props.append("*Machinery.* " + " ".join(mod.__doc__.split()) + "\n")
        cost = COST.get(pid)
        if cost:
            props.append("*Cost.* " + cost + "\n")
    finds = ["| property | commit | what failed |", "|---|---|---|"]
    for line in open(os.path.join(HERE, "known_findings.jsonl"), encoding="utf-8"):
        e = json.loads(line)
        finds.append("| %s | %s | %s |" % (e["property"], e.get("commit", "known, not repaired")[:7] if e["kind"] == "fixed" else "known, not repaired", e["what"]))
    mat = {}
    mp = os.path.join(HERE, "mc", "matrix.json")
    if os.path.exists(mp):
        mat = json.load(open(mp))
    rows = ["| bug | property | needs | caught by | missed by |", "|---|---|---|---|---|"]
    for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        bid = os.path.basename(os.path.dirname(d))
        m = json.load(open(d))
        r = mat.get(bid, {})
        rows.append("| %s | %s | %s | %s | %s |" % (bid, m["property"], m["needs"], ", ".join(r.get("caught", [])), ", ".join(r.get("missed", []))))
    text = open(os.path.join(HERE, "mc", "DESIGN.in.md"), encoding="utf-8").read()
    text = text.replace("@@PROPS@@", "\n".join(props)).replace("@@FINDINGS@@", "\n".join(finds)).replace("@@SEEDED@@", "\n".join(rows))
    open(os.path.join(HERE, "DESIGN.md"), "w", encoding="utf-8").write(text)


COST = {}
p = os.path.join(HERE, "mc", "cost.json")
if os.path.exists(p):
    COST = json.load(open(p))

if __name__ == "__main__":
    main()
