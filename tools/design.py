"""Assemble DESIGN.md from tools/design_head.md, the check modules, properties.jsonl, seeded/ and known_findings.txt."""
import ast
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = lambda *p: os.path.join(ROOT, *p)  # noqa: E731


def consts(path):
    src = open(path).read()
    t = ast.parse(src)
    out = {"doc": ast.get_docstring(t), "harness": []}
    names = set()
    for n in t.body:
        if isinstance(n, ast.Assign) and n.targets[0].id in ("BOUNDS", "OUTSIDE", "ASSUMPTIONS"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
        if isinstance(n, ast.Assign) and n.targets[0].id == "HARNESSES":
            names = {k.arg for k in n.value.keywords}
    for n in t.body:
        if isinstance(n, ast.FunctionDef) and n.name in names:
            out["harness"].append((n.name, " ".join((ast.get_docstring(n) or "").split())))
    return out


def main():
    o = [open(R("tools", "design_head.md")).read(), "\n## Properties\n"]
    man = json.load(open(R("MANIFEST.json")))
    claimed = json.dumps(man)
    times = json.load(open(R("tools", "times.json"))) if os.path.exists(R("tools", "times.json")) else {}
    seeds = {}
    for d in sorted(os.listdir(R("seeded"))):
        m = json.load(open(R("seeded", d, "meta.json")))
        seeds.setdefault(m["property"], []).append((d, m))
    for line in open(R("properties.jsonl")):
        p = json.loads(line)
        i = p["id"]
        f = R("checks", i + ".py")
        o.append("### %s %s\n" % (i, p["title"]))
        o.append(p["statement"] + "\n")
        if not os.path.exists(f) or i not in claimed:
            o.append("Not claimed.\n")
            continue
        c = consts(f)
        o.append("- Functions executed: %s" % ", ".join("`%s`" % x.split("reliabilityassessment/")[-1] for x in p["anchors"]["files"]))
        for n, d in c["harness"]:
            o.append("- Harness `%s`%s" % (n, ": " + d if d else ""))
        o.append("- Oracle: the obligations restate the meaning in independent arithmetic over the same symbolic inputs (%s)" % c["doc"].split(" ", 1)[1].rstrip("."))
        o.append("- Bounds: " + c["BOUNDS"])
        o.append("- Outside: " + c["OUTSIDE"])
        o.append("- Assumptions: " + "; ".join(c["ASSUMPTIONS"]))
        o.append("- Why tests cannot: " + p["why_tests_cant"])
        if i in times:
            o.append("- Cost (8 cores): quick about %s s%s" % (times[i][0], ", thorough about %s s" % times[i][1] if len(times[i]) > 1 else ""))
        for d, m in seeds.get(i, []):
            o.append("- Planted change `%s` (%s): %s" % (d, m["needs"], m.get("caught", "caught by the quick check")))
        o.append("")
    o.append("## Findings\n\nThe file known_findings.txt lists them; each `fixed` entry is one `fix:` commit in /repo, after which the check passes; the check reports the violation again if it returns.\n")
    for l in open(R("known_findings.txt")):
        l = l.strip()
        if l.startswith("fixed: "):
            o.append("- " + re.sub(r"property=(C\d+) (\w+)", r"\1, commit \2:", l[7:]))
        elif l.startswith("known: {"):
            k = json.loads(l[7:])
            o.append("- not repaired, %s: %s" % (k["property"], k["what"]))
    o.append("")
    if os.path.exists(R("tools", "design_tail.md")):
        o.append(open(R("tools", "design_tail.md")).read())
    open(R("DESIGN.md"), "w").write("\n".join(o))


if __name__ == "__main__":
    main()
