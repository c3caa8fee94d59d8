"""Write DESIGN.md from the property list, the check modules and the notes."""
import ast
import json
import os
import re
import textwrap

import props

ROOT = props.ROOT


def wrap(s, indent=""):
    return textwrap.fill(" ".join(s.split()), 79, initial_indent=indent,
                         subsequent_indent=indent.replace("*", " "))


def module(pid):
    f = os.path.join(ROOT, "harness", "checks", pid.lower() + ".py")
    if not os.path.exists(f):
        return None
    t = ast.parse(open(f).read())
    vals, docs = {}, {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            vals[n.targets[0].id] = n.value
        elif isinstance(n, ast.FunctionDef):
            docs[n.name] = " ".join((ast.get_docstring(n) or "").split())
    lit = {k: ast.literal_eval(vals[k])
           for k in ("RULE", "REQUIRED", "ASSUMPTIONS")}
    lit["fams"] = []
    for k, v in zip(vals["FAMILIES"].keys, vals["FAMILIES"].values):
        fn, q, th = v.elts
        lit["fams"].append((k.value, q.value, th.value, docs.get(fn.id, "")))
    return lit


def main():
    out = [open(os.path.join(ROOT, "tools", "design_head.md")).read()]
    for p in props.P:
        out.append("### %s %s\n\n" % (p["id"], p["title"]))
        m = module(p["id"])
        if m is None:
            out.append("Not applicable: %s\n\n" % props.NA_REASON[p["id"]])
            continue
        out.append(wrap("Decided by: " + p["technique"] + ".") + "\n\n")
        out.append(wrap("Workload: " + p["text"] + ". Events: " + m["RULE"]
                        + ".") + "\n\n")
        for name, q, th, doc in m["fams"]:
            out.append(wrap("%s (%d quick, %d thorough cases)%s" % (
                name, q, th, ": " + doc if doc else ""), "* ") + "\n")
        out.append("\n" + wrap("The run is inconclusive unless it saw: "
                               + ", ".join(m["REQUIRED"]) + ".") + "\n\n")
        out.append(wrap("Bounds: " + p["note"] + ".") + "\n\n")
        if m["ASSUMPTIONS"]:
            out.append(wrap("Assumes: " + "; ".join(m["ASSUMPTIONS"]) + ".")
                       + "\n\n")
        out.append(wrap("Beyond the tests: " + p["why"] + ".") + "\n\n")
    out.append("## Planted bugs\n\nEach is in `seeded/<id>/`; the check named "
               "catches it in its quick tier.\n\n")
    sd = os.path.join(ROOT, "seeded")
    for d in sorted(os.listdir(sd)):
        with open(os.path.join(sd, d, "meta.json")) as fp:
            meta = json.load(fp)
        out.append(wrap("`%s` (%s): %s; needs %s" % (
            d, meta.get("caught_by", meta["property"]),
            meta["what_it_breaks"], meta["needs"]), "* ") + "\n")
    out.append(open(os.path.join(ROOT, "tools", "design_tail.md")).read())
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as fp:
        fp.write(re.sub(r"[ \t]+\n", "\n", "".join(out)))


if __name__ == "__main__":
    main()
