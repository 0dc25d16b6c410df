"""Assemble DESIGN.md from the two texts here, the literals of the checks, and the planted changes."""
import ast
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def literals(path):
    tree = ast.parse(open(path).read())
    values, facets = {}, []
    for node in tree.body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") in ("ORACLE", "RULE", "ASSUMPTIONS"):
            values[node.targets[0].id] = ast.literal_eval(node.value)
        if isinstance(node, ast.FunctionDef):
            for deco in node.decorator_list:
                if isinstance(deco, ast.Call) and getattr(deco.func, "id", "") == "facet":
                    kw = {k.arg: ast.unparse(k.value) for k in deco.keywords}
                    facets.append("`%s` %s / %s" % (ast.literal_eval(deco.args[0]), kw.get("quick", "200"), kw.get("thorough", "5000")))
    return values, facets


def main():
    out = [open(os.path.join(HERE, "design_head.md")).read()]
    reach = json.load(open(os.path.join(HERE, "design_reach.json")))
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        p = json.loads(line)
        values, facets = literals(os.path.join(ROOT, "checks", p["id"].lower() + ".py"))
        out.append("### %s %s\n" % (p["id"], p["title"]))
        out.append("* *Generated:* %s" % values["RULE"])
        out.append("* *Oracle:* %s." % values["ORACLE"])
        out.append("* *Within:* %s." % "; ".join(values["ASSUMPTIONS"]))
        out.append("* *Beyond the tests:* %s" % reach[p["id"]])
        out.append("* *Cases (quick / thorough):* %s.\n" % ", ".join(facets))
    out.append(open(os.path.join(HERE, "design_tail.md")).read())
    out.append("| change | caught by | what it breaks | needs |\n|---|---|---|---|")
    caught = json.load(open(os.path.join(HERE, "caught.json")))
    for name in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        meta = json.load(open(os.path.join(ROOT, "seeded", name, "meta.json")))
        out.append("| %s | %s | %s | %s |" % (name, caught.get(name, "not confirmed"), meta["what_it_breaks"], meta["needs"]))
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
        f.write("\n".join(out) + "\n")


main()
