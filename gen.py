#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py and the check modules"""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.path.insert(0, HERE)
import props


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in props.PROPS:
            assert len(p["title"]) <= 80, p["id"]
            o = {"id": p["id"], "title": p["title"], "statement": " ".join(p["statement"].split()),
                 "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                             "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}}
            f.write(json.dumps(o) + "\n")
    na = {i for i, _ in props.NA}
    checks = []
    for p in props.PROPS:
        if p["id"] in na:
            continue
        m = importlib.import_module("checks." + p["id"].lower())
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                       "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                       "technique": m.TECHNIQUE, "level": "other", "level_note": p["note"]})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 sa/facts.py", "checks": checks,
                   "not_applicable": [{"property": i, "reason": r} for i, r in props.NA]}, f, indent=1)
        f.write("\n")
    design(na)
    print(len(props.PROPS), "properties", len(checks), "checks", len(na), "not applicable")


def design(na):
    """the parts of DESIGN.md that follow from the checks, the seeds and the findings"""
    p = os.path.join(HERE, "DESIGN.md")
    s = open(p).read()

    def fill(name, text):
        nonlocal s
        a = "<!-- %s: written by gen.py -->\n" % name
        i = s.index(a) + len(a)
        j = s.index("<!-- end -->", i)
        s = s[:i] + text + s[j:]
    seeds = []
    d = os.path.join(HERE, "seeded")
    for x in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        m = json.load(open(os.path.join(d, x, "meta.json")))
        seeds.append((x, m["property"], m["needs"], m["what_it_breaks"]))
    t = "## The properties\n\n"
    for q in props.PROPS:
        if q["id"] in na:
            continue
        m = importlib.import_module("checks." + q["id"].lower())
        t += "### %s: %s\n\n" % (q["id"], q["title"])
        t += "%s\n\n" % " ".join(q["statement"].split())
        t += "* Decided by: %s  %s\n" % (m.TECHNIQUE, " ".join(m.EXPLANATION.split()))
        t += "* Covers: %s.\n" % q["text"]
        t += "* Beyond the tests: %s\n" % q["why"]
        t += "* Assumes: %s.\n" % "; ".join(m.ASSUMPTIONS)
        c = [x[0] for x in seeds if x[1] == q["id"]]
        if c:
            t += "* Planted changes it catches: %s.\n" % ", ".join(c)
        t += "\n"
    for i, r in props.NA:
        t += "### %s: not applicable\n\n%s\n\n" % (i, r)
    fill("properties", t)
    fill("seeds", "| change | caught by | needs | breaks |\n|---|---|---|---|\n" + "".join("| %s | %s | %s | %s |\n" % x for x in seeds))
    k = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
    fill("fixed", "".join("* %s\n" % e["what"].replace("fixed: property=", "") for e in k if e["status"] == "fixed"))
    open(p, "w").write(s)


main()
