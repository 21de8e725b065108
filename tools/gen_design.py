"""Fills the generated parts of DESIGN.md.  Run by hand; no check runs it."""
import glob
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def properties():
    out = []
    for line in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(line)
        mod = importlib.import_module("kv.props.%s" % p["id"].lower())
        out += ["### %s %s" % (p["id"], p["title"]), "",
                "*Generated and compared:* " + mod.RULE, "",
                "*Over:* %s. *Cases:* quick 8 x %d, thorough 8 x %d." % (
                    p["quantifier"]["text"], mod.QUICK, mod.THOROUGH), "",
                "*Reach:* " + p["why_tests_cant"], ""]
    return "\n".join(out)


def seeds():
    path = os.path.join(HERE, "tools", "seed_results.json")
    results = json.load(open(path)) if os.path.exists(path) else {}
    out = ["| planted bug | property | needs | caught (quick, by seed) |", "|---|---|---|---|"]
    for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        name = os.path.basename(os.path.dirname(d))
        meta = json.load(open(d))
        r = results.get(name, {})
        out.append("| %s | %s | %s | %s |" % (
            name, meta["property"], meta["needs"].replace("|", "/"),
            ", ".join("%s: %s" % (s, "yes" if v else "NO") for s, v in sorted(r.items())) or "?"))
    return "\n".join(out)


def fill(text, name, content):
    pattern = re.compile("<!-- %s -->.*?<!-- /%s -->" % (name, name), re.S)
    assert pattern.search(text), name
    return pattern.sub(lambda m: "<!-- %s -->\n%s\n<!-- /%s -->" % (name, content, name), text)


if __name__ == "__main__":
    path = os.path.join(HERE, "DESIGN.md")
    text = open(path).read()
    text = fill(text, "properties", properties())
    text = fill(text, "seeds", seeds())
    open(path, "w").write(text)
