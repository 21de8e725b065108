"""Writes properties.jsonl and MANIFEST.json from one table.  Not run by any check."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

TRUST_NET = ("Search over generated cases against the real kiel code: it can miss a violation, it cannot "
             "prove absence. Trusted: the simulated network, clock and brokers (kv/sim) and the "
             "independent wire codec (kv/wire.py).")
TRUST_CODEC = ("Search over generated inputs against the real kiel code: it can miss a violation, it "
               "cannot prove absence. Trusted: the independent codec in kv/wire.py, written from the "
               "Kafka protocol guide.")
TRUST_ZK = ("Search over generated cases and thread schedules against the real kiel code: it can miss a "
            "violation, it cannot prove absence. Trusted: the simulated ZooKeeper/kazoo (kv/sim/zk.py), "
            "brokers and clock. Threads switch at ZooKeeper operations only.")

P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, technique=technique, note=note, observe=list(observe)))


exec(open(os.path.join(HERE, "tools", "table.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fd:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            assert p["statement"].count(". ") <= 2, (p["id"], p["statement"])
            out = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                   "quantifier": {"over": p["over"], "text": p["text"]},
                   "why_tests_cant": p["why"],
                   "anchors": {"files": p["files"],
                               "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}}
            if p["observe"]:
                out["anchors"]["observe_at"] = p["observe"]
            fd.write(json.dumps(out, ensure_ascii=False) + "\n")
    checks = []
    for p in P:
        assert os.path.exists(os.path.join(HERE, "kv", "props", p["id"].lower() + ".py")), p["id"]
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 run.py %s" % p["id"],
            "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
            "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
    manifest = {
        "version": 1,
        "setup_cmd": "true",
        "checks": checks,
        "not_applicable": [],
        "notes": ("All checks are generated-input searches (Hypothesis strategies, 8 worker processes), "
                  "shrunk failures are written to replays/ and replayed with "
                  "`python3 run.py Cxx --replay FILE`. No hooks in /repo: kiel is driven through its "
                  "public API against simulated sockets, clock, brokers and ZooKeeper."),
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fd:
        json.dump(manifest, fd, indent=1)
        fd.write("\n")


main()
