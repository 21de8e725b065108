"""Runs the quick checks against the planted bugs: tools/try_seeds.py [--seeds 1,2,3] [ID ...]"""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RESULTS = os.path.join(HERE, "tools", "seed_results.json")


def main(argv):
    seeds = ["1", "2", "3"]
    if argv[:1] == ["--seeds"]:
        seeds, argv = argv[1].split(","), argv[2:]
    results = json.load(open(RESULTS)) if os.path.exists(RESULTS) else {}
    names = argv or sorted(os.path.basename(os.path.dirname(p))
                           for p in glob.glob(os.path.join(HERE, "seeded", "*", "meta.json")))
    for name in list(results):
        if not os.path.exists(os.path.join(HERE, "seeded", name)):
            del results[name]
    for name in names:
        d = os.path.join(HERE, "seeded", name)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        work = tempfile.mkdtemp(prefix="kv-seed-")
        try:
            subprocess.run("git -C /repo archive HEAD | tar x -C %s" % work, shell=True, check=True)
            subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=work, check=True)
            for s in seeds:
                r = subprocess.run([sys.executable, "run.py", prop], cwd=HERE, capture_output=True, text=True,
                                   env=dict(os.environ, KV_REPO=work, VERIF_SEED=s))
                results.setdefault(name, {})[s] = r.returncode == 1 and "VIOLATION property=" + prop in r.stdout
                print(name, prop, s, results[name][s], (r.stdout.splitlines() + ["", ""])[1][:150], flush=True)
        finally:
            shutil.rmtree(work)
        json.dump(results, open(RESULTS, "w"), indent=1, sort_keys=True)


main(sys.argv[1:])
