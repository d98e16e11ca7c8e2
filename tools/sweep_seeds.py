#!/usr/bin/env python3
"""Development aid: run the check of its property on every planted bug, in scratch clones of /repo.

Usage: python3 tools/sweep_seeds.py OUT.json [id...]; no check uses this.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main(out, only):
    seeds = os.path.join(ROOT, "seeded")
    results = json.load(open(out)) if os.path.exists(out) else {}
    for name in sorted(os.listdir(seeds)):
        if (only and name not in only) or (not only and name in results):
            continue
        meta = json.load(open(os.path.join(seeds, name, "meta.json")))
        tmp = tempfile.mkdtemp(prefix="sweep-")
        try:
            wd = os.path.join(tmp, "repo")
            subprocess.run(["git", "clone", "-q", "/repo", wd], check=True)
            applied = subprocess.run(["git", "apply", os.path.join(seeds, name, "patch.diff")], cwd=wd).returncode == 0
            if not applied:
                results[name] = {"property": meta["property"], "result": "does not apply"}
            else:
                r = subprocess.run(["python3-vt", "-B", os.path.join(ROOT, "run.py"), meta["property"], "--tier", "quick"], cwd=ROOT, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=wd))
                law = [line.split(":")[0].split("law ")[1] for line in r.stdout.splitlines() if line.strip().startswith("law ")]
                caught = r.returncode == 1 and f"VIOLATION property={meta['property']}" in r.stdout
                results[name] = {"property": meta["property"], "result": "caught" if caught else f"MISSED ({r.returncode})", "law": law[:1], "needs": meta["needs"]}
        finally:
            shutil.rmtree(tmp)
        print(name, results[name]["property"], results[name]["result"], flush=True)
        with open(out, "w") as f:
            json.dump(results, f, indent=1, sort_keys=True)


if __name__ == "__main__":
    main(sys.argv[1], set(sys.argv[2:]))
