import argparse
import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import codec

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
SHARDS = 8
# Seconds after which no more cases are generated. Reaching it only reduces coverage.
DEADLINE = {"quick": 150, "thorough": 700}


# Seconds of processor time after which one case (usually a millisecond) counts as not terminating.
CASE_SECONDS = 60


def on_alarm(signum, frame):
    from .base import Violation

    raise Violation(f"no result after {CASE_SECONDS} s of computing")


def derive(*parts):
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


def import_target():
    sys.path.insert(0, SRC)
    import colosseum  # noqa
    where = os.path.realpath(colosseum.__file__)
    if not where.startswith(os.path.realpath(SRC) + os.sep):
        raise RuntimeError(f"colosseum imported from {where}, not from {SRC}")


def load_check(pid):
    return importlib.import_module("checks." + pid.lower())


# --------------------------------------------------------------------------
# Worker: one shard of one check, in its own process
# --------------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.evaluations = 0
        self.discarded = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.per_law = {}


def evaluate(law, case, stats):
    """Evaluate one case. An exception of the code under test is a violation."""
    from .base import Discard, Violation

    labels = []
    signal.setitimer(signal.ITIMER_PROF, CASE_SECONDS)
    try:
        nontrivial = law.fn(case, labels.append)
    except Discard:
        stats.discarded += 1
        return
    except Violation:
        stats.evaluations += 1
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        src = os.path.realpath(SRC) + os.sep
        here = os.path.realpath(tb[-1].filename).startswith(src)
        if (isinstance(e, (AssertionError, ImportError, MemoryError, OSError)) and not here) or type(e).__module__.startswith("hypothesis"):
            raise
        # Raised by the code under test, or by looking at a value it returned.
        stats.evaluations += 1
        last = [f for f in tb if os.path.realpath(f.filename).startswith(src)][-1:] or tb[-1:]
        where = f" at {os.path.basename(last[0].filename)}:{last[0].name}"
        raise Violation(f"unexpected {type(e).__name__}: {e}{where}") from e
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    stats.evaluations += 1
    stats.per_law[law.name] = stats.per_law.get(law.name, 0) + 1
    for label in set(labels):
        stats.labels[label] = stats.labels.get(label, 0) + 1
    if nontrivial:
        text = codec.dumps(case)
        digest = hashlib.sha1((law.name + text).encode()).hexdigest()[:16]
        if digest not in stats.nontrivial:
            stats.nontrivial.add(digest)
            n = sum(1 for s in stats.samples if s["law"] == law.name)
            if n < 2 and len(text) < 1500:
                stats.samples.append({"law": law.name, "case": codec.enc(case)})


def run_law(law, n, seed, deadline, stats):
    """Returns None, or {"case", "message"} of the shrunk failure."""
    import hypothesis
    import hypothesis.internal.conjecture.engine as engine
    from hypothesis import HealthCheck, Phase, given, settings

    if hasattr(engine, "MAX_SHRINKING_SECONDS"):
        engine.MAX_SHRINKING_SECONDS = 45

    from .base import Violation

    failure = {}

    def body(case):
        if time.monotonic() > deadline and not failure:
            return
        try:
            evaluate(law, case, stats)
        except Violation as v:
            failure["case"] = case
            failure["message"] = str(v)
            raise

    test = hypothesis.seed(seed)(
        settings(
            max_examples=max(1, n),
            database=None,
            deadline=None,
            derandomize=False,
            report_multiple_bugs=False,
            print_blob=False,
            phases=[Phase.generate, Phase.target, Phase.shrink],
            suppress_health_check=list(HealthCheck),
        )(given(law.strategy())(body))
    )
    try:
        test()
    except Violation:
        return failure
    except BaseException as e:
        # Hypothesis may report a failure that does not reproduce as Flaky.
        if failure and type(e).__name__ in ("Flaky", "FlakyFailure", "FlakyReplay", "BaseExceptionGroup", "ExceptionGroup"):
            failure["message"] += f" (not reproducible in the same process: {type(e).__name__})"
            return failure
        raise
    return None


def run_gen_law(law, n, seed, deadline, stats):
    """Like run_law, for generators based on a Source."""
    import random

    from . import source
    from .base import Violation

    rng = random.Random(seed)
    for i in range(n):
        if i % 16 == 0 and time.monotonic() > deadline:
            break
        src = source.Source(rng=rng)
        case = law.gen(src)
        try:
            evaluate(law, case, stats)
        except Violation as v:
            messages = {}

            def fails(candidate):
                try:
                    evaluate(law, candidate, Stats())
                except Violation as w:
                    messages["last"] = str(w)
                    return True
                return False

            small, _ = source.shrink(law.gen, src.choices, fails)
            if not fails(small):
                # Only fails in the context of what ran before (e.g. leaked state): report the original.
                return {"case": case, "message": str(v) + " (state dependent: does not fail on its own)", "context": {"seed": seed, "index": i}}
            return {"case": small, "message": messages["last"]}
    return None


def worker(args):
    import warnings

    warnings.simplefilter("ignore")
    import_target()
    from .base import Violation

    check = load_check(args.property)
    signal.signal(signal.SIGPROF, on_alarm)
    stats = Stats()
    start = time.monotonic()
    deadline = start + float(os.environ.get("VERIF_DEADLINE", DEADLINE[args.tier]))
    result = {"failure": None, "shard": args.shard}
    laws = list(check.LAWS)
    # Different shards start with different laws, so that a deadline doesn't starve the same one.
    k = args.shard % len(laws)
    for law in laws[k:] + laws[:k]:
        if law.exhaustive is not None:
            for i, case in enumerate(law.exhaustive()):
                if i % args.shards != args.shard:
                    continue
                try:
                    evaluate(law, case, stats)
                except Violation as v:
                    result["failure"] = {"law": law.name, "case": codec.enc(case), "message": str(v)}
                    break
        if result["failure"]:
            break
        if law.strategy is not None or law.gen is not None:
            n = law.quick if args.tier == "quick" else law.thorough
            n = int(n * args.scale)
            run_it = run_law if law.gen is None else run_gen_law
            failure = run_it(law, -(-n // args.shards), derive(args.seed, args.property, law.name, args.shard), deadline, stats)
            if failure:
                result["failure"] = {"law": law.name, "case": codec.enc(failure["case"]), "message": failure["message"], "context": failure.get("context")}
                break
    result.update(
        evaluations=stats.evaluations, discarded=stats.discarded, nontrivial=sorted(stats.nontrivial), labels=stats.labels,
        samples=stats.samples, per_law=stats.per_law, hashseed=os.environ.get("PYTHONHASHSEED"),
        cut=time.monotonic() > deadline,
    )
    with open(args.out, "w") as f:
        json.dump(result, f)
    return 0


def findings_worker(args):
    """Evaluate the recorded findings of a property."""
    import warnings

    warnings.simplefilter("ignore")
    import_target()
    from .base import Violation

    check = load_check(args.property)
    out = []
    for finding in getattr(check, "FINDINGS", []):
        try:
            state = finding.fn()
            out.append({"key": finding.key, "what": finding.what, "state": state})
        except Violation as v:
            out.append({"key": finding.key, "what": finding.what, "state": "violation", "message": str(v)})
        except Exception as e:
            out.append({"key": finding.key, "what": finding.what, "state": "violation", "message": f"unexpected {type(e).__name__}: {e}"})
    with open(args.out, "w") as f:
        json.dump(out, f)
    return 0


def replay(args):
    import warnings

    with open(args.replay) as f:
        data = json.load(f)
    if os.environ.get("PYTHONHASHSEED") != str(data.get("hashseed", "0")):
        env = dict(os.environ, PYTHONHASHSEED=str(data.get("hashseed", "0")))
        return subprocess.call([sys.executable, "-B", os.path.join(VERIF, "run.py"), args.property, "--replay", args.replay], env=env)
    warnings.simplefilter("ignore")
    import_target()
    from .base import Violation

    check = load_check(args.property)
    law = next((x for x in check.LAWS if x.name == data["law"]), None)
    if law is None:
        for finding in getattr(check, "FINDINGS", []):
            if "finding:" + finding.key == data["law"]:
                try:
                    print("finding", finding.key, finding.fn())
                    return 0
                except Violation as v:
                    print(f"VIOLATION property={args.property} replay={args.replay}")
                    print(f"  {v}")
                    return 1
        print("unknown law", data["law"])
        return 2
    print("case:", json.dumps(data["case"]))
    signal.signal(signal.SIGPROF, on_alarm)
    try:
        if data.get("context"):
            # the case only fails after others of the same law
            import random

            from . import source

            rng = random.Random(data["context"]["seed"])
            for _ in range(data["context"]["index"] + 1):
                evaluate(law, law.gen(source.Source(rng=rng)), Stats())
        else:
            evaluate(law, codec.dec(data["case"]), Stats())
    except Violation as v:
        print(f"VIOLATION property={args.property} replay={args.replay}")
        print(f"  {v}")
        return 1
    print("held")
    return 0


# --------------------------------------------------------------------------
# Parent
# --------------------------------------------------------------------------
def known_findings(pid):
    """The committed list of known findings of a property: {key: text}"""
    found = {}
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
        for line in f:
            line = line.strip()
            if line.startswith("known: "):
                parts = line.split(" ", 3)
                if parts[1] == f"property={pid}":
                    found[parts[2].split("=", 1)[1]] = parts[3]
    return found


def child_env(hashseed, scratch):
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "PYTHONSTARTUP")}
    env.update(
        PYTHONHASHSEED=str(hashseed),
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"),  # empty: never load a stale .pyc
        HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(scratch, "hyp"),
        PYTHONPATH="",
    )
    return env


def run(args):
    pid = args.property
    t0 = time.monotonic()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    replay_dir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(replay_dir, exist_ok=True)
    check_error = False
    results = []
    with tempfile.TemporaryDirectory(prefix="verif-") as scratch:
        procs = []
        base = [sys.executable, "-B", os.path.join(VERIF, "run.py"), pid, "--tier", args.tier, "--seed", str(args.seed), "--scale", str(args.scale)]
        fout = os.path.join(scratch, "findings.json")
        procs.append(("findings", fout, subprocess.Popen(base + ["--findings", "--out", fout], env=child_env(0, scratch), cwd=scratch,
                                                         stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
        for shard in range(args.shards):
            out = os.path.join(scratch, f"{shard}.json")
            cmd = base + ["--worker", "--shard", str(shard), "--shards", str(args.shards), "--out", out]
            procs.append((shard, out, subprocess.Popen(cmd, env=child_env(shard, scratch), cwd=scratch, stdout=subprocess.DEVNULL,
                                                       stderr=subprocess.PIPE, text=True)))
        findings = []
        for shard, out, p in procs:
            try:
                _, err = p.communicate(timeout=DEADLINE[args.tier] + 100)
            except subprocess.TimeoutExpired:
                p.kill()
                _, err = p.communicate()
                err += "\n(timed out)"
            if p.returncode != 0 or not os.path.exists(out):
                check_error = True
                sys.stderr.write(f"ERROR: shard {shard} of {pid} failed ({p.returncode})\n{err[-4000:]}\n")
                continue
            with open(out) as f:
                if shard == "findings":
                    findings = json.load(f)
                else:
                    results.append(json.load(f))

    listed = known_findings(pid)
    violations = []
    for fnd in findings:
        if fnd["state"] == "known" and fnd["key"] in listed:
            print(f"KNOWN-FINDING: property={pid} {fnd['key']}: {listed[fnd['key']]}")
        elif fnd["state"] in ("known", "violation"):
            violations.append({"law": "finding:" + fnd["key"], "case": fnd["what"], "message": fnd.get("message", fnd["what"]), "hashseed": "0"})
    for r in sorted(results, key=lambda r: r["shard"]):
        if r["failure"]:
            violations.append(dict(r["failure"], hashseed=r["hashseed"]))

    labels, per_law, nontrivial, samples = {}, {}, set(), []
    for r in results:
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r["per_law"].items():
            per_law[k] = per_law.get(k, 0) + v
        nontrivial.update(r["nontrivial"])
    for r in results:
        for s in r["samples"]:
            if sum(1 for x in samples if x["law"] == s["law"]) < 2:
                samples.append(s)
    # the smallest failing case is the one to report
    violations.sort(key=lambda v: len(json.dumps(v["case"])))
    seen = set()
    reported = []
    for v in violations:
        if v["law"] in seen:
            continue
        seen.add(v["law"])
        name = f"{pid}-{v['law'].replace(':', '_').replace('/', '_')}-{hashlib.sha1(json.dumps(v['case'], sort_keys=True).encode()).hexdigest()[:10]}.json"
        path = os.path.join(replay_dir, name)
        with open(path, "w") as f:
            json.dump({"property": pid, "law": v["law"], "case": v["case"], "message": v["message"], "hashseed": v["hashseed"], "context": v.get("context"),
                       "replay": f"python3-vt -B run.py {pid} --replay {path}"}, f, indent=1)
        reported.append((v, path))

    evidence = {
        "property": pid,
        "tier": args.tier,
        "seed": args.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": len(nontrivial),
            "rule": load_text(pid, "RULE"),
            "samples": samples,
            "per_law": per_law,
            "labels": dict(sorted(labels.items())),
            "discarded": sum(r["discarded"] for r in results),
            "shards_cut_by_time": sum(1 for r in results if r["cut"]),
            "known_findings_present": sorted(f["key"] for f in findings if f["state"] == "known"),
        },
        "assumptions": load_text(pid, "ASSUMPTIONS") or [],
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(reported),
    }
    tmp = os.path.join(VERIF, "evidence", f".{pid}.tmp")
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{pid}.json"))

    for v, path in reported:
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  law {v['law']}: {v['message']}")
        print(f"  case {json.dumps(v['case'])[:2000]}")
    print(f"{pid}: {evidence['coverage']['evaluations']} cases, {len(nontrivial)} distinct non-trivial, {len(reported)} violations, {evidence['wall_s']} s")
    if reported:
        return 1
    if check_error or evidence["coverage"]["evaluations"] == 0:
        return 2
    return 0


def load_text(pid, name):
    """Read a constant of a check module without importing it (or the code under test)."""
    import ast

    with open(os.path.join(VERIF, "checks", pid.lower() + ".py")) as f:
        tree = ast.parse(f.read())
    for node in tree.body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", None) == name:
            return ast.literal_eval(node.value)
    return None


def setup():
    import hypothesis

    print("hypothesis", hypothesis.__version__, "python", sys.version.split()[0])
    return 0


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--shards", type=int, default=SHARDS)
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--worker", action="store_true")
    ap.add_argument("--findings", action="store_true")
    ap.add_argument("--out")
    ap.add_argument("--replay")
    args = ap.parse_args(argv)
    if args.setup:
        return setup()
    if args.worker:
        return worker(args)
    if args.findings:
        return findings_worker(args)
    if args.replay:
        args.replay = os.path.abspath(args.replay)
        return replay(args)
    return run(args)
