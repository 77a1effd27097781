#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   |   check.py --replay FILE

Builds the tree under test, runs the monitors of one property and gives a verdict:

- exit 0: held on everything observed
- exit 1: violated, with a line `VIOLATION property=<id> replay=<path>`
- exit 2: no verdict (cannot build, monitor broken, nothing observed, time-out that does not reproduce)
"""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

sys.dont_write_bytecode = True
sys.path.insert(0, str(Path(__file__).resolve().parent))
import build as builder
from registry import CHECKS

VERIF = builder.VERIF
WORK = VERIF / ".work"
MAX_RESTARTS = 12


def known_findings():
    findings = {}
    path = VERIF / "known-findings.txt"
    if path.exists():
        for line in path.read_text().splitlines():
            match = re.match(r"known: property=(\S+) key=(\S+) (.*)$", line)
            if match:
                findings[(match[1], match[2])] = match[3]
    return findings


def run_environment(check, build_path, work):
    env = builder.environment()
    env["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=99:detect_leaks=0:detect_odr_violation=0:allocator_may_return_null=1:detect_stack_use_after_return=0:new_delete_type_mismatch=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=97:detect_deadlocks=0:history_size=4"
    env["HDF5_USE_FILE_LOCKING"] = env.get("HDF5_USE_FILE_LOCKING", "TRUE")
    env["TMPDIR"] = str(work)
    env["HOME"] = str(work)
    env["VH_BUILD_DIR"] = str(build_path)
    env["VH_REPO"] = str(builder.REPO)
    env["OMP_NUM_THREADS"] = env["OPENBLAS_NUM_THREADS"] = "1"
    env.update(check.get("env", {}))
    if check["kind"] == "py":
        env["PYTHONPATH"] = f"{build_path}/lib/python3.12:{VERIF}/harness/py"
        env["PYTHONMALLOC"] = "malloc"
        env["PYTHONHASHSEED"] = "0"
        if check.get("preload", True):
            libs = []
            for lib in ("libasan.so", "libubsan.so"):
                libs.append(subprocess.run(["/usr/bin/gcc", f"-print-file-name={lib}"], capture_output=True, text=True).stdout.strip())
            env["LD_PRELOAD"] = ":".join(libs)
    return env


def classify(returncode, stderr):
    match = re.search(r"^vhpx: ([\w-]+):", stderr, re.MULTILINE)
    if match:
        return "hpx-" + match[1]
    if "WARNING: ThreadSanitizer: data race" in stderr:
        return "data-race"
    match = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", stderr)
    if match:
        return "asan-" + match[1]
    if "runtime error:" in stderr:
        return "ubsan"
    if re.search(r"Assertion .* failed", stderr):
        return "assert"
    if "terminate called" in stderr:
        return "terminate"
    if returncode < 0:
        return f"signal{-returncode}"
    return f"exit{returncode}"


class Shard:
    def __init__(self, property_id, check, build_path, seed, shard, first, cases, thorough, work):
        self.property_id, self.check, self.build_path = property_id, check, build_path
        self.seed, self.shard, self.first, self.cases, self.thorough = seed, shard, first, cases, thorough
        self.work = work / f"shard{shard}"
        self.result = dict(evaluations=0, nontrivial=0, distinct=set(), counters={}, samples=[], violations=[])
        self.error = None

    def command(self, first, cases):
        if self.check["kind"] == "cpp":
            program = [str(self.build_path / "vh" / f"vh_{self.check['harness']}")]
        else:
            program = ["/opt/lue-venv/bin/python3", str(VERIF / "harness/py" / f"{self.check['harness']}.py")]
        program += ["--seed", str(self.seed), "--first", str(first), "--cases", str(cases),
                    "--out", str(self.work / "out.json"), "--log", str(self.work / "log"),
                    "--work", str(self.work / "scratch")]
        program += self.check.get("args", [])
        if self.thorough:
            program.append("--thorough")
        return program

    def merge(self, path):
        if not path.exists():
            return None
        data = json.loads(path.read_text())
        r = self.result
        r["evaluations"] += data["evaluations"]
        r["nontrivial"] += data["nontrivial"]
        r["distinct"].update(data["distinct"])
        for k, v in data["counters"].items():
            r["counters"][k] = r["counters"].get(k, 0) + v
        r["samples"] += data["samples"]
        r["violations"] += data["violations"]
        return data

    def run(self):
        try:
            self._run()
        except Exception as exception:  # An error of the machinery, not a verdict
            self.error = f"{type(exception).__name__}: {exception}"

    def _run(self):
        self.work.mkdir(parents=True)
        first, end = self.first, self.first + self.cases
        restarts = 0
        hung = set()
        env = run_environment(self.check, self.build_path, self.work)
        while first < end:
            for name in ("out.json", "log", "stderr"):
                (self.work / name).unlink(missing_ok=True)
            timeout = self.check.get("timeout", 420 if not self.thorough else 3000)
            timed_out = False
            with open(self.work / "stderr", "wb") as stderr:
                process = subprocess.Popen(self.command(first, end - first), env=env, stdout=stderr,
                                           stderr=subprocess.STDOUT, cwd=self.work, start_new_session=True)
                try:
                    process.wait(timeout)
                except subprocess.TimeoutExpired:
                    timed_out = True
                finally:
                    try:
                        os.killpg(process.pid, 9)
                    except ProcessLookupError:
                        pass
                    process.wait()
            shutil.rmtree(self.work / "scratch", ignore_errors=True)
            text = (self.work / "stderr").read_bytes()[-200000:].decode(errors="replace")
            data = self.merge(self.work / "out.json")
            if not timed_out and process.returncode == 0 and data and data["done"]:
                return
            log = (self.work / "log").read_text(errors="replace").splitlines() if (self.work / "log").exists() else []
            if process.returncode in (126, 127) or not log:
                self.error = f"monitor did not start (exit {process.returncode}): {text[-1500:]}"
                return
            index = int(log[0].split()[1])
            last = log[-1].split()[0] if len(log) > 1 else "start"
            if data and data["done"]:
                last, index = "exit", end - 1
            if timed_out:
                if index not in hung:
                    # Once more, from this case: only a hang that reproduces says something
                    hung.add(index)
                    first = index
                    continue
                kind = f"hang:{last}"
            else:
                kind = f"crash:{last}:{classify(process.returncode, text)}"
                if "VH-HARNESS-ERROR" in text:
                    self.error = text[-3000:]
                    return
            self.result["violations"].append(dict(index=index, key=kind, message=report_excerpt(text), trace=log[1:]))
            self.result["evaluations"] += 1
            first = index + 1
            restarts += 1
            if restarts >= MAX_RESTARTS:
                return


def report_excerpt(text):
    lines = text.splitlines()
    for i, line in enumerate(lines):
        if "ERROR: AddressSanitizer" in line or "runtime error:" in line or "Assertion" in line or "terminate called" in line \
                or line.startswith(("vhpx: ", "WARNING: ThreadSanitizer")):
            return "\n".join(lines[i:i + 25])
    return "\n".join(lines[-25:])


def run_check(property_id, tier, seed, only=None):
    check = CHECKS[property_id]
    thorough = tier == "thorough"
    start = time.time()
    if "hpx" in check:
        build_path, build_seconds = builder.build_hpx(check["targets"], check["hpx"] == "tsan")
    else:
        build_path, build_seconds = builder.build(check["targets"])
    work = WORK / f"run-{property_id}-{os.getpid()}"
    shutil.rmtree(work, ignore_errors=True)
    work.mkdir(parents=True)
    total = check["cases"][1 if thorough else 0]
    nr_shards = min(check.get("shards", 8), max(1, total))
    if only is not None:
        shards = [Shard(property_id, check, build_path, seed, 0, only, 1, thorough, work)]
    else:
        per = -(-total // nr_shards)
        shards = [Shard(property_id, check, build_path, seed, i, i * per, min(per, total - i * per), thorough, work)
                  for i in range(nr_shards) if i * per < total]
    with ThreadPoolExecutor(len(shards)) as pool:
        list(pool.map(lambda shard: shard.run(), shards))
    result = dict(evaluations=0, nontrivial=0, distinct=set(), counters={}, samples=[], violations=[])
    errors = []
    for shard in shards:
        r = shard.result
        result["evaluations"] += r["evaluations"]
        result["nontrivial"] += r["nontrivial"]
        result["distinct"] |= r["distinct"]
        for k, v in r["counters"].items():
            result["counters"][k] = result["counters"].get(k, 0) + v
        result["samples"] += r["samples"]
        result["violations"] += r["violations"]
        if shard.error:
            errors.append(shard.error)
    shutil.rmtree(work, ignore_errors=True)
    return result, errors, build_seconds, time.time() - start


def main(argv):
    if argv and argv[0] == "--replay":
        replay = json.loads(Path(argv[1]).read_text())
        result, errors, _, _ = run_check(replay["property"], replay["tier"], replay["seed"], replay["index"])
        print(json.dumps(dict(violations=result["violations"], errors=errors), indent=1))
        return 1 if result["violations"] else 0
    property_id = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    check = CHECKS[property_id]
    (VERIF / "evidence").mkdir(exist_ok=True)
    evidence_path = VERIF / "evidence" / f"{property_id}.json"
    evidence_path.unlink(missing_ok=True)
    try:
        result, errors, build_seconds, wall = run_check(property_id, tier, seed)
    except builder.BuildError as exception:
        print(f"ERROR property={property_id} {exception}")
        return 2
    known = known_findings()
    by_key = {}
    for violation in result["violations"]:
        by_key.setdefault(violation["key"], []).append(violation)
    new = {key: items for key, items in by_key.items() if (property_id, key) not in known}
    replay_dir = WORK / "replay"
    replay_dir.mkdir(parents=True, exist_ok=True)
    evidence = dict(
        property=property_id, tier=tier, seed=seed, level=check.get("level", "exploration"),
        coverage=dict(
            evaluations=result["evaluations"],
            distinct_nontrivial=len(result["distinct"]),
            rule=check["rule"],
            samples=result["samples"][:4] or ["none"],
            observed=dict(sorted(result["counters"].items())),
            sanitizers="ThreadSanitizer on the code under test" if check.get("hpx") == "tsan"
            else "AddressSanitizer + UndefinedBehaviorSanitizer on the code under test" if check.get("sanitized", True) else "none",
            build_s=round(build_seconds, 1),
        ),
        assumptions=check.get("assumptions", []),
        wall_s=round(wall, 1),
        violations=len(new),
    )
    evidence_path.write_text(json.dumps(evidence, indent=1, ensure_ascii=False) + "\n")
    for (known_property, key), what in sorted(known.items()):
        if known_property == property_id:
            print(f"KNOWN-FINDING: property={property_id} {what} [{key}; seen {len(by_key.get(key, []))} times in this run]")
    if new:
        for number, (key, items) in enumerate(sorted(new.items())):
            name = hashlib.sha256(key.encode()).hexdigest()[:10]
            path = replay_dir / f"{property_id}-{name}.json"
            path.write_text(json.dumps({"property": property_id, "tier": tier, "seed": seed, **items[0]}, indent=1))
            print(f"VIOLATION property={property_id} replay={path}")
            print(f"  key={key} occurrences={len(items)} case={items[0]['index']}: {items[0]['message'][:1500]}")
        return 1
    if errors:
        print(f"ERROR property={property_id} {errors[0]}")
        return 2
    minimum = check.get("minimum", 1)
    if len(result["distinct"]) < minimum:
        print(f"ERROR property={property_id} inconclusive: only {len(result['distinct'])} distinct non-trivial cases observed, {minimum} required")
        return 2
    for counter in check.get("require", []):
        if result["counters"].get(counter, 0) == 0:
            print(f"ERROR property={property_id} inconclusive: nothing observed for {counter}")
            return 2
    print(f"HELD property={property_id} tier={tier} seed={seed} evaluations={result['evaluations']} distinct={len(result['distinct'])} "
          f"oracle_checks={result['counters'].get('oracle.checks', 0)} build_s={build_seconds:.1f} wall_s={wall:.1f}")
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
