"""Monitor runtime of the Python harnesses. Same protocol as harness/cpp/vh.hpp."""
import argparse
import faulthandler
import json
import os
import random
import shutil
import sys
import traceback
from pathlib import Path

MASK = (1 << 64) - 1


class Violation(Exception):
    def __init__(self, key, message):
        super().__init__(message)
        self.key, self.message = key, message


class HarnessError(Exception):
    pass


def fnv(data, h=1469598103934665603):
    for byte in data:
        h = ((h ^ byte) * 1099511628211) & MASK
    return h


class Case:
    def __init__(self, seed, index, report, log_fd, work, thorough):
        self.rng = random.Random(f"{seed}/{index}")
        self.index, self.report, self.log_fd, self.work, self.thorough = index, report, log_fd, Path(work), thorough
        self.last, self.trace, self.hash = "start", [], 1469598103934665603
        self.is_nontrivial = False

    def path(self, name):
        return str(self.work / name)

    def op(self, kind, detail=""):
        self.last = kind
        line = f"{kind} {detail}"[:400].rstrip().replace("\n", " ")
        self.count("op." + kind)
        data = line.encode("utf-8", "backslashreplace")
        self.hash = fnv(data, self.hash)
        if len(self.trace) < 4000:
            self.trace.append(data.decode("utf-8"))
        os.write(self.log_fd, data + b"\n")

    def count(self, name, n=1):
        counters = self.report["counters"]
        counters[name] = counters.get(name, 0) + n

    def nontrivial(self):
        self.is_nontrivial = True

    def fail(self, key, message):
        raise Violation(key, message)

    def check(self, ok, key, message):
        self.count("oracle.checks")
        if not ok:
            self.fail(key, message() if callable(message) else message)

    def equal(self, a, b, key, what):
        self.check(a == b, key, lambda: f"{what}: observed {a!r}, expected {b!r}")

    def throws(self, key, what, f):
        """f must raise an exception, which is returned"""
        self.count("oracle.checks")
        try:
            result = f()
        except Violation:
            raise
        except Exception as exception:
            return exception
        self.fail(key, f"{what}: no exception was raised, result {result!r:.200}")

    def chance(self, percent):
        return self.rng.randrange(100) < percent


def write_report(path, report, next_, done):
    data = dict(report, done=done, next=next_, distinct=list(report["distinct"]))
    tmp = path + ".tmp"
    with open(tmp, "w") as stream:
        json.dump(data, stream)
    os.replace(tmp, path)


def run(body):
    parser = argparse.ArgumentParser()
    for name in ("seed", "first", "cases"):
        parser.add_argument("--" + name, type=int, default=1)
    for name in ("out", "log", "work"):
        parser.add_argument("--" + name, required=True)
    parser.add_argument("--thorough", action="store_true")
    a = parser.parse_args()
    faulthandler.disable()
    work = os.path.abspath(a.work)
    os.makedirs(work, exist_ok=True)
    log_fd = os.open(a.log, os.O_CREAT | os.O_TRUNC | os.O_WRONLY | os.O_APPEND, 0o644)
    report = dict(evaluations=0, nontrivial=0, distinct=set(), counters={}, samples=[], violations=[])
    directory = os.path.join(work, "case")
    for i in range(a.first, a.first + a.cases):
        os.ftruncate(log_fd, 0)
        os.write(log_fd, f"case {i}\n".encode())
        shutil.rmtree(directory, ignore_errors=True)
        os.makedirs(directory)
        os.chdir(directory)
        case = Case(a.seed, i, report, log_fd, directory, a.thorough)
        try:
            body(case)
        except Violation as violation:
            report["violations"].append(dict(index=i, key=violation.key, message=violation.message, trace=case.trace))
        except HarnessError as exception:
            print("VH-HARNESS-ERROR", exception, flush=True)
            os._exit(3)
        except Exception as exception:
            text = "".join(traceback.format_exception(exception))[-1500:]
            report["violations"].append(dict(index=i, key="unexpected-exception:" + case.last, message=text, trace=case.trace))
        os.chdir(work)
        report["evaluations"] += 1
        if case.is_nontrivial:
            report["nontrivial"] += 1
            report["distinct"].add(case.hash >> 1)
            if len(report["samples"]) < 2 and len(case.trace) > 1:
                report["samples"].append(f"case {i}: " + "; ".join(case.trace)[:900])
        if len(report["violations"]) >= 25:
            break
        if (i - a.first) % 25 == 24:
            write_report(a.out, report, i + 1, False)
    shutil.rmtree(directory, ignore_errors=True)
    write_report(a.out, report, a.first + a.cases, True)
    sys.stdout.flush()
    # No teardown of the interpreter: what it does then is not of interest
    os._exit(0)
