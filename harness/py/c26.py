"""C26: planning scalability experiments: shapes, workers, settings, and the scripts performing the benchmarks."""
import contextlib
import io
import json
import os
import re
import subprocess
import sys
from fractions import Fraction
from math import prod
from unittest.mock import MagicMock

sys.dont_write_bytecode = True

# Not installed, and not of use here: plotting, parsing dates of results
for name in ("dateutil", "dateutil.parser", "docopt", "matplotlib", "matplotlib.pyplot", "matplotlib.scale", "matplotlib.ticker", "matplotlib.transforms"):
    sys.modules[name] = MagicMock()

import lue.command  # noqa: E402

lue.command.__path__.insert(0, os.environ["VH_REPO"] + "/source/quality_assurance/scalability/command")

import lue.data_model as ldm  # noqa: E402
from lue.command.scalability.experiment import dataset, pool, shape  # noqa: E402
from lue.command.scalability.experiment.benchmark import Benchmark  # noqa: E402
from lue.command.scalability.experiment.cluster import Cluster  # noqa: E402
import lue.command.scalability as scalability  # noqa: E402
import lue.command.scalability.experiment.partition_shape.experiment as partition_shape  # noqa: E402
import lue.command.scalability.experiment.strong_scalability.experiment as strong_scalability  # noqa: E402
import lue.command.scalability.experiment.weak_scalability.experiment as weak_scalability  # noqa: E402
import vh  # noqa: E402

KINDS = {module.__name__.split(".")[-2]: module for module in (partition_shape, strong_scalability, weak_scalability)}


def root(value, n):
    """Largest integer whose n-th power is not larger than value, by bisection"""
    low, high = 0, 1
    while Fraction(high) ** n <= value:
        high *= 2
    while high - low > 1:
        middle = (low + high) // 2
        if Fraction(middle) ** n <= value:
            low = middle
        else:
            high = middle
    return low


# Shapes ---------------------------------------------------------------------------------------------------------------


def expected_sizes(first, largest, multiplier, method):
    result, multiplier = [Fraction(first)], Fraction(multiplier)
    while True:
        size = result[0] * (1 + len(result) * (multiplier - 1)) if method == "linear" else result[-1] * multiplier
        if size > largest:
            return result
        result.append(size)


def expected_shapes(min_shape, largest, multiplier, method):
    rank, first = len(min_shape), prod(min_shape)
    sizes = expected_sizes(first, largest, multiplier, method)
    return [tuple(root(size * extent**rank / first, rank) for extent in min_shape) for size in sizes]


def random_shape_data(rng):
    rank = rng.choice((1, 1, 2, 2, 2, 3, 3, 4))
    most = {1: 10**6, 2: 10**4, 3: 200, 4: 40}[rank]
    result = [rng.randint(1, most)] * rank
    if rng.random() < 0.6:
        result = [rng.randint(1, most) for _ in range(rank)]
    if rng.random() < 0.3:
        result = [rng.choice((1, 10, 100, 64, 27, 5))] * rank
    data = {"shape": result}
    if rng.random() < 0.8:
        method = rng.choice(("linear", "exponential"))
        multiplier = rng.choice((2, 2, 3, 4, 8, 10, 1000, 1.5, 1.25, 2.5))
        nr = rng.randint(0, 12)
        size = prod(result) * (multiplier**nr if method == "exponential" else 1 + nr * (multiplier - 1))
        if size > 2**50:
            multiplier, size = 2, prod(result) * 2**5
        if not isinstance(multiplier, int) and size * max(result) ** rank > 2**50:
            # No rounding
            multiplier, size = 2, prod(result) * 2**5
        data["range"] = {"max_nr_elements": int(size) + rng.choice((0, 0, 1, -1, 7)), "multiplier": multiplier, "method": method}
        data["range"]["max_nr_elements"] = max(data["range"]["max_nr_elements"], prod(result))
    return data


def shapes(c):
    rng = c.rng
    for _ in range(rng.randint(3, 8)):
        data = random_shape_data(rng)
        c.op("shape", json.dumps(data))
        instance = shape.Shape(data)
        c.equal(instance.is_fixed(), "range" not in data, "is-fixed", data)
        if "range" in data:
            r = data["range"]
            expected = expected_shapes(data["shape"], r["max_nr_elements"], r["multiplier"], r["method"])
            c.count("shape-range.shapes", len(expected))
        else:
            expected = [tuple(data["shape"])]
            c.equal(instance.shape, expected[0], "shape", data)
        observed = list(instance.shapes)
        c.equal(observed, expected, "shapes", data)
        c.check(all(isinstance(extent, int) for s in observed for extent in s), "extent-type", str(data))
        again = shape.Shape(json.loads(json.dumps(instance.to_json())))
        c.equal(list(again.shapes), expected, "shapes-json", data)
        c.equal(json.loads(json.dumps(instance.to_json())), data, "shape-json", data)

    for _ in range(rng.randint(3, 8)):
        rank = rng.randint(1, 4)
        size_of_element, nr_arrays, nr_nodes = rng.choice((1, 2, 4, 8)), rng.randint(1, 40), rng.randint(1, 2000)
        memory = rng.choice((rng.randint(1, 10**4), rng.randint(1, 10**13), rng.randint(1, 500) * 2**30))
        if rng.random() < 0.5:
            # As much as is needed for, or just not for, a whole extent
            extent = rng.randint(1, {1: 10**9, 2: 10**6, 3: 10**4, 4: 1000}[rank])
            nr_nodes = 1
            memory = max(extent**rank * nr_arrays * size_of_element - rng.choice((0, 0, 1)), 1)
        c.op("array_shape", f"{memory} {rank} {nr_arrays} {size_of_element} {nr_nodes}")
        extent = root(Fraction(memory * nr_nodes, nr_arrays * size_of_element), rank)
        observed = shape.array_shape(memory, rank, nr_arrays, size_of_element, nr_nodes)
        c.equal(tuple(observed), rank * (extent,), "array-shape", f"{memory} {rank} {nr_arrays} {size_of_element} {nr_nodes}")
        c.count("array-shapes")

    rank = rng.randint(1, 4)
    smallest = [rng.randint(1, 20) for _ in range(rank)]
    factors = [rng.randint(1, 20) for _ in range(rank)]
    others = [rng.randint(1, 20) for _ in range(rank)]
    largest = [s * f for s, f in zip(smallest, factors)]
    whole = [s * o for s, o in zip(largest, others)]
    c.op("multipliers", f"{whole} {smallest} {largest}")
    c.equal(list(shape.partition_shape_multipliers(tuple(whole), tuple(smallest))), [f * o for f, o in zip(factors, others)], "multipliers", whole)
    ranges = shape.ranges_of_partition_shape_multipliers(tuple(whole), tuple(smallest), tuple(largest))
    c.equal([list(r) for r in ranges], [list(range(f * o, o, -1)) for f, o in zip(factors, others)], "multiplier-ranges", (whole, smallest, largest))
    extents, step, nr = [rng.randint(1, 500) for _ in range(rank)], rng.randint(1, 50), rng.randint(0, 20)
    last = [e + nr * step + rng.randrange(step) for e in extents]
    c.op("partition_shapes", f"{extents} {last} {step}")
    c.equal(list(shape.partition_shapes(tuple(extents), tuple(last), step)), [tuple(e + i * step for e in extents) for i in range(nr + 1)], "partition-shapes", (extents, last, step))


# Workers --------------------------------------------------------------------------------------------------------------


def random_pool(rng, least=1, most=10**6, several=False):
    """Configuration of a pool, and all numbers of workers"""
    kind = rng.choice(("multiplier", "incrementor")) if several else rng.choice(("multiplier", "incrementor", "size"))
    if kind == "size":
        size = rng.randint(least, most)
        return {"size": size}, [size]
    # With several numbers of workers, the first step must be within bounds
    start = rng.choice((1, 1, rng.randint(1, max(1, most // 3)))) if not several else rng.randint(1, max(1, most // 3))
    step = rng.randint(2, 5) if kind == "multiplier" else rng.randint(1, max(1, min(20, most // 3)))
    if several and (start * step if kind == "multiplier" else start + step) > most:
        start, step = 1, 2 if kind == "multiplier" else 1
    result, bound = [start], rng.randint(0, 12 if not several else 6)
    while len(result) <= bound or (several and len(result) < 2):
        n = result[-1] * step if kind == "multiplier" else result[-1] + step
        if n > most:
            break
        result.append(n)
    end = result[-1]
    if rng.random() < 0.6:
        following = end * step if kind == "multiplier" else end + step
        end = rng.randint(end, min(following - 1, most))
    return {"min_size": start, "max_size": end, kind: step}, result


def check_pool(c, instance, expected, key):
    c.equal(instance.nr_permutations, len(expected), key, "number of benchmarks")
    c.equal([instance.permutation_size(i) for i in range(instance.nr_permutations)], expected, key, "numbers of workers")
    c.equal((instance.min_size, instance.max_size), (expected[0], expected[-1]), key, "bounds")


def pools(c):
    for _ in range(c.rng.randint(5, 15)):
        data, expected = random_pool(c.rng)
        c.op("pool", json.dumps(data))
        instance = pool.Pool(data)
        check_pool(c, instance, expected, "pool")
        check_pool(c, pool.Pool(json.loads(json.dumps(instance.to_json()))), expected, "pool-json")
        c.count("pools")
        c.count("pool.sizes", len(expected))


# Settings -------------------------------------------------------------------------------------------------------------


class Settings:
    """Everything which is configured of an experiment"""

    def __init__(self, c, kind, scheduler):
        rng, self.kind = c.rng, kind
        word = lambda: "".join(rng.choice("abcxyz019_") for _ in range(rng.randint(1, 8)))  # noqa: E731
        self.nr_numa_nodes, self.nr_packages = rng.randint(1, 3), rng.randint(1, 2)
        self.nr_cores, self.hyper = rng.randint(2, 64), rng.randint(1, 2)
        self.memory, self.nr_cluster_nodes = rng.randint(1, 512), rng.randint(2, 40)
        self.numa_per_node = self.nr_numa_nodes * self.nr_packages
        cores_per_node = self.numa_per_node * self.nr_cores
        self.cluster = {
            "name": "cluster_" + word(),
            "scheduler": {"kind": scheduler},
            "nr_cluster_nodes": self.nr_cluster_nodes,
            "cluster_node": {
                "nr_packages": self.nr_packages,
                "package": {
                    "nr_numa_nodes": self.nr_numa_nodes,
                    "numa_node": {"memory": self.memory, "nr_cores": self.nr_cores, "core": {"nr_threads": self.hyper}},
                },
            },
        }
        if scheduler == "slurm":
            settings = {"partition": "part_" + word()}
            for name in ("sbatch_options", "mpirun_options", "srun_options"):
                if c.chance(60):
                    settings[name] = [f"--{word()}={word()}" for _ in range(rng.randint(1, 3))]
            self.cluster["scheduler"]["settings"] = settings
        if c.chance(60):
            self.cluster["software_environment"] = {"modules": [word() for _ in range(rng.randint(0, 3))]}

        several = kind != "partition_shape"
        types = ["thread"] if scheduler == "shell" else ["thread", "thread", "numa_node", "cluster_node"]
        if several and self.numa_per_node == 1:
            types = [t for t in types if t != "numa_node"]
        self.type = rng.choice(types)
        self.locality_per = rng.choice(("numa_node", "cluster_node")) if self.type == "thread" else "numa_node"
        if self.type == "thread" and not several and self.numa_per_node > 1:
            self.locality_per = "cluster_node"
        most = {"thread": self.nr_cores if self.locality_per == "numa_node" else cores_per_node, "numa_node": self.numa_per_node, "cluster_node": self.nr_cluster_nodes}[self.type]
        if several:
            data, self.workers = random_pool(rng, 1, most, True)
        else:
            self.workers = [rng.randint(1, most)]
            data = {"size": self.workers[0]}
        self.benchmark = {"count": rng.randint(1, 10), "locality_per": self.locality_per, "worker": {"type": self.type, "pool": data}}
        self.scenario = "default"
        if c.chance(60):
            self.scenario = self.benchmark["scenario"] = "scenario_" + word()
        if c.chance(20):
            self.benchmark["hpx"] = {"performance_counters": [{"print-counter-interval": rng.randint(1, 9999)}, {"print-counter": ["/a{x}/b", "/" + word()]}]}

        rank = rng.randint(1, 3)
        if several:
            most = {1: 10**6, 2: 10**4, 3: 6000}[rank]
            self.array = {"shape": [rng.randint(4000, most) for _ in range(rank)]}
            self.partition = {"shape": [rng.randint(1, 4000) for _ in range(rank)]}
        else:
            self.array, self.partition = random_shape_data(rng), random_shape_data(rng)
            for data in (self.array, self.partition):
                if "range" in data and data["range"]["method"] == "linear" and data["range"]["multiplier"] < 2:
                    data["range"]["multiplier"] = 2
        self.command, self.command_arguments = c.path("recorder"), " ".join("--" + word() for _ in range(rng.randint(0, 3)))
        self.experiment = {"array": self.array, "partition": self.partition}
        self.description = None
        if c.chance(50):
            self.description = self.experiment["description"] = "Description " + word() + " \u00e9"
        self.arguments = []
        if c.chance(50):
            positionals, options = [word() for _ in range(rng.randint(0, 2))], {word(): rng.choice((word(), "")) for _ in range(rng.randint(0, 2))}
            self.experiment["arguments"] = {"positionals": positionals, "options": options}
            self.arguments = [f'"{p}"' for p in positionals] + [f'--{k}="{v}"' if v else f"--{k}" for k, v in options.items()]
        self.max_duration = None
        if c.chance(50):
            self.max_duration = self.experiment["max_duration"] = f"{rng.randint(0, 9)}:{rng.randint(10, 59)}:00"
        if c.chance(30):
            self.experiment["max_tree_depth"] = rng.randint(1, 9)
        c.op("settings", f"{kind} {scheduler} {self.type} {self.locality_per} {self.workers} {json.dumps(self.array)} {json.dumps(self.partition)}")
        c.count(f"settings.{kind}.{scheduler}.{self.type}")

    def experiment_data(self):
        return dict(self.experiment, command_pathname=self.command, command_arguments=self.command_arguments)

    def shapes(self, data):
        r = data.get("range")
        return expected_shapes(data["shape"], r["max_nr_elements"], r["multiplier"], r["method"]) if r else [tuple(data["shape"])]

    def check(self, c, cluster, benchmark, experiment, key):
        c.equal(cluster.name, self.cluster["name"], key, "name of cluster")
        c.equal(cluster.scheduler.kind, self.cluster["scheduler"]["kind"], key, "kind of scheduler")
        c.equal(cluster.nr_cluster_nodes, self.nr_cluster_nodes, key, "number of cluster nodes")
        node = cluster.cluster_node
        c.equal(node.nr_numa_nodes, self.numa_per_node, key, "number of NUMA nodes")
        c.equal(node.nr_cores, self.numa_per_node * self.nr_cores, key, "number of cores")
        c.equal(node.nr_threads, self.numa_per_node * self.nr_cores * self.hyper, key, "number of threads")
        c.equal(node.memory, self.numa_per_node * self.memory, key, "memory")
        if self.cluster["scheduler"]["kind"] == "slurm":
            settings, observed = self.cluster["scheduler"]["settings"], cluster.scheduler.settings
            c.equal(observed.partition_name, settings["partition"], key, "partition")
            for name in ("sbatch_options", "mpirun_options", "srun_options"):
                c.equal(list(getattr(observed, name)), settings.get(name, []), key, name)
        modules = self.cluster.get("software_environment", {}).get("modules")
        c.equal(cluster.software_environment and cluster.software_environment.module_names, modules, key, "modules")
        c.equal(benchmark.scenario_name, self.scenario, key, "scenario")
        c.equal(benchmark.count, self.benchmark["count"], key, "count")
        c.equal(benchmark.locality_per, self.locality_per, key, "locality per")
        c.equal(benchmark.worker.type, self.type, key, "type of workers")
        c.equal([benchmark.worker.nr_workers(i) for i in range(benchmark.worker.nr_benchmarks)], self.workers, key, "numbers of workers")
        c.equal(benchmark.hpx and benchmark.hpx.performance_counters, self.benchmark.get("hpx", {}).get("performance_counters"), key, "counters")
        c.equal(experiment.name, self.kind, key, "kind of experiment")
        c.equal(experiment.command_pathname, self.command, key, "command")
        c.equal(experiment.command_arguments, self.command_arguments, key, "command arguments")
        c.equal(list(experiment.array.shapes), self.shapes(self.array), key, "array shapes")
        c.equal(list(experiment.partition.shapes), self.shapes(self.partition), key, "partition shapes")
        c.equal(experiment.max_duration, self.max_duration, key, "maximum duration")
        c.equal(experiment.max_tree_depth, self.experiment.get("max_tree_depth"), key, "maximum tree depth")
        c.equal(list(experiment.argument_list), self.arguments, key, "arguments")
        if self.description is not None:
            c.equal(experiment.description, self.description, key, "description")
        else:
            c.check(os.path.basename(self.command) in experiment.description, key, "description of experiment")


def settings(c):
    kind = c.rng.choice(sorted(KINDS))
    s = Settings(c, kind, c.rng.choice(("shell", "slurm")))
    cluster = Cluster(s.cluster)
    benchmark, experiment = Benchmark(s.benchmark, cluster), KINDS[kind].Experiment(s.experiment_data())
    s.check(c, cluster, benchmark, experiment, "settings")
    path = c.path("settings.lue")
    d = ldm.create_dataset(path, "d")
    c.op("write_benchmark_settings")
    dataset.write_benchmark_settings(d, cluster, benchmark, experiment)
    del d
    for _ in range(2):
        c.op("read_benchmark_settings")
        d = ldm.open_dataset(path, "r")
        read = dataset.read_benchmark_settings(d, KINDS[kind].Experiment)
        del d
        s.check(c, *read, "settings-stored")
        c.equal([o.to_json() for o in read], [o.to_json() for o in (cluster, benchmark, experiment)], "settings-json", "JSON")
    c.count("settings.stored")


# Scripts --------------------------------------------------------------------------------------------------------------

RECORDER = """#!/bin/bash
log="$VH_SCRATCH/log"
for a in "$@"; do
  case "$a" in --lue:result=*) echo "result" > "${a#--lue:result=}" || exit 5;; esac
done
{ printf '%s\\n' "$VH_JOB" "$VH_NTASKS" "$#" "$@"; } >> "$log"
n=$(cat "$VH_SCRATCH/count" 2>/dev/null || echo 0)
echo $((n + 1)) > "$VH_SCRATCH/count"
[ "$((n + 1))" != "$VH_FAIL" ]
"""

# Submits nothing: the job is executed right away
SBATCH = """#!/bin/bash
n=$(ls "$VH_SCRATCH" | grep -c '^job-')
cat > "$VH_SCRATCH/job-$n"
printf '%s\\n' "$@" > "$VH_SCRATCH/options-$n"
VH_JOB=$n bash "$VH_SCRATCH/job-$n"
"""

SRUN = """#!/bin/bash
while [ $# -gt 0 ]; do
  case "$1" in
    --ntasks) export VH_NTASKS=$2; shift 2;;
    -*) shift;;
    *) break;;
  esac
done
exec "$@"
"""


def executable(path, text):
    with open(path, "w") as stream:
        stream.write(text)
    os.chmod(path, 0o755)


def write_json(rng, path, data):
    """With comments, which are skipped"""
    lines = []
    for line in json.dumps(data, indent=2).split("\n"):
        if rng.random() < 0.1:
            lines.append("    # comment")
        lines.append(line)
    with open(path, "w") as stream:
        stream.write("\n".join(lines) + "\n")
    return path


def script(c):
    rng = c.rng
    kind = rng.choice(sorted(KINDS))
    scheduler = rng.choice(("shell", "slurm"))
    s = Settings(c, kind, scheduler)
    # Not too many benchmarks
    for data, most in ((s.array, 6), (s.partition, 5)):
        if "range" in data:
            sizes = expected_sizes(prod(data["shape"]), data["range"]["max_nr_elements"], data["range"]["multiplier"], data["range"]["method"])
            if len(sizes) > most:
                data["range"]["max_nr_elements"] = int(sizes[most - 1])
    bin_ = c.path("bin")
    os.mkdir(bin_)
    executable(s.command, RECORDER)
    executable(bin_ + "/sbatch", SBATCH)
    executable(bin_ + "/srun", SRUN)
    executable(bin_ + "/module", "#!/bin/bash\necho \"$@\" >> \"$VH_SCRATCH/modules\"\n")
    executable(bin_ + "/sleep", "#!/bin/bash\n")
    os.environ["VH_SCRATCH"] = str(c.work)
    configuration = {
        "command_pathname": "$VH_SCRATCH/recorder",
        "command_arguments": s.command_arguments,
        "script_pathname": "${VH_SCRATCH}/script.sh",
        "result_prefix": "$VH_SCRATCH/results",
        "platform": write_json(rng, c.path("platform.json"), s.cluster),
        "benchmark": write_json(rng, c.path("benchmark.json"), s.benchmark),
        "experiment": write_json(rng, c.path("experiment.json"), s.experiment),
    }
    c.op("generate", kind)
    with contextlib.redirect_stdout(io.StringIO()):
        scalability.perform_experiment_task(kind, "script", configuration)
    workspace = os.path.join(c.path("results"), s.cluster["name"], "recorder", s.scenario, kind)
    d = ldm.open_dataset(os.path.join(workspace, "raw.lue"), "r")
    s.check(c, *dataset.read_benchmark_settings(d, KINDS[kind].Experiment), "settings-stored")
    with open(c.path("script.sh")) as stream:
        c.equal(d.benchmark.meta_information.script.value[:][0], stream.read(), "script-stored", "script")
    del d

    # Benchmarks to expect: number of workers, shapes, result, number of threads, number of tasks
    expected = []
    partition = tuple(s.partition["shape"])
    if kind == "partition_shape":
        for a in s.shapes(s.array):
            for p in s.shapes(s.partition):
                result = os.path.join(workspace, "x".join(map(str, a)), "x".join(map(str, p)) + ".json")
                expected.append((s.workers[0], a, p, result))
    else:
        for n in s.workers:
            a = tuple(s.array["shape"])
            if kind == "weak_scalability":
                a = n  # Checked below
            expected.append((n, a, a if n == 1 and s.type == "thread" else partition, os.path.join(workspace, f"{n}.json")))

    fail = rng.randint(1, len(expected)) if scheduler == "shell" and c.chance(25) else 0
    c.op("execute", f"{len(expected)} benchmarks, fail {fail}")
    env = dict(os.environ, PATH=bin_ + ":" + os.environ["PATH"], VH_JOB="-", VH_NTASKS="-", VH_FAIL=str(fail))
    env.pop("PYTHONPATH", None)
    for name in [n for n in env if n.startswith(("LD_PRELOAD", "ASAN", "UBSAN", "LSAN"))]:
        env.pop(name)
    done = subprocess.run(["bash", c.path("script.sh")], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=100)
    c.equal(done.returncode != 0, fail != 0, "script-status", f"failure of script ({done.stdout[-300:]})")
    if fail:
        c.count("script.failing")
        expected = expected[:fail]

    with open(c.path("log")) as stream:
        lines = stream.read().split("\n")
    observed = []
    while len(lines) > 1:
        nr = int(lines[2])
        observed.append((lines[0], lines[1], lines[3 : 3 + nr]))
        del lines[: 3 + nr]
    c.equal(len(observed), len(expected), "executions", "number of benchmarks")
    nr_fixed = len(s.command_arguments.split())
    jobs = []
    for (job, nr_tasks, arguments), (n, a, p, result) in zip(observed, expected):
        c.equal(arguments[:nr_fixed], s.command_arguments.split(), "arguments", "command arguments")
        options = {}
        for argument in arguments[nr_fixed:]:
            name, _, value = argument.partition("=")
            c.check(name not in options, "arguments", f"{name} is passed twice")
            options[name] = value
        array = tuple(json.loads(options["--lue:array_shape"]))
        if kind == "weak_scalability":
            per_worker = s.array["shape"]
            c.equal(len(array), len(per_worker), "weak-shape", "rank")
            c.check(abs(Fraction(prod(array), n * prod(per_worker)) - 1) < Fraction(1, 1000), "weak-shape", f"{array} for {n} workers, {per_worker} each")
            for extent, e in zip(array, per_worker):
                c.check(abs(extent / (e * n ** (1 / len(array))) - 1) < 0.001, "weak-shape", f"{array} for {n} workers, {per_worker} each")
            if n == 1:
                c.equal(array, tuple(per_worker), "weak-shape", "single worker")
            if p == n:
                p = array
            a = array
        c.equal(array, a, "executed-array-shape", f"array shape with {n} workers")
        c.equal(tuple(json.loads(options["--lue:partition_shape"])), p, "executed-partition-shape", f"partition shape with {n} workers")
        c.equal(options["--lue:nr_workers"], str(n), "executed-workers", "number of workers")
        c.equal(options["--lue:count"], str(s.benchmark["count"]), "executed-count", "count")
        c.equal(options["--lue:result"], result, "executed-result", "result")
        c.check(os.path.isfile(result), "executed-result", f"{result} is not there")
        c.equal(options["--hpx:threads"], str(n if s.type == "thread" else s.nr_cores), "executed-threads", "threads")
        if scheduler == "slurm":
            tasks = {"thread": 1, "numa_node": n, "cluster_node": n * s.numa_per_node}[s.type]
            c.equal(nr_tasks, str(tasks), "executed-tasks", "tasks")
        jobs.append((job, n))
        c.count("benchmarks.executed")
    c.equal(len({r for *_, r in expected}), len({e[:3] for e in expected}), "result-clash", "number of results")

    if scheduler == "slurm":
        separate = kind != "partition_shape" and s.type != "thread"
        numbers = sorted({j for j, _ in jobs}, key=int)
        c.equal(len(numbers), len(expected) if separate else 1, "jobs", "number of jobs")
        settings = s.cluster["scheduler"]["settings"]
        for job, n in jobs:
            with open(c.path("job-" + job)) as stream:
                header = re.findall(r"^#SBATCH (.*)$", stream.read(), re.M)
            values = dict(line.split("=", 1) for line in header if "=" in line)
            c.equal(values["--partition"], settings["partition"], "job-header", "partition")
            c.equal(values["--nodes"], str(n if s.type == "cluster_node" else 1), "job-header", "nodes")
            tasks = {"thread": 1, "numa_node": n, "cluster_node": n * s.numa_per_node}[s.type]
            c.check(int(values["--ntasks"]) >= tasks, "job-header", "too few tasks are reserved")
            if separate:
                c.equal(int(values["--ntasks"]), tasks, "job-header", "tasks")
            per_locality = s.nr_cores * s.hyper * (s.numa_per_node if s.locality_per == "cluster_node" else 1)
            c.equal(values["--cpus-per-task"], str(per_locality), "job-header", "CPUs per task")
            c.equal(values.get("--time"), s.max_duration, "job-header", "duration")
            for option in settings.get("sbatch_options", []):
                c.check(option in header, "job-header", f"{option} is missing")
            with open(c.path("options-" + job)) as stream:
                options = stream.read().split("\n")
            for option in settings.get("sbatch_options", []):
                c.check(option in options, "job-options", f"{option} is missing")
            c.check(os.path.isdir(os.path.dirname(values["--output"])), "job-header", "directory of output does not exist")
            c.count("jobs")
        modules = s.cluster.get("software_environment", {}).get("modules", [])
        if modules:
            with open(c.path("modules")) as stream:
                c.equal(stream.read().split("\n")[:-1], (["purge"] + ["load " + m for m in modules]) * len(numbers), "modules", "modules")
    c.count("scripts")


def body(c):
    c.nontrivial()
    kind = c.rng.choice(("shapes", "pools", "settings", "script"))
    {"shapes": shapes, "pools": pools, "settings": settings, "script": script}[kind](c)


vh.run(body)
