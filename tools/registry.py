"""What each check builds, runs and requires. cases = (quick, thorough)."""

HDF5 = ["source/data_model/hdf5/all"]
CHECKS = {
    "C01": dict(kind="cpp", harness="c01", targets=["vh_c01"], cases=(3000, 60000),
                rule="A case is one dataset with 1-4 same-shape properties (random kind, element type, array rank 0-4) under a random "
                     "history of expand / write / read / open-handle / reopen; non-trivial if something was written. Distinct by event trace.",
                require=["elements.compared", "op.write-range", "op.reopen"]),
    "C02": dict(kind="cpp", harness="c02", targets=["vh_c02"], cases=(2400, 40000),
                rule="A case is one dataset with 1-3 properties of the four kinds with per-object and/or per-time shapes (random element type, "
                     "rank 0-4, arbitrary 64-bit IDs) under a random history of expand (all overloads) / write / read / existence query / reopen; "
                     "non-trivial if an array was written. Distinct by event trace.",
                require=["elements.compared", "op.expand-different-flat-shapes", "op.expand-different-constant", "op.expand-same-variable", "op.expand-different-variable"]),
    "C03": dict(kind="cpp", harness="c03", targets=["vh_c03"], cases=(3000, 60000),
                rule="A case is one file with 1-2 arrays (random element type, rank 1-5, chunked or contiguous) under a random history of "
                     "write / read (all overloads) / fill / resize / reopen with random start, stride and count, plus 20 windows around a "
                     "centre; non-trivial if a non-empty selection was written or filled. Distinct by event trace.",
                require=["elements.compared", "op.write", "op.read", "op.fill", "op.resize", "selections", "op.window"]),
    "C04": dict(kind="cpp", harness="c04", targets=["vh_c04"], cases=(6000, 120000),
                rule="A case is two random histories of open / copy / move / assign / self-assign / swap / destroy over 2-6 handles of one of 11 "
                     "handle types and 8-25 data model operations, a part of which throws. Non-trivial if a history was run. Distinct by event trace.",
                require=["handles.audited", "objects.closed", "operations.thrown", "operations.succeeded", "op.self-move-assign", "op.copy-assign"],
                technique="runtime monitoring: reference counts, close calls and HDF5 identifier census against a model of live handles, under ASan+UBSan"),
    "C05": dict(kind="cpp", harness="c05", targets=["vh_c05"], cases=(1400, 28000),
                rule="A case is one dataset (10% in memory) to which universes, phenomena, property sets (all nine ways) and properties (six kinds, "
                     "all ways) with random UTF-8 names and descriptions are added, interleaved with additions of present names, look-ups of "
                     "absent ones and re-opening; non-trivial if a property set or property was added. Distinct by event trace.",
                require=["trees.compared", "additions.refused", "lookups.refused", "properties.compared", "op.reopen"]),
    "C11": dict(kind="cpp", harness="c11", targets=["vh_c11"], cases=(2000, 40000),
                rule="A case is one file with attributes on the file, two groups and an array under a random history of writes (numbers and lists "
                     "of ten types, text of 0-12000 bytes with UTF-8 and zero bytes, often over a value of another type or length), refused "
                     "creations, second handles and re-opening; non-trivial if something was written. Distinct by event trace.",
                require=["values.compared", "values.replaced", "reads.refused", "op.reopen", "op.create-again", "op.add"]),
    "C06": dict(kind="cpp", harness="c06", targets=["vh_c06"], cases=(1200, 24000),
                rule="A case is one phenomenon with 1-3 property sets with own or shared time domain (box, cell, point; ten units, any tick period, "
                     "epochs with and without origin and calendar) and own or shared object tracker, under a random history of expand / write / "
                     "read of coordinates, counts, tracker arrays and object identities and of re-opening. Distinct by event trace.",
                require=["sets.compared", "elements.compared", "elements.written", "op.reopen"]),
    "C07": dict(kind="cpp", harness="c07", targets=["vh_c07"], cases=(1100, 32000),
                rule="A case is one phenomenon with 1-3 property sets with a space domain (mobile or stationary, box or point, ten coordinate types, "
                     "rank 1-4), under a random history of expand / write / read of coordinates, of setting the presence discretization and of "
                     "re-opening. Distinct by event trace.",
                require=["sets.compared", "elements.compared", "elements.written", "presence.followed", "op.reopen"]),
    "C08": dict(kind="cpp", harness="c08", targets=["vh_c08"], cases=(700, 14000),
                rule="A case is one dataset with two universes, six phenomena and up to 8 property sets that share time domains and object trackers "
                     "(directly or of a set that shares itself, within and across phenomena), up to 8 properties whose time, space or presence is "
                     "discretized by another, under a random history of writes through any of their handles and of re-opening. Distinct by event trace.",
                require=["objects.compared", "links.followed", "links.refused", "domains.shared", "trackers.shared", "elements.compared", "op.reopen"]),
    "C09": dict(kind="cpp", harness="c09", targets=["vh_c09"], cases=(700, 20000),
                rule="A case is one random consistent dataset (1-3 phenomena, in a universe or not, with 0-6 objects, each with object and collection "
                     "property sets that are stationary or temporal, own or share trackers and time domains, with points, boxes or cells in time and "
                     "space, and properties of all six kinds, some discretized), validated as built, re-opened, as file and by path. Distinct by event trace.",
                require=["sets.built", "properties.built", "properties.discretized", "presence.discretized", "validations", "files.compared"]),
    "C10": dict(kind="cpp", harness="c10", targets=["vh_c10"], cases=(850, 24000),
                rule="A case is one random consistent dataset in which one of about 30 kinds of inconsistency was introduced somewhere, from which one "
                     "required group, array or attribute was removed (or replaced by another class of object), or a file that is no LUE dataset; "
                     "it is validated by path, as file and as dataset and everything reachable is read. Distinct by event trace.",
                require=["inconsistencies", "parts.removed", "others.refused", "errors", "exceptions", "walk.succeeded"]),
    "C14": dict(kind="cpp", harness="c14", targets=["vh_c14"], cases=(2400, 48000),
                rule="A case is 40 random value shapes (rank 0-31, up to 2^60 bytes, many around the size at which a value does not fit a block) "
                     "and element sizes for which a block is computed, and 1-3 properties of four kinds with such shapes that are created, written at "
                     "a corner, re-opened and read. Distinct by event trace.",
                require=["blocks.checked", "blocks.whole", "blocks.parts", "arrays.created", "corners.compared"]),
    "C12": dict(kind="cpp", harness="c12", targets=["vh_c12"], cases=(1500, 30000),
                rule="A case checks the ten element types and text against the HDF5 library, and writes the extremes and random bit patterns of 2-8 arrays "
                     "(random element type, 13 ways of creating an array, file and memory type different or not) and of attributes, which are read back in "
                     "their own and in every wider type. Distinct by event trace.",
                require=["types.on-disk", "types.reported", "elements.compared", "elements.converted"]),
    "C13": dict(kind="cpp", harness="c13", targets=["vh_c13"], cases=(3000, 60000),
                rule="A case is one file with values of four kinds (random element type, file and memory type different or not, rank 0-3, most with a no-data "
                     "value, often all bits set, zero, signed zero or infinity) under a random history of expand / partial write (also of the no-data value "
                     "itself) / read / reopen. Distinct by event trace.",
                require=["elements.compared", "no-data.compared", "elements.known", "op.expand", "op.write-part", "op.reopen"]),
    "C15": dict(kind="cpp", harness="c15", targets=["vh_c15"], cases=(1000, 20000),
                rule="A case is a random dataset (dsgen.hpp) that is opened for reading and walked, validated, flushed, opened again and modified in one of "
                     "about 40 ways (each refused; one also done on the dataset opened for writing), or a random history of creating, opening, removing and "
                     "keeping open files under eight names (file, absent, directory, links) with in-memory datasets in between, or a file that is truncated, "
                     "has a bit flipped in its superblock, has random content or is another HDF5 file. Distinct by event trace.",
                require=["files.compared", "modifications.refused", "modifications.effective", "existence.compared", "opens.refused", "in-memory.datasets", "walk.succeeded"]),
    "C16": dict(kind="cpp", harness="c16", targets=["vh_c16"], cases=(900, 18000),
                rule="A case is a process that adds to and writes a dataset in 1-4 rounds, each of which ends by flushing (through the dataset, a copy or "
                     "another file handle) or closing it (parts of it being held or not; in 30% of the cases the file is a plain one of which nothing else is kept open), then possibly works on other files or reads, and kills itself at a "
                     "random such moment; another process compares all content of the file. Distinct by event trace.",
                require=["objects.compared", "killed.after-flush", "killed.after-close", "killed.after-flush-bare", "killed.after-close-bare", "modifications", "work.elsewhere"],
                technique="runtime monitoring: crash injection (SIGKILL at operation boundaries after flush or close), content recorded before compared with content after, under ASan+UBSan",
                assumptions=["The death is that of the process, not of the machine: what was handed to the operating system is there afterwards.",
                             "The HDF5 library's mark in a file that was still open for writing is cleared first (h5clear)."]),
    "C29": dict(kind="cpp", harness="c29", targets=["vh_c29"], cases=(900, 24000),
                rule="A case is a random dataset (dsgen.hpp; 35% in memory) on which 4-16 operations are performed, three quarters of about 45 kinds that "
                     "cannot be performed (absent and present names, other ranks, out-of-range selections and indices, values that do not fit), the others "
                     "valid modifications of about 40 kinds (which fail if the dataset is opened for reading); or one whose file is not allowed to grow beyond a random size while it is modified and flushed by another process. Non-trivial if an operation failed. Distinct by event trace.",
                require=["operations.failed", "datasets.compared", "modifications.performed", "modifications.effective", "files.compared", "writes.thrown", "flushes.compared"]),
    "C17": dict(kind="py", harness="c17", targets=["lue_py"], cases=(6000, 120000),
                rule="A case is one dataset with an array (of eight kinds: properties of four kinds, an object array, space points, object IDs; ten element "
                     "types, rank 1-5) that is read with 25 expressions, mostly tuples of integers and slices (negative, out of range, with steps), "
                     "some not valid (lists, arrays, text, floats, too many), and compared with NumPy. Distinct by event trace.",
                require=["reads.compared", "elements.compared", "results.empty", "results.scalar", "refused", "op.reopen"]),
    "C18": dict(kind="py", harness="c18", targets=["lue_py"], cases=(6000, 120000),
                rule="A case is one dataset with an array (of eight kinds, as for C17) to parts of which (random integers, slices and tuples) 14 values are assigned: "
                     "scalars, arrays (of ten element types; contiguous, Fortran order, strided, reversed, transposed, byte-swapped, read-only, broadcast, unaligned), "
                     "lists, values of another size and of kinds that cannot be stored, after each of which all elements are compared with NumPy; 8% expand an "
                     "array per object with IDs and shapes in such layouts. Distinct by event trace.",
                require=["assignments", "elements.compared", "refused", "op.reopen", "expansions"]),
    "C19": dict(kind="py", harness="c19", targets=["lue_py"], cases=(5000, 100000),
                rule="A case is one dataset with an array of texts (per object, or per location in time) under a random history of assigning texts (0-5000 "
                     "code points of all planes; as NumPy Unicode or UTF-8 arrays in several layouts, or lists) to slices, reading slices, assigning what cannot be assigned, "
                     "and re-opening; names and descriptions are random texts, too. Distinct by event trace.",
                require=["texts.compared", "texts.written", "refused", "op.reopen"]),
    "C20": dict(kind="py", harness="c20", targets=["lue_py"], cases=(1100, 32000),
                rule="A case is a random dataset built in Python, of which 15-45 times an object (of 21 kinds) is obtained through up to six others by index, "
                     "attribute, property or call (adding, expanding), dropped, or used, after which all are dropped in random order and those left are "
                     "used. Distinct by event trace.",
                require=["objects.compared", "files.closed", "held.property", "held.array", "held.value-array", "held.property_set", "held.phenomenon", "held.tracker",
                         "held.time_domain", "held.space_domain", "held.universe", "held.value-group"]),
    "C21": dict(kind="cpp", harness="c21", targets=["vh_c21"], cases=(1500, 40000),
                rule="A case is a dataset (30% in memory) under a random history of creating raster views and stacks (with new and existing phenomena, "
                     "object IDs and property sets; managed by both kinds of pointers), property sets that look like views, adding layers (ten element types, "
                     "with and without no-data value, names in use), writing cells (whole, by time step, by block), re-opening, probing and splitting pathnames. "
                     "All views, layers and cells are compared, presence is tested for everything and the dataset is validated. Distinct by event trace.",
                require=["views.compared", "elements.compared", "no-data.compared", "presence.tests", "datasets.validated", "refused", "probes", "pathnames",
                         "op.create-stack", "op.create-raster", "op.create-other", "op.reopen"]),
    "C22": dict(kind="cpp", harness="c22", targets=["vh_c22"], cases=(12000, 300000),
                rule="A case is either a raster and block shape (up to 2^31 cells per axis) of which all blocks along both axes are walked, or a GeoTIFF (ten element "
                     "types, 1-3 bands, 1-90 rows and columns, any layout in tiles or strips, compression, interleaving, byte order) on which 4-14 reads and writes of "
                     "blocks, parts and whole bands are performed, within and outside the raster, with re-opening for reading or updating. Distinct by event trace.",
                require=["blocks.walked", "blocks.read", "cells.compared", "refused", "reopened", "op.write-block", "op.write-blocks", "op.write", "op.write-part",
                         "op.read-block", "op.read", "op.read-part", "op.outside"]),
    "C23": dict(kind="cpp", harness="c23", targets=["vh_c23"], cases=(5000, 120000),
                rule="A case is a raster (GeoTIFF, Erdas Imagine or in memory; ten element types, 1-4 bands, any layout) of which geo-transform, projection, no-data values "
                     "(extremes, infinity, NaN) and cells are set, and which is re-opened, copied from an open dataset and from a file, with and without statistics, onto new and "
                     "existing files; copies are deleted and replaced; 18 kinds of operations that must be refused; names of drivers and types. Distinct by event trace.",
                require=["datasets.compared", "no-data.float", "no-data.integer", "no-data.odd", "cells.compared", "copied.file", "copied.statistics", "deleted", "replaced", "refused",
                         "reopened", "names", "op.create-HFA", "op.create-MEM", "op.create-GTiff"]),
    "C24": dict(kind="cpp", harness="c24", targets=["vh_c24"], cases=(6000, 150000),
                rule="A case is a random raster (ten element types, 1-3 bands, up to 200 rows and columns, any layout, no-data including NaN) that is compared with itself and with "
                     "2-5 others in other layouts and formats, which are equal or differ in one cell (half of them near a border), geo-transform, no-data, shape, bands, element type, "
                     "or are absent, in both orders. Distinct by event trace.",
                require=["equal", "different", "different.cell", "with-nan", "signed-zero", "absent"]),
    "C25": dict(kind="cpp", harness="c25", targets=["vh_c25"], cases=(8000, 200000),
                rule="A case is an experiment under a random history of starting and stopping it, its runs and a stopwatch (again, without stopping, out of order), adding runs, "
                     "copying and saving, while time passes (from nothing to weeks) and the wall clock is set back and forth, in one of seven time zones; or 2-4 threads with "
                     "experiments of their own. Both clocks are the harness's. Distinct by event trace.",
                require=["documents", "runs.compared", "runs.verified", "clock.reads", "refused", "threads", "op.copy", "op.watch", "op.restart-run"]),
    "C26": dict(kind="py", harness="c26", targets=["lue_py"], cases=(4000, 90000),
                rule="A case is a range of array or partition shapes (both methods, ranks 1-4), a pool of workers, an experiment whose settings are stored as JSON and in a "
                     "dataset and read back (three kinds of experiments, three kinds of workers, with and without scheduler), or a job script that is generated and executed with "
                     "stand-ins for the command, `sbatch`, `srun` and `module`, a part of which fails. Distinct by event trace.",
                require=["shape-range.shapes", "array-shapes", "pools", "settings.stored", "scripts", "benchmarks.executed", "jobs", "script.failing",
                         "settings.weak_scalability.shell.thread", "settings.strong_scalability.slurm.cluster_node", "settings.partition_shape.shell.thread"]),
    "C27": dict(kind="cpp", hpx="asan", harness="c27", targets=["vh_c27"], cases=(16000, 600000),
                rule="A case is an array (rank 1-3) that is divided in partitions, all of which are visited cell by cell, or 30-50 divisions of areas, default and largest partition "
                     "shapes (up to 3e6 cells along an axis, 1-130 threads), or windows around a centre; a part of the shapes must be refused. Distinct by event trace.",
                require=["partitions", "cells", "refused", "divisions", "defaults", "maxima", "hyperslabs",
                         "op.partition-shapes-1d", "op.partition-shapes-2d", "op.partition-shapes-3d"]),
    "C28": dict(kind="cpp", hpx="asan", harness="c28", targets=["vh_c28"], cases=(16000, 600000),
                rule="A case is a grid (rank 1-3, up to 4e12 cells) whose cells' linear indices are converted back and forth, a grid or a part of it that is walked (row-major, "
                     "along the Hilbert curve, by a visitor), or a pair of ranges of which all values are mapped. Distinct by event trace.",
                require=["cells.converted", "cells.visited", "values.mapped", "op.hilbert", "op.linear-3d", "op.visit-3d", "op.conversion-3d", "op.map-to-range"]),
    "C30": dict(kind="cpp", hpx="asan", harness="c30", targets=["vh_c30"], cases=(8000, 300000),
                rule="A case is a random history of 10-50 constructions, copies, moves, assignments (also to itself), reshapes, removals, slices, erasures, element updates and "
                     "archivings of four arrays or four pieces of partition data (rank 1-3, three element types, also empty ones); copies of the latter share their elements. "
                     "Distinct by event trace.",
                require=["elements.compared", "shared", "op.arrays", "op.data", "op.move-assign", "op.copy-assign", "op.erase", "op.slice", "op.remove", "op.archive", "op.reshape"]),
    "C31": dict(kind="cpp", hpx="asan", harness="c31", targets=["vh_c31"], cases=(14000, 500000),
                rule="A case is one of some 75 combinations of a local operation and element types (arithmetic, comparison, logic, rounding, trigonometry, powers, conversion, "
                     "selection, classification) on one to three arrays (up to 24 x 24 cells, any partition shape, up to four localities, partitions ready or not) or arrays and "
                     "scalars in all forms, with extremes, infinities, no-data and values outside of domains, under a random schedule. Distinct by event trace, which includes the schedule.",
                require=["cells.compared", "local.unary", "local.binary", "local.where", "local.reclassify", "form.0", "form.1", "form.2", "form.3", "form.4", "form.5",
                         "hpx.remote-actions", "hpx.switches"]),
    "C32": dict(kind="cpp", hpx="asan", harness="c32", targets=["vh_c32"], cases=(4000, 150000),
                rule="A case is a focal operation (sum, mean, minimum, maximum, majority, diversity, high pass, convolution, slope, aspect; some with several element types) "
                     "with a random kernel (3 x 3 to 7 x 7 cells) on an array (up to 24 x 24 cells, any partition shape, up to four localities, partitions ready or not) with "
                     "no-data values, under a random schedule; partitions are too small for the kernel now and then. Distinct by event trace, which includes the schedule.",
                require=["cells.compared", "focal.computed", "focal.partitioned", "focal.refused", "hpx.remote-actions", "hpx.switches"]),
    "C33": dict(kind="cpp", hpx="asan", harness="c33", targets=["vh_c33"], cases=(30000, 600000),
                rule="A case is a zonal operation (sum, mean, area, minimum, maximum, majority, diversity, uniform, normal; some with several element and zone types) of an array "
                     "(up to 24 x 24 cells, any partition shape, up to four localities, partitions ready or not) and zones (1 to 250, in patches or scattered, with cells that are "
                     "not in a zone), both with no-data values, under a random schedule. Distinct by event trace, which includes the schedule.",
                require=["cells.compared", "zonal.zones", "zonal.partitioned", "zonal.random-zones", "hpx.remote-actions", "hpx.switches"]),
    "C34": dict(kind="cpp", hpx="asan", harness="c34", targets=["vh_c34"], cases=(30000, 600000),
                rule="A case is an aggregate (sum, minimum, maximum, all, any, none, unique, number of unique values per partition; some with several element types) of an array "
                     "(up to 24 x 24 cells, any partition shape, up to four localities, partitions ready or not) without, with some, or with only no-data values, per partition, "
                     "under a random schedule. Distinct by event trace, which includes the schedule.",
                require=["scalars.compared", "aggregate.no-values", "aggregate.some-values", "aggregate.all-values", "aggregate.partitioned", "unique.values", "unique.partitions",
                         "hpx.remote-actions", "hpx.switches"]),
    "C36": dict(kind="cpp", hpx="asan", harness="c36", targets=["vh_c36"], cases=(20000, 500000),
                rule="A case is a set of routes in decreasing order of values (for the whole array or per zone; of limited length or not), and a walk along the first cells of them, on an "
                     "array (up to 16 x 16 cells, any partition shape, up to four localities, partitions ready or not) with no-data values, ties, and values of either sign or both, "
                     "under a random schedule. Distinct by event trace, which includes the schedule.",
                require=["routes", "route.cells", "route.fragments", "routes.walked", "cells.compared", "hpx.remote-actions", "hpx.switches"]),
    "C35": dict(kind="cpp", hpx="asan", harness="c35", targets=["vh_c35"], cases=(12000, 300000),
                rule="A case is a routing operation on a flow direction network without cycles (slopes, pits, hills, single streams, short streams, any amount of sinks, no-data cells and "
                     "cells that drain out of the array) on an array (up to 24 x 24 cells, any partition shape, up to four localities, partitions ready or not), with arguments that are arrays "
                     "or scalars, with no-data and out of domain values, under a random schedule. Distinct by event trace, which includes the schedule.",
                require=["flow.cells", "flow.crosses-partition", "flow.most-crossings-along-a-stream", "cells.compared", "hpx.remote-actions", "hpx.switches"]),
    "C37": dict(kind="cpp", hpx="asan", harness="c37", targets=["vh_c37"], cases=(60000, 1500000),
                rule="A case creates an array: with a value, default initialized, from a buffer, by an instantiation function per partition or per locality, with random values, or like "
                     "another array with cell indices, unique IDs, ranges, partition IDs, locality IDs, times, or a copy; all array shapes up to 24 x 24 cells, any partition shape (or the "
                     "default one), up to four localities, arguments that may not be ready yet, some shapes that must be refused, under a random schedule. Distinct by event trace, which "
                     "includes the schedule.",
                require=["created.partitions", "created.multiple-localities", "created.refused", "created.from-buffer", "created.marked-no-data", "created.per-locality", "created.filled",
                         "created.partitioned", "created.unique-ids", "created.random-values", "cells.compared", "hpx.remote-actions", "hpx.switches"]),
    "C38": dict(kind="cpp", hpx="asan", harness="c38", targets=["vh_c38"], cases=(20000, 500000),
                rule="A case finds the clumps of zones (patches, walls with gaps, combs, checkerboards, rings, diagonal lines, mazes; with noise and no-data) given one of both "
                     "connectivities, or downscales an array 0 to 5 times; arrays up to 48 x 48 cells, any partition shape, up to four localities, partitions ready or not, under a random "
                     "schedule. Distinct by event trace, which includes the schedule.",
                require=["clump.clumps", "clump.crosses-partition", "clump.diagonal", "clump.nondiagonal", "downscale.partitioned", "downscale.refused", "cells.compared",
                         "hpx.remote-actions", "hpx.switches"]),
    "C39": dict(kind="cpp", hpx="tsan", harness="c39", targets=["vh_c39"], cases=(2000, 60000),
                rule="A case is a case of one of the other checks of the framework (local, where, zonal and focal operations, convolutions, flow accumulation, kinematic wave, routes, clumps, "
                     "resampling, unique cells, creation of arrays, random values), with each task in a thread of its own and random delays in between, observed by ThreadSanitizer. Distinct by event trace.",
                require=["free.tasks", "free.most-tasks-per-case", "cells.compared", "flow.cells", "route.cells", "clump.clumps", "created.partitions", "downscale.partitioned"]),
    "C40": dict(kind="cpp", harness="c40", targets=["vh_c40"], cases=(2000, 60000),
                rule="A case is one history of reads, writes and copies of arrays from, to and between layers of one or two LUE datasets, started without waiting for them, run with one seeded schedule "
                     "of tasks on up to three localities. Files opened and closed are observed. Distinct by event trace.",
                require=["io.reads-constant-whole", "io.reads-constant-hyperslab", "io.reads-variable-whole", "io.reads-variable-hyperslab", "io.writes-constant", "io.writes-variable",
                         "io.copies", "io.concurrent-reads", "io.checked-when-written", "cells.compared", "hpx.remote-actions", "hpx.switches"]),
    "C41": dict(kind="cpp", harness="c41", targets=["vh_c41"], cases=(800, 30000),
                rule="A case is one series of imports of random GDAL rasters in a dataset, or one export of layers of a random dataset to a GDAL raster. Distinct by shapes, types, layouts and operations.",
                require=["import.rasters", "import.layers", "import.refused", "export.bands", "cells.compared"]),
    "C42": dict(kind="cpp", hpx="asan", harness="c42", targets=["vh_c42"], cases=(12000, 400000),
                rule="A case runs one model with a progressor, directly, deterministic, or for multiple samples, for 0-40 time steps and any limit, with steps that take no time, end in another order than they "
                     "were started in, only end once as many as possible are under way, or fail, and with exceptions thrown at random steps, under a random schedule. Distinct by event trace, which includes the schedule.",
                require=["model.steps", "model.most-under-way", "model.exceptions", "model.limited-runs", "hpx.switches", "hpx.suspensions"]),
}
