"""Writes properties.jsonl (kept as Python for readability)."""
import json, os
P = []
def add(id, title, statement, over, text, why, files, mech, **kw):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], **kw}})

add("C01", "Rearranging a distributed array never changes the global array",
    "Any sequence of redistributing a distributed array over another axis, gathering it onto one or all processes, wrapping local pieces, copying, transposing and reshaping gives exactly the values, shape and element type numpy gives for the same sequence on the whole array, for every shape (including axes shorter than the number of processes), element type and memory layout. Each process always holds exactly its contiguous share of the distributed axis, as even as possible with the larger shares first, and the reported global shape, distributed axis and local offsets agree with the data. Every such operation completes on all processes under any message timing and leaves no message undelivered.",
    ["schedules", "inputs", "histories", "configurations", "fault_sequences"],
    "for all process counts, shapes, dtypes, memory orders, operation sequences, MPI send modes (buffered or rendezvous), message delays and rank stalls",
    "The tests run one or four real processes on one timing, a few fixed shapes and mostly evenly divisible axes, so short axes, non-contiguous layouts, rendezvous sends and slow ranks are never reached.",
    ["caput/mpiarray.py", "caput/util/mpitools.py"],
    [("redistribute (pairwise exchange)", "caput/mpiarray.py:MPIArray.redistribute"), ("gather / allgather", "caput/mpiarray.py:MPIArray.gather"),
     ("wrap layout check", "caput/mpiarray.py:MPIArray.wrap"), ("transpose / reshape bookkeeping", "caput/mpiarray.py:MPIArray.transpose"), ("axis split", "caput/util/mpitools.py:split_m")])
add("C02", "Arithmetic on distributed arrays equals arithmetic on the whole array",
    "Element-wise functions, accumulations and reductions applied to distributed arrays (mixed with scalars, plain arrays and broadcasting, with or without output arguments or in-place) give, once gathered, what numpy gives on the whole arrays, with the distributed axis, global shape and offsets of the result correct on every process. A total reduction followed by an all-process reduction returns the same whole-array value on every process. Operations that cannot be done without communication (combining differently distributed arrays, reducing or accumulating along the distributed axis, a masked operation) are refused with an error on every process and never return a wrong answer.",
    ["inputs", "programs", "configurations", "schedules"],
    "for all ufunc expressions over distributed arrays of any shape/dtype/axis, on any number of processes and under any message timing",
    "Tests sample a dozen expressions on one layout; the result metadata on ranks with empty shares, negative axes, multi-axis reductions and broadcasting in both directions are not sampled.",
    ["caput/mpiarray.py"],
    [("ufunc dispatch", "caput/mpiarray.py:MPIArray.__array_ufunc__"), ("reduce axis inference", "caput/mpiarray.py:MPIArray._array_ufunc_reduce"), ("total reduction", "caput/mpiarray.py:MPIArray.allreduce")])
add("C03", "Global indexing addresses exactly the elements numpy would address",
    "Reading through a distributed array's global indexing returns on each process exactly that process's part of what numpy would return for the same index on the whole array (nothing on a process that owns no selected element), and assigning through it changes exactly the elements numpy would change and no other, for integer, negative, slice, partial, ellipsis and stepped indices. Ordinary slicing that leaves the distributed axis whole gives a distributed array whose gathered value equals the numpy slice and whose global shape, axis and offset are right.",
    ["inputs", "configurations", "histories"],
    "for all index expressions, shapes, distributed axes and process counts, and all sequences of reads and writes",
    "Tests use a few fixed indices on one shape; boundaries between processes, empty shares and indices counted from the end are an unbounded input space.",
    ["caput/mpiarray.py"],
    [("global index resolution", "caput/mpiarray.py:_global_resolver"), ("slice sanitising", "caput/mpiarray.py:sanitize_slice")])
add("C04", "Distributed data written to disk reads back identically on any process count",
    "An in-memory tree of distributed and ordinary datasets with attributes saved to HDF5 or zarr by any number of processes, and loaded again by any (other) number, distributed or not, over any axis and with any axis selections the format supports, yields exactly the selected part of the original data, shapes, types (strings included) and attributes on every process. A save that returns has put the complete data in the file, however slow individual processes or the shared filesystem are, it leaves no lock files behind, and a file never mixes old and new contents after a successful save.",
    ["schedules", "inputs", "configurations", "fault_sequences"],
    "for all trees, dtypes, formats, writer and reader process counts, axes, selections, rank stalls, message delays and filesystem visibility delays",
    "Tests write and read with the same one or four processes on one timing and a local filesystem, so ordering bugs between writers and readers, selections crossing process boundaries and other process counts are not reached.",
    ["caput/mpiarray.py", "caput/memdata/_memh5.py", "caput/memdata/_io.py", "caput/memdata/fileformats.py"],
    [("serialised parallel HDF5 write", "caput/mpiarray.py:MPIArray._to_hdf5_serial"), ("parallel zarr write", "caput/mpiarray.py:MPIArray.to_zarr"), ("distributed read with selection", "caput/mpiarray.py:MPIArray.from_file"),
     ("tree save", "caput/memdata/_memh5.py:_distributed_group_to_file"), ("tree load", "caput/memdata/_memh5.py:_distributed_group_from_file")])
add("C05", "In-memory data trees behave as one tree on all processes",
    "Converting a dataset between common and distributed, redistributing it, or copying the tree (deep, shallow, with some datasets shared, with conversion of strings, or with selections that leave distributed axes whole, which copy exactly the selected part) preserves every group, dataset, value and attribute, and the converted dataset on every process is exactly its share of the whole. A deep copy shares no storage with the original so later changes of one never appear in the other, while shallow views do share it. All processes finish every such operation with the same tree whatever their relative speed and whatever the iteration order of sets in each process.",
    ["histories", "inputs", "schedules", "configurations"],
    "for all trees, sequences of tree operations, process counts and schedules",
    "Tests build one or two small trees and apply one operation each; sequences, distributed axes other than the first, empty shares and cross-process ordering differences are not covered.",
    ["caput/memdata/_memh5.py"],
    [("common/distributed conversion", "caput/memdata/_memh5.py:MemGroup.dataset_common_to_distributed"), ("deep group copy", "caput/memdata/_memh5.py:deep_group_copy"), ("dataset redistribution", "caput/memdata/_memh5.py:MemDatasetDistributed.redistribute")])
add("C06", "Files written under a lock file are published all-or-nothing",
    "While a file is being written under the lock-file protocol, until it is published, a lock marker exists next to it, and the final name never shows partial contents: after any crash the final name holds either nothing new (the previous complete contents, if any) or the complete new contents. On success the final name holds the new contents and neither the marker nor the temporary name remains; when the writer raises, its own exception reaches the caller, the final name is untouched and the marker and any temporary file are cleaned up as requested. With several processes in the group only the first one creates the marker and publishes.",
    ["crash_points", "fault_sequences", "schedules"],
    "for all crash points between and inside file operations, all I/O errors, all writer exceptions (before, during and after creating the file) and all process interleavings",
    "The single test uses the success path and one exception on one process; crashes, errors from the filesystem calls, and several processes are never exercised.",
    ["caput/memdata/_io.py", "caput/pipeline/extensions/_extensions.py"],
    [("lock_file context manager", "caput/memdata/_io.py:lock_file"), ("container output write", "caput/pipeline/extensions/_extensions.py")])
add("C07", "Pipelines deliver every product exactly once, in order, and always finish",
    "In any pipeline whose tasks are declared after the tasks that feed them, every item a task produces is delivered to each consumer of that name exactly once and in production order, to the argument position configured, each task sees its setup products before its first item and its finish after its last, and the product of finish flows on like any other. The run ends once no task can make progress, on every process, with the same sequence of task calls on every process regardless of relative speed. A configuration that names a product nothing makes, two makers of one product, an unknown task or setting, or the wrong number of inputs for a task is refused, and a task that returns the wrong number of several products, or a second value for a setup product, stops the run with an error instead of dropping data.",
    ["programs", "histories", "schedules", "configurations"],
    "for all task graphs, numbers of items, limits, early stops and orders of task declaration, on any number of processes",
    "Tests run a handful of fixed two- or three-task pipelines; the space of graphs, item counts and interleavings of queue states is unbounded.",
    ["caput/pipeline/_pipeline.py", "caput/pipeline/tasklib/base.py"],
    [("pipeline execution loop", "caput/pipeline/_pipeline.py:Manager.run"), ("task queues and lifecycle", "caput/pipeline/_pipeline.py:Task")])
add("C08", "Container tasks save, skip and name their outputs consistently on all processes",
    "For every item a container task produces, on every process alike, the output passes through exactly once, carries the tag, attributes and history its configuration defines (the container's own tag, else the first input's tag, else the running count of the items the task has produced), and, if saving is requested, a complete file with that output's data exists under the name the configured pattern defines, and nothing is saved otherwise. If any process's share contains a NaN or infinity and the task is told to skip or dump such outputs, all processes agree on doing so. A task with an iteration limit or that ends early stops at the same item on all processes. A group of tasks used as one task does what its members do one after the other: each member is set up once with the requirements its own setup takes, and each item passes through the members in order until one has no output for it.",
    ["schedules", "inputs", "configurations", "histories"],
    "for all item sequences, NaN placements across ranks, save/naming options, process counts and schedules",
    "Tests run single process and check one saved file; agreement between ranks on NaN, naming and stopping is not tested.",
    ["caput/pipeline/tasklib/base.py", "caput/pipeline/extensions/_extensions.py"],
    [("output processing", "caput/pipeline/tasklib/base.py:ContainerTask"), ("NaN agreement", "caput/pipeline/tasklib/base.py:ContainerTask._nan_process_output")])
add("C09", "Work splitting and parallel helpers cover every item exactly once",
    "Splitting a range or list over processes covers every item exactly once with sizes that differ by at most one, identically computed by every process; mapping a function over a list in parallel returns on every process the list a plain map returns, in order, calling the function once per item over all processes. Gathering or transposing blocks of a distributed array, or writing its rows in parallel to one file, reproduces the whole array, and the helpers complete under any message timing.",
    ["schedules", "inputs", "configurations"],
    "for all list lengths, process counts (more processes than items included), partition methods, root ranks, dtypes and message timings",
    "Tests cover divisible sizes at four processes on one timing.",
    ["caput/util/mpitools.py"],
    [("parallel map", "caput/util/mpitools.py:parallel_map"), ("partitions", "caput/util/mpitools.py:partition_list"), ("block transpose", "caput/util/mpitools.py:transpose_blocks"), ("local gather", "caput/util/mpitools.py:gather_local")])
add("C10", "Background compression of saved files never loses or corrupts the data",
    "When saved Zarr containers are zipped into archives by external jobs, in the foreground or in the background, the source is deleted only after its archive is completely and successfully written, every requested file is processed exactly once over all processes, whatever its name, each item under its own archive name, and the waiting task returns only when every job it was given has ended, which it does whatever those jobs print. A job that fails leaves the data in the source or in a complete archive, and the failure is reported; after a crash of everything at any point the source or a complete archive exists.",
    ["schedules", "fault_sequences", "crash_points"],
    "for all job durations, job failures, numbers of files and processes and orders in which jobs end",
    "There is no test of these tasks; job timing and failures need a controlled process model.",
    ["caput/pipeline/tasklib/io.py"],
    [("zip job queue", "caput/pipeline/tasklib/io.py:ZipZarrContainers"), ("wait for jobs", "caput/pipeline/tasklib/io.py:WaitZarrZip")])
add("C11", "Multithreaded random numbers depend only on the seed and thread count",
    "For a given seed, number of threads and call sequence, the multithreaded random generator returns bit-identical arrays whatever the order in which its worker threads run, every element of the requested output is filled exactly once with a fresh draw, and successive calls never repeat the stream. The array has the requested shape, type and parameters, an output array passed in is the one filled, and a failing worker is reported instead of leaving elements unfilled.",
    ["schedules", "inputs", "histories"],
    "for all worker schedules, sizes (smaller than the thread count included), distributions, dtypes and call sequences",
    "Tests check moments of one large draw on the operating system's schedule; they cannot vary the order of the workers.",
    ["caput/algorithms/random.py"],
    [("threaded generator", "caput/algorithms/random.py:MultithreadedRNG")])
add("C12", "Random tasks are reproducible and independent across processes",
    "A task with a configured seed gives the same random streams on every run with the same number of processes, each process draws from its own distinct stream, and the result does not depend on process speed. When no seed is configured all processes use the one seed chosen once, which is recorded so that the run can be repeated.",
    ["schedules", "configurations", "inputs"],
    "for all seeds, process counts, comm timings and orders of first use",
    "Tests run on one process and compare one stream.",
    ["caput/pipeline/tasklib/random.py"],
    [("per-rank seeding", "caput/pipeline/tasklib/random.py:RandomTask")])
add("C13", "The MPI environment check passes on healthy networks and stops on broken ones",
    "The environment check lets the pipeline continue if and only if every process exchanged correct data with every other within the configured time; when a message is lost, late beyond the limit or corrupted, the run is stopped instead of continuing. It always decides within the configured time plus a bounded margin (it polls every few seconds), on all processes, whatever the order of messages and the offsets between their clocks.",
    ["fault_sequences", "schedules", "configurations"],
    "for all message loss, delay and corruption patterns, timeouts and process counts",
    "A unit test can only run it on a healthy network.",
    ["caput/pipeline/tasklib/debug.py"],
    [("environment check", "caput/pipeline/tasklib/debug.py:CheckMPIEnvironment")])
add("C14", "A job is submitted exactly once, under the chosen overwrite rule, with complete files",
    "Queueing a configuration (directly, from the command line, or as every combination of a template's variables) creates its job directory with the configuration and the complete job script and submits that script exactly once to the configured batch system (not at all if asked not to), with the requested resources, mail options, modules, environment, run command and profiling options. If a job directory exists there (or was moved to the final directory), nothing of it is touched and nothing is submitted under the rule 'never'; under 'failed' it is submitted again unless the last job queued there has recorded that it FINISHED; under 'always' it is submitted again. Two simultaneous calls under 'never' submit one job. If any step fails (a wrong configuration, an I/O error, a refused or unanswered submission) an error is raised and nothing incomplete is submitted, and a configuration that is refused leaves no job directory behind. The job records RUNNING while the pipeline runs, then FINISHED or CRASHED according to how it ended, and its output is moved from the temporary to the final directory only if it finished.",
    ["fault_sequences", "histories", "configurations", "crash_points", "schedules"],
    "for all histories of queue calls and job outcomes, overwrite rules, configurations, filesystem and submission failures, crashes of the submitting process, and interleavings of two calls",
    "There are no tests of submission because it needs a batch system, jobs that fail and failures at particular points.",
    ["caput/pipeline/runner/_scheduler/__init__.py", "caput/pipeline/runner/_scheduler/_default_systems.toml", "caput/pipeline/runner/_core.py", "caput/pipeline/runner/_cli.py"],
    [("queueing", "caput/pipeline/runner/_scheduler/__init__.py:queue"), ("job scripts", "caput/pipeline/runner/_scheduler/_default_systems.toml"), ("templates", "caput/pipeline/runner/_core.py:template_run"), ("command line", "caput/pipeline/runner/_cli.py")])
add("C15", "A shortage of memory on any process is refused by all processes alike",
    "When a redistribution or allocation check finds too little memory on any process, every process raises the memory error and none is left waiting, the source data is unchanged, and the same operation succeeds later when memory is available; when all have enough, no process refuses, and a process that cannot read its memory figures neither refuses nor leaves the others waiting. The number of CPUs reported to a process is its share of its node's.",
    ["fault_sequences", "schedules", "configurations"],
    "for all placements of processes on nodes, per-process/per-node memory figures, requested sizes and timings",
    "A test cannot make one node short of memory.",
    ["caput/util/mpitools.py", "caput/mpiarray.py"],
    [("memory check", "caput/util/mpitools.py:can_allocate"), ("guard in redistribution", "caput/mpiarray.py:MPIArray.redistribute")])
add("C16", "An uncaught error on one process stops every process",
    "With the MPI exception hook enabled, an uncaught exception of any kind on any process ends the whole run, as failed, on all processes in bounded time, after reporting the error and flushing pending output (and even if the output streams are broken), so that no process waits forever for the failed one; without an error, or without the hook, no run is ended. Log filtering shows each message exactly on the processes whose level for their rank allows it, marked with the right rank.",
    ["fault_sequences", "crash_points", "schedules"],
    "for all ranks and points at which the error is raised, all operations the other ranks are blocked in, and all schedules",
    "A test process cannot survive the abort it would need to observe.",
    ["caput/util/mpitools.py", "caput/pipeline/tasklib/base.py"],
    [("exception hook", "caput/util/mpitools.py:enable_mpi_exception_handler"), ("log filter", "caput/util/mpitools.py:MPILogFilter")])
add("C17", "Concatenating acquisitions gives the whole time stream",
    "Joining time-ordered data from any number of files (HDF5 or zarr, opened on disk or loaded with axis selections) or objects, common or distributed over an axis other than time, on any number of processes, into memory or a file, with any start and stop (counted from either end, clipped at the ends) and choice of datasets, gives exactly the selected part of the concatenation of the inputs for every time-dependent dataset and time axis in the order of the inputs (files matching a pattern in sorted order), leaves other data, axes and attributes equal to the first input's, and modifies neither the inputs nor the caller's arguments. A reader's time range selects exactly the samples at or after its start and before its stop. All processes agree on the result.",
    ["inputs", "configurations", "schedules"],
    "for all splits of a time stream over files, start/stop values (negative, beyond the ends), dataset selections, distributed flags and process counts",
    "Tests join two or three fixed files in one process.",
    ["caput/containers/tod.py"],
    [("concatenation", "caput/containers/tod.py:concatenate"), ("multi-file read", "caput/containers/tod.py:TOData.from_mult_files")])
add("C18", "Selecting along axes copies exactly the selected data",
    "Copying datasets between containers with axis selections given as slices or lists, tuples or arrays of indices (copy_datasets_filter), into a container whose axes reflect the selection, copies exactly the selected elements of every dataset that has a selected axis (and whole datasets without one if asked to), none of the excluded ones, with their attributes, for distributed and common datasets alike and also for selections along the distributed axis; each copy ends up distributed over the axis its source is. The source's values and distribution and the caller's selection are left unchanged, and a distributed dataset is never put into a common one.",
    ["inputs", "configurations", "schedules"],
    "for all selections, axes, distributed axes, process counts and subsets of datasets",
    "The function has no tests at all.",
    ["caput/containers/_util.py"],
    [("filtered dataset copy", "caput/containers/_util.py:copy_datasets_filter")])
add("C19", "Usage profiling stops with the code it profiles and reports exactly its interval",
    "A profiled block always ends its sampling thread, whether the block returns or raises, whatever the order of the two threads and whichever step of the profiler fails, and never changes the block's own result or exception. The reported figures cover exactly the block, whatever the wall clock does: elapsed time, CPU and I/O counters and memory change are those between its start and end, memory figures are those at its end, and the peak memory is one actually reached, at least the use at the end and at least any level held for a second. Each process writes its own files in the directory asked for, one row per block under one header, equal to what is reported; when switched off nothing is written. A profiled pipeline accounts for every task step once.",
    ["schedules", "fault_sequences", "histories"],
    "for all interleavings of the sampling threads with the blocks, durations, nestings, clock jumps, stalls, exceptions, process counts and failures of psutil, threads or files",
    "Tests cannot choose when the sampler runs relative to the end of the block, or what the machine reports.",
    ["caput/util/profiler.py", "caput/pipeline/_pipeline.py"],
    [("sampling profiler", "caput/util/profiler.py:PSUtilProfiler"), ("profiling wrapper", "caput/util/profiler.py:Profiler"), ("I/O usage", "caput/util/profiler.py:IOUsage")])
add("C20", "Containers keep axes, datasets and history consistent on every process",
    "A container created from a definition (or from another container) has on every process every required axis and dataset with the global shape its axes define, distributed over the axis the definition names. Redistributing by name, number or list moves every distributed dataset to the first of the given axes it has and leaves the others. Copies (copy_from, dsets_from, empty_like, copy) and saving and loading again, with axis selections or without, preserve values, attributes, index maps and (for full copies) history. All processes perform the same collective steps in the same order irrespective of set ordering.",
    ["histories", "configurations", "schedules", "inputs"],
    "for all container definitions, axis lengths, redistribution sequences, copies and process counts",
    "Tests create a few fixed containers in one process.",
    ["caput/containers/_core.py", "caput/containers/tod.py"],
    [("container creation", "caput/containers/_core.py:ContainerPrototype"), ("redistribution by name", "caput/containers/_core.py:Container.redistribute")])
# -- not addressable by simulation ------------------------------------------------
add("C21", "Numerical kernels agree with their mathematical definition",
    "Safe inversion, weighted medians, fast Fourier transforms, polyphase filter banks and precision truncation return, for every finite input and allowed parameter, the value their definition gives within the stated tolerance.",
    ["inputs"], "for all arrays, dtypes, weights and precisions",
    "The tests sample a few random arrays.",
    ["caput/algorithms/_invert_no_zero/_invert_no_zero.pyx", "caput/algorithms/median/weighted.pyx", "caput/algorithms/fft/fftw.py", "caput/util/truncate.pyx", "caput/util/pfb.py"],
    [("numerical kernels", "caput/algorithms")])
add("C22", "Time and coordinate conversions are consistent inverses",
    "Converting between time scales, sidereal angles, local coordinates and spherical bases and back returns the original value within tolerance for every date, location and direction supported.",
    ["inputs"], "for all dates, locations and directions",
    "The tests compare a handful of fixed dates.",
    ["caput/astro/time.py", "caput/astro/observer.py", "caput/astro/coordinates/spherical.py"],
    [("conversions", "caput/astro")])
add("C23", "Configured attributes hold validated values",
    "Every declared configuration attribute of an object holds the configured value converted by its declared type, its default otherwise, inherits through subclasses, and an invalid or unknown value is refused.",
    ["inputs", "programs"], "for all class hierarchies and configuration trees",
    "The tests cover a few classes.",
    ["caput/config.py"], [("configuration reader", "caput/config.py:Reader")])

add("C24", "Tasks that load files deliver exactly the configured data, alike on all processes",
    "A task that loads container files delivers, on every process, each file its configuration names exactly once per mention, in the configured order with the matches of a pattern in name order whatever order each process sees the directory in; with exactly the selected part of the data and of the axes, distributed (over the requested axis) or not as configured, as the class that wrote it, and tagged by its own tag or else by its file name or input. Lists and groups of files expand to the same names on every process, a missing file is reported by all processes alike, and a saving task writes every item to a file of its own.",
    ["schedules", "inputs", "configurations", "histories"],
    "for all sets of files, directory orders, patterns, selections, distributions, process counts and schedules",
    "The tests load single files in one process; directory order, agreement between processes and several loading tasks are not tested.",
    ["caput/pipeline/tasklib/io.py"],
    [("loading tasks", "caput/pipeline/tasklib/io.py:BaseLoadFiles"), ("file lists", "caput/pipeline/tasklib/io.py:list_or_glob"), ("selections", "caput/pipeline/tasklib/io.py:SelectionsMixin")])

add("C25", "Tasks that read and write their own files process each input once and leave complete files",
    "A task with at most one input and one output (SingleBase, IterBase, with group or container I/O) is given, on every process, each configured file in order or each item of the pipeline (cast to its type, whatever the item is, empty ones included) exactly once, passes each output on, and leaves every output that is not None complete under its configured name, in a directory made as needed by whichever process comes first, whether the output is in memory, distributed, or on disk in HDF5 or zarr; outputs that are None and tasks without an output root write nothing. Files of groups are published all-or-nothing with no temporary or lock file left. A configuration with no or two sources or the wrong arguments is refused, and a missing input or a missing output name is reported by every process. The configuration and the module versions of a run can be saved with it and read back equal.",
    ["inputs", "configurations", "schedules", "fault_sequences"],
    "for all item sequences and kinds, names, formats, process counts, I/O errors and schedules",
    "There are no tests of these tasks' file handling.",
    ["caput/pipeline/extensions/_extensions.py", "caput/pipeline/tasklib/debug.py"],
    [("read, process, write", "caput/pipeline/extensions/_extensions.py:_OneAndOne.read_process_write"), ("iteration", "caput/pipeline/extensions/_extensions.py:IterBase"), ("group output", "caput/pipeline/extensions/_extensions.py:GroupIOMixin.write_output")])
add("C26", "Astronomical data is found, fetched or refused alike, and its files are never left broken",
    "The time scale and ephemeris come from the data directory (the path given, else $CAPUT_SKYFIELD_PATH, else the package's own) without any network request if the file is there, else from the official source, and only if that fails from the mirror; if that fails too an OSError is raised and the next call tries again. Once loaded, the same object is returned without asking again, until a reload, which asks only the official sources, reports their failure, and after which the new data are used. Whatever processes ask at once, whichever download is refused, times out or breaks off, and wherever everything is killed, a data file under its own name is always one complete version.",
    ["fault_sequences", "schedules", "crash_points", "histories"],
    "for all sequences of calls on all processes, network failures of the official source and the mirror, I/O errors, crashes and files present at first",
    "The tests use the files already present or skip; failing downloads, several processes and crashes are not tested.",
    ["caput/astro/skyfield.py"],
    [("data loading with fallback", "caput/astro/skyfield.py:SkyfieldWrapper.timescale"), ("ephemeris", "caput/astro/skyfield.py:SkyfieldWrapper.ephemeris"), ("reload", "caput/astro/skyfield.py:SkyfieldWrapper.reload")])
add("C27", "A container on disk and its copies in memory or in other files hold the same data",
    "A container created or opened on disk, in HDF5 or Zarr, shows exactly what was put into it, by this or an earlier opening of its file, whatever order of creating, writing, deleting, flushing, closing and reopening was used; bringing it into memory, copying it, saving it or moving it to another file, in either format, gives a container or a file of the same class with the same groups, datasets and attributes, independent of the original, which is unchanged. After a flush its file holds everything even if the process is killed; after a close the file is closed, while a file opened by somebody else stays open. Several processes that have one Zarr container open for distributed writing lose none of each other's writes and leave no locks behind.",
    ["histories", "schedules", "crash_points", "fault_sequences"],
    "for all sequences of these operations on several containers at once, file formats, open modes, container classes, numbers of processes and schedules",
    "Tests open one file and read it back; moving between formats, long histories, kills after a flush and several writers are not tested.",
    ["caput/memdata/_memh5.py", "caput/memdata/fileformats.py"],
    [("containers on disk", "caput/memdata/_memh5.py:MemDiskGroup"), ("copy between formats", "caput/memdata/_memh5.py:deep_group_copy"), ("file formats", "caput/memdata/fileformats.py:FileFormat")])
add("C28", "Truncating data loses no more than the allowed precision, however the data are distributed",
    "Truncating the datasets of a container changes no element of a truncated dataset by more than its relative precision allows, or, where a weight is given, by more than the error that raises the variance its weight stands for by the given fraction, each element with the weight of its own position, matched by axis names and not by axis order; elements with zero weight or without weight fall back on the relative precision; what is kept is as coarse as the precision implies; datasets not named, weights, index maps, attributes and the distribution of every dataset are untouched bit for bit; and the result is the same whatever the number of processes and over whichever axes data and weights are distributed.",
    ["inputs", "configurations", "schedules", "histories"],
    "for all containers, presets, precisions, weights, distributions of data and weights, process counts and schedules",
    "There is no test of truncation of distributed datasets; the kernel tests use small positive arrays.",
    ["caput/pipeline/tasklib/io.py", "caput/util/truncate.pyx"],
    [("truncation task", "caput/pipeline/tasklib/io.py:Truncate"), ("truncation kernels", "caput/util/truncate.pyx")])
add("C29", "Fourier transforms do not depend on what was transformed before, on the number of CPUs or on the number of processes",
    "Whatever was transformed before with the same FFT object, with other objects or by other processes, and however many CPUs there are, each forward or backward transform, convolution and window gives the result numpy defines for its input over the chosen axes (within rounding), for inputs in any memory layout, as a new array; the arrays handed in, the arrays returned earlier and distributed arrays transformed part by part stay as they were, also when an input is refused; asking an object for a direction it was not made for raises RuntimeError and an object for real numbers TypeError; and transforming a distributed array axis by axis, redistributing in between, gives the transform of the whole.",
    ["inputs", "histories", "configurations", "schedules"],
    "for all sequences of transforms on several objects, array shapes, axes, precisions, memory layouts, CPU counts, process counts and schedules",
    "Tests transform one or two contiguous arrays once, and do not look at the inputs afterwards.",
    ["caput/algorithms/fft/fftw.py", "caput/algorithms/fft/__init__.py"],
    [("FFT objects", "caput/algorithms/fft/fftw.py:FFTW"), ("one-off transforms", "caput/algorithms/fft/fftw.py:fft"), ("scipy re-exports", "caput/algorithms/fft/__init__.py:_set_workers")])
add("C30", "Chunking and compression asked for are what the files get, on any number of processes, and files can be loaded and saved again",
    "The chunk shape and the compression filter with its options given for a dataset when it is created, by its container class or by the configuration of the task that saves it stay with the dataset through copying, redistributing and converting between common and distributed, and are, clipped to the shape of the whole dataset, exactly what the dataset gets in an HDF5 or zarr file (in the equivalent form of that format), whichever number of processes write it, as a whole tree, by a task or array by array; a dataset without settings is stored uncompressed. A file written so can be loaded, or opened on disk, and saved again in either format, keeping chunks and HDF5 compression as well as the data and attributes; settings lost in loading can be restored from the container class.",
    ["configurations", "histories", "inputs", "schedules"],
    "for all chunk shapes, filters and ways to write their options, file formats, process counts, distributions and sequences of these operations",
    "Tests save once with one setting; saving what was loaded, overriding by tasks, conversions and several processes are not combined.",
    ["caput/memdata/_memh5.py", "caput/memdata/fileformats.py", "caput/mpiarray.py", "caput/pipeline/tasklib/base.py", "caput/containers/_core.py"],
    [("format-specific compression arguments", "caput/memdata/fileformats.py:FileFormat.compression_kwargs"), ("copying trees", "caput/memdata/_memh5.py:deep_group_copy"), ("array files", "caput/mpiarray.py:MPIArray.to_file"), ("settings of a task", "caput/pipeline/tasklib/base.py:ContainerTask._save_output"), ("settings of a class", "caput/containers/_core.py:ContainerPrototype.add_dataset")])

add("C31", "With parallel HDF5 all processes make the same collective calls, and the files are the same as without it",
    "Where h5py is built with MPI, writing distributed arrays, trees or containers to HDF5 and reading them, on all processes or those of a sub-communicator, by file name or in a file or group the caller opened, finishes on every process: each opens the file on the communicator of the data, takes part in the same collective calls in the same order with the same arguments, uses collective transfers only when every process has a part, never writes compressed data independently, and moves no more than the size limit at once; what can't be written under these rules is refused by every process alike. The file then holds, as any other reader sees it, exactly the whole arrays, empty ones included, with the chunks and compression asked for, and reading it distributed over any axis, with selections, gives the same as reading it whole; a file opened by the caller stays open.",
    ["inputs", "schedules", "configurations", "faults"],
    "for all array shapes (empty and shorter than the number of processes included), types, memory layouts, axes, selections, chunkings, compressions, communicators, process counts, transfer limits and schedules",
    "The tests run with an h5py without MPI support, where none of this code is reached.",
    ["caput/mpiarray.py", "caput/memdata/_io.py", "caput/memdata/_memh5.py"],
    [("parallel writing", "caput/mpiarray.py:MPIArray.to_hdf5"), ("parallel reading", "caput/mpiarray.py:MPIArray.from_file"), ("splitting of large transfers", "caput/mpiarray.py:MPIArray._partition_io"), ("opening with MPI-IO", "caput/memdata/_io.py:open_h5py_mpi"), ("distributed trees", "caput/memdata/_memh5.py:_distributed_group_to_file")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
