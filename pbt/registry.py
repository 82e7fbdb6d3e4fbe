"""Case counts and non-triviality rules, per property."""

ASSUMPTIONS = [
    "cupy and gt4py are not installed here: arrays are those of numpy, or of stand-ins (C32)",
    "Hypothesis 6.170 generates and shrinks; the interpreter and numpy are trusted",
]
SIM = "MPI is replaced by a deterministic simulation with mpi4py buffer semantics (pbt/sim.py)"
GEOM = "the tile arrangement oracle is pbt/cube.py (a cube in integer coordinates)"

SPECS = {
    "C01": {
        "quick": 8000, "thorough": 60000,
        "rule": "a case is a layout (also 1xN and rectangular), cells per rank, dims in any "
                "order incl. staggered, vertical and unrelated ones, over which the slices of "
                "all ranks are laid out; non-trivial: several ranks per tile and more than "
                "one cell per rank",
    },
    "C03": {
        "quick": 7200, "thorough": 30000,
        "rule": "a case is a rectangular layout plus a history of boundary lookups; "
                "non-trivial: more than one rank along both directions",
    },
    "C02": {
        "quick": 3600, "thorough": 20000, "assumptions": [GEOM],
        "rule": "a case is a square layout 1..6 (1..7) plus a history of boundary lookups "
                "(and full sweeps over all ranks and boundary types), with caller-side "
                "mutation of results; non-trivial: some lookup crosses a tile edge",
    },
    "C04": {
        "quick": 960, "thorough": 6000, "assumptions": [SIM, GEOM],
        "rule": "a case is layout, cells per rank, staggering, extra dims, dim order, "
                "padding, memory layout, dtype, 1-3 successive updates and a schedule; "
                "non-trivial: more than one cell per rank or more than one rank per tile",
    },
    "C05": {
        "quick": 480, "thorough": 6000, "assumptions": [SIM, GEOM],
        "rule": "a case is layout, cells per rank, one of four staggerings, extra dims, dim "
                "order, padding and memory layout per component, signed dtype, 1-3 updates "
                "and a schedule; non-trivial: more than one cell per rank or rank per tile",
    },
    "C06": {
        "quick": 2000, "thorough": 16000, "assumptions": [SIM, GEOM],
        "rule": "a case is layout, cells per rank, extra dims, dim order, padding and memory "
                "layout per component, signed dtype and a schedule, all values distinct per "
                "rank; non-trivial: more than one cell per rank (reversals are visible)",
    },
    "C07": {
        "quick": 640, "thorough": 9000, "assumptions": [SIM, GEOM],
        "technique": "stateful property-based testing under a generated schedule",
        "rule": "a case is a grid, 1-4 slots (scalar, vector or interface exchange), a "
                "history of starts, waits, blocking exchanges, scatters, gathers, barriers "
                "and fresh communicators, and a schedule (policy, seed, send mode); "
                "non-trivial: at least two exchanges in flight at once",
    },
    "C08": {
        "quick": 1280, "thorough": 9000, "assumptions": [SIM, GEOM],
        "technique": "stateful property-based testing with injected invalid calls",
        "rule": "as C07 with invalid calls mixed in (zero width, wider than the halo, wrong "
                "grid); non-trivial: at least one call had to be rejected",
    },
    "C09": {
        "quick": 2400, "thorough": 24000, "assumptions": [SIM],
        "technique": "stateful property-based testing under a generated schedule",
        "rule": "a case is a tile or cube communicator, layout, cells, halos, dims, dtypes and "
                "memory layouts on both sides, a history of scatters (mixed with gathers and "
                "fresh communicators) and a schedule; non-trivial: several ranks and a "
                "field with a horizontal dimension",
    },
    "C10": {
        "quick": 2400, "thorough": 24000, "assumptions": [SIM],
        "technique": "stateful property-based testing under a generated schedule",
        "rule": "as C09 with gathers and scatter-gather round trips; non-trivial: as C09",
    },
    "C11": {
        "quick": 2400, "thorough": 24000, "assumptions": [SIM],
        "technique": "stateful property-based testing under a generated schedule",
        "rule": "a case is a communicator, a set of variables with their own dims and dtypes, "
                "insertion orders per rank, presence of time, preallocated subsets, a history "
                "of state transfers and a schedule; non-trivial: several ranks and variables",
    },
    "C12": {
        "quick": 8000, "thorough": 80000,
        "technique": "stateful property-based testing",
        "rule": "a case is a history of nested acquisitions and releases of pool, send and "
                "receive buffers with exceptions; non-trivial: a released buffer's memory was handed out again",
    },
    "C13": {
        "quick": 12000, "thorough": 120000,
        "rule": "a case is a quantity (dims, origin, extent, padding, memory layout, dtype) "
                "and an index of ints and slices per axis (any step); non-trivial: some "
                "origin is non-zero and the index is not empty",
    },
    "C14": {
        "quick": 12000, "thorough": 120000,
        "rule": "as C13 for the corner, interior and named views; non-trivial: as C13",
    },
    "C15": {
        "quick": 8000, "thorough": 80000,
        "rule": "a case is a quantity and a target order of names and dimension groups; "
                "non-trivial: the order really changes",
    },
    "C16": {
        "quick": 8000, "thorough": 60000,
        "rule": "a case is constructor input (arrays, lists, scalars, given or defaulted "
                "metadata, also inconsistent) and a history of accessor uses; non-trivial: "
                "some origin is non-zero or metadata is defaulted",
    },
    "C17": {
        "quick": 1280, "thorough": 12000, "assumptions": [SIM, "zarr 2.18 stores and reads"],
        "technique": "stateful property-based testing under a generated schedule",
        "rule": "a case is a layout, cells per rank, 1-3 variables (dims in any order and "
                "staggering, dtype, halo, memory layout), 1-4 snapshots, calendar and times, "
                "store type, mode, and a schedule; non-trivial: several snapshots and a halo",
    },
    "C18": {
        "quick": 1280, "thorough": 12000, "assumptions": [SIM, "a store access is atomic"],
        "technique": "schedule fuzzing: ranks switch at every store access and message",
        "rule": "as C17 on a shared store where every read and write of a key is a scheduling "
                "point; non-trivial: several snapshots and a variable of two or more dims",
    },
    "C19": {
        "quick": 2400, "thorough": 20000, "assumptions": [SIM],
        "technique": "stateful property-based testing with injected invalid calls",
        "rule": "a case is a history of consistent and inconsistent snapshots (names, units, "
                "dims, lengths, calendar) in one process or on ranks; non-trivial: a snapshot "
                "was stored after a rejection, or ranks rejected one",
    },
    "C20": {
        "quick": 4800, "thorough": 40000,
        "assumptions": ["the scipy NetCDF 3 back end of xarray reads what it wrote"],
        "technique": "stateful property-based testing",
        "rule": "a case is two states (names, also of dimensions; dims, halos, dtypes, special "
                "values, units, also of time; calendar and time), two files (path, URL, in "
                "memory) and a history of writes, reads, invalid writes, files with an invalid "
                "time and changes to what was read; non-trivial: something with a halo was "
                "written and read back",
    },
    "C21": {
        "quick": 1200, "thorough": 12000, "assumptions": [SIM],
        "technique": "property-based testing under a generated schedule",
        "rule": "a case is a generated six-tile restart directory (variables, files, label, "
                "decoy files, calendar), layout, cells, one or two openings with filters and "
                "destination states, and a schedule; non-trivial: at least two variables",
    },
    "C23": {
        "quick": 7200, "thorough": 30000,
        "rule": "a case is 1-4 variables with dims, halos and memory layouts on both sides, "
                "timescales for some, a timestep, 1-3 steps, missing variables; non-trivial: "
                "a nudged variable has a halo",
    },
    "C24": {
        "quick": 12000, "thorough": 60000,
        "rule": "a case is a layout, rank, staggering, halos, extra dims, direction, width, "
                "memory layout, dtype and repetition; non-trivial: the rank touches a corner",
    },
    "C22": {
        "quick": 18000, "thorough": 100000,
        "rule": "a case is a generated coupler file (calendar, valid or invalid date, layout "
                "of the text) or a 64-bit date (unit, year 1-9999, microseconds) under a host "
                "time zone; non-trivial: a valid coupler date or a zone other than UTC",
    },
    "C25": {
        "quick": 12000, "thorough": 80000,
        "technique": "stateful property-based testing",
        "rule": "a case is a history of timer operations with nesting and exceptions; "
                "non-trivial: an interval was completed or the null timer was used",
    },
    "C26": {
        "quick": 7200, "thorough": 40000,
        "technique": "stateful property-based testing with injected exceptions",
        "assumptions": ["/proc/self/fd lists the open descriptors"],
        "rule": "a case is a set of streams (files, pipes, buffered or not) and a history of "
                "nested captures, writes of all kinds and exits by exception; non-trivial: "
                "something was written while captured",
    },
    "C27": {
        "quick": 7200, "thorough": 40000,
        "rule": "a case is a grid specification (namelist and parameters), halo, extra dims, "
                "dim list, dtype; non-trivial: a horizontal dimension was allocated",
    },
    "C28": {
        "quick": 7200, "thorough": 40000, "assumptions": [SIM],
        "technique": "stateful property-based testing, differential against simulated MPI",
        "rule": "a case is a history of single-rank steps (sends, receives, requests, "
                "collectives, steps taken too early, bad buffers; clear of the recorded findings) on 1-6 ranks and a "
                "schedule for the reference; non-trivial: several ranks and at least three "
                "deliveries",
    },
    "C29": {
        "quick": 12000, "thorough": 80000,
        "rule": "a case is an array with dims in any order, rotation counts, dtypes and memory "
                "layouts; non-trivial: more than one point and a real rotation",
    },
    "C30": {
        "quick": 12000, "thorough": 60000,
        "rule": "a case is a pair of unit strings derived from each other by whitespace, case "
                "and content changes; non-trivial: the strings are not identical",
    },
    "C31": {
        "quick": 320, "thorough": 4000, "assumptions": [SIM],
        "technique": "metamorphic property-based testing of whole model programs",
        "rule": "a case is a tile size, scalar and vector variables, a program of up to six "
                "steps (halo updates and stencils, corner filling, vector exchanges, "
                "interface synchronisation, nudging, transposition) and two or three ways to "
                "run it (layouts, changes of layout on the way through gathered states and "
                "files, memory layouts, blocking or not, schedules); non-trivial: some step "
                "communicates",
    },
    "C32": {
        "quick": 1600, "thorough": 20000, "devices": True,
        "assumptions": [SIM, "cupy and gt4py are stand-ins written after their documented "
                        "behaviour (pbt/devices.py)"],
        "technique": "stateful and differential property-based testing",
        "rule": "a case is a quantity on one of six backends, made in one of several ways, "
                "with a history of writes through data, view and storage and of "
                "transpositions, or a model program (as C31) run with numpy arrays and with "
                "other backends; non-trivial: a backend other than numpy, and some "
                "operation",
    },
    "C33": {
        "quick": 12000, "thorough": 60000,
        "rule": "a case is a state of quantities, a way to copy or pickle it, a part of it or "
                "its metadata, and writes to either side through data and views; "
                "non-trivial: some write follows",
    },
    "C34": {
        "quick": 2400, "thorough": 20000, "assumptions": [GEOM],
        "rule": "a case is a torus of ranks (any layout, cells and staggering) or a cube, dims, "
                "memory layouts, dtype, a history of exchanges by hand in any order of the "
                "boundaries, and a width for which there is no room; non-trivial: several "
                "ranks and more than one cell per rank",
    },
    "C35": {
        "quick": 800, "thorough": 9000, "assumptions": [SIM, "a store access is atomic"],
        "technique": "crash-point and fault injection at every store access, under a "
                     "generated schedule",
        "rule": "as C18, with a crash of all ranks or an error of the store at one access "
                "(chosen among those of a run without failure), and sometimes another "
                "monitor on the same store; non-trivial: a snapshot was complete before",
    },
    "C36": {
        "quick": 960, "thorough": 6000, "assumptions": [SIM, GEOM],
        "technique": "stateful property-based testing under a generated schedule",
        "rule": "as C08, with the communicators' timers read, reset and switched on and off in "
                "between, differently per rank; non-trivial: an exchange was timed and a "
                "timer was switched or reset",
    },
    "C37": {
        "quick": 1600, "thorough": 20000, "assumptions": [SIM],
        "technique": "differential property-based testing (with and without the libraries)",
        "rule": "a case is a set of missing optional libraries, a history of operations of the "
                "package and its data, performed with all libraries and with the package "
                "imported where they are missing; non-trivial: several operations or one that "
                "needs a missing library",
    },
    "C38": {
        "quick": 640, "thorough": 6000, "assumptions": [SIM, GEOM],
        "technique": "property-based testing with a process for every rank",
        "rule": "a case is a case of C04-C07, C09-C11, C17 (in a directory), C21 or C31 with at "
                "most 24 ranks, what every rank's process did before by itself, and which hash "
                "seed each process has; non-trivial: the case is so by the rule of that "
                "property",
    },
    "C39": {
        "quick": 144, "thorough": 6000, "assumptions": [SIM], "hang_s": 240.0,
        "technique": "property-based testing of resource invariants over repetitions",
        "rule": "a case is up to four operations (of one process or of all ranks together, some "
                "of which fail or are rejected) repeated 16 times in each of three to twelve phases, "
                "with the same or fresh quantities; non-trivial: it came to an end",
    },
    "C40": {
        "quick": 1200, "thorough": 12000, "assumptions": [SIM, GEOM],
        "technique": "property-based testing under generated partial schedules",
        "rule": "a case is a cube and exchanges that all ranks start strictly one after another, "
                "exchanges that one rank completes while only its neighbours have started "
                "theirs, or operations of one tile's communicator while the other tiles have "
                "not begun or are done; non-trivial: some rank is not involved",
    },
    "C41": {
        "quick": 1200, "thorough": 12000, "assumptions": [SIM],
        "technique": "differential property-based testing (with and without the settings)",
        "rule": "a case is a history of operations of all parts of the package and settings of "
                "the process (optimization, logging, floating point errors, printing, xarray's "
                "options, garbage collection, warnings, locale, directory), performed with and "
                "without them; non-trivial: optimized, with errors raised, a record logged or "
                "another collector",
    },
}

NOT_APPLICABLE = {}
