"""What each check runs: simulator variant, number of seeds and time limit per tier, and
the facts about the set-up that the evidence repeats."""

FMU = ["FMU entry points (src/fmi2Functions.c, src/fmi3Functions.c)", "FMU core and fixed-step solver (src/cosimulation.c)", "model equations (*/model.c)"]
IMP = ["importer library (src/FMI.c, src/FMI2.c, src/FMI3.c)"]
CALLFEAT = "(model, FMI version, interface type, mode, call, status) combinations"

HISTORY = "hash of the ordered list of the kinds of calls of a run, without their arguments"
SWITCHES = "hash of the ordered list of (who is running, at which scheduling point, who runs next) of a run"
STEPS = "hash of the ordered list of the kinds of calls and of the communication steps of a run, as solver steps and fraction of a solver step beyond the last grid point"


def spec(variant, quick, thorough, real, stub, assumptions, feature=CALLFEAT, schedule=HISTORY):
    return dict(variant=variant, quick=quick, thorough=thorough, real=real, stub=stub, assumptions=assumptions, feature_measure=feature, schedule_measure=schedule)


SE_STUB = ["importer (tasks, clock polling, lock callbacks)", "CPU scheduler (preemption at instrumented memory accesses)"]
SE_ASSUME = ["one CPU: a preempting partition runs to completion before the preempted one continues",
             "the importer polls both clocks atomically inside the clock-update callback",
             "partitions are preempted only by partitions of higher priority and only while preemption is unlocked",
             "memory accesses are the scheduling points; the order of accesses is the one clang produces without optimisation"]
SEFEAT = "(preempted partition, scheduling point within it, preempting partition, depth) combinations"

CHECKS = {
    "C01": spec("tsan", (240000, 90), (1500000, 600), FMU, SE_STUB, SE_ASSUME, SEFEAT, SWITCHES),
    "C02": spec("tsan", (240000, 90), (1500000, 600), FMU, SE_STUB, SE_ASSUME, SEFEAT, SWITCHES),
    "C03": spec("tsan", (240000, 90), (1500000, 600), FMU, SE_STUB, SE_ASSUME, SEFEAT, SWITCHES),
    "C04": spec("tsan", (80000, 90), (1500000, 600), FMU, ["importer threads", "thread scheduler (switches at instrumented memory accesses)", "file system"],
                ["memory accesses are the scheduling points; the order of accesses is the one clang produces without optimisation",
                 "no two threads use the same instance"], "(call interrupted, call resumed) pairs and " + CALLFEAT, SWITCHES),
    "C05": spec("asan", (60000, 90), (1000000, 600), FMU, ["importer", "file system"], []),
    "C06": spec("asan", (60000, 90), (1000000, 600), FMU, ["importer", "process crash (heap dropped, library reloaded)", "file system"],
                ["bytes of the right length are the bytes that were written (bit errors are not judged)"]),
    "C07": spec("asan", (60000, 90), (1000000, 600), FMU, ["importer", "file system"], ["logging settings are not compared"]),
    "C08": spec("asan", (30000, 90), (400000, 600), FMU, ["importer (communication schedule)", "file system"],
                ["communication points differ from solver grid points by more than the tolerance of the implementation (1e-5), or not at all"],
                "(model, solver steps per communication step) and " + CALLFEAT, STEPS),
    "C09": spec("asan", (30000, 90), (400000, 600), FMU, ["importer (communication schedule, event handling)"],
                ["the importer handles a pending event before the next step"], "(model, event mode, early return, solver steps per step, event) and " + CALLFEAT, STEPS),
    "C10": spec("asan", (30000, 90), (400000, 600), FMU, ["importer (Euler integrator, trial evaluations, event iteration)", "file system"],
                ["trial evaluations do not pass an event", "time events are located to 1e-6"]),
    "C11": spec("asan", (60000, 90), (1000000, 600), FMU, ["importer (misbehaving)", "file system"],
                ["calls about which the standard leaves a choice, or where the FMUs are more permissive than the standard, are not judged"],
                "(model, FMI version, interface type, mode, refused call) and " + CALLFEAT),
    "C12": spec("asan", (60000, 90), (1000000, 600), FMU, ["importer", "allocator (decides which allocations fail)", "file system"],
                ["allocations made inside the C library (file buffers) do not fail"]),
    "C13": spec("asan", (60000, 90), (1000000, 600), FMU, ["importer", "file system (names, contents, failing opens and reads)"],
                ["the file starts with an ASCII character other than NUL", "the contents of the file do not change while it is there", "the location has the form the standard prescribes for its FMI version"]),
    "C14": spec("asan", (60000, 90), (1000000, 600), FMU, ["importer (structural changes, Euler integrator)"],
                ["elements of an array whose sizes changed are unspecified until they are set or read"],
                "(sizes, mode) and " + CALLFEAT),
    "C15": spec("asan", (30000, 90), (400000, 600), FMU, ["importer (communication schedule, intermediate update callback)"],
                ["the callback only reads variables"], "(model, event mode, early return, solver steps per step, event) and " + CALLFEAT, STEPS),
    "C16": spec("asan", (40000, 90), (1000000, 600), FMU, ["importer (also misbehaving)", "log callbacks", "file system"],
                ["whether errors are logged is open until it is set if logging is off at instantiation, and after a refused change of the settings or a reset"]),
    "C17": spec("asan", (40000, 90), (1000000, 600), IMP, ["FMU (records its arguments, answers with planned statuses and values)", "caller", "dynamic loader"],
                ["arrays that the library reports by address are not expected in the text of the call log", "outputs are compared only where the FMU wrote them"],
                "(function, status, allocation failed, call log on) combinations"),
    "C18": spec("asan", (60000, 90), (1000000, 600), IMP, ["FMU (records its arguments, answers with planned statuses and values)", "caller", "dynamic loader (failing loads and lookups)", "allocator (decides which allocations fail)"],
                ["the text of a call during which an allocation failed may be incomplete or missing"],
                "(function, status, allocation failed, call log on) combinations"),
    "C19": spec("asan", (60000, 90), (1000000, 600), FMU, ["importer", "file system"],
                ["variables are set only in modes in which the standard and the FMU allow it"]),
    "C23": spec("asan", (24000, 90), (200000, 600), ["example programs (examples/*.c)"] + IMP + FMU, ["file system (durable contents, failing opens, reads, writes and closes)", "allocator (decides which allocations fail)", "dynamic loader (failing loads and lookups)", "process (killed at any call of its environment)"],
                ["allocations made inside the C library (file buffers) do not fail", "only the result file is judged, not the call log"],
                "(program, kinds of faults that occurred, exit status) combinations", "hash of the ordered list of the calls a run makes to its environment"),
}

# technique and level notes for the manifest
NOTES = {
    "C01": ("seeded preemption schedules at memory-access granularity against a counter model",
            "seeded search over preemption schedules of up to 14 top-level activations; not exhaustive"),
    "C02": ("seeded preemption schedules with a polling importer against an exactly-once model",
            "seeded search over preemption schedules of up to 14 top-level activations; not exhaustive"),
    "C03": ("seeded preemption schedules with lock, clock-update and log callbacks as monitors",
            "seeded search over preemption schedules and failing activations; not exhaustive"),
    "C04": ("seeded thread interleavings at memory-access granularity compared with solo executions",
            "seeded search over interleavings of two to four instances; not exhaustive"),
    "C05": ("seeded call histories with saved states, perturbations and restores; continuations compared call by call",
            "seeded search over call histories; not exhaustive"),
    "C06": ("seeded call histories with a crash that only the serialized bytes survive, torn and wrong-length bytes; continuations compared call by call",
            "seeded search over call histories and crash points; not exhaustive"),
    "C07": ("seeded call histories with rejected calls, reset at any point; continuation compared with a new instance",
            "seeded search over call histories; not exhaustive"),
    "C08": ("seeded communication schedules on simulated time; every communication point compared with the solver grid and with reference equations",
            "seeded search over communication schedules of up to 1500 solver steps; not exhaustive"),
    "C09": ("seeded communication schedules with event mode, early return and refused requests against a reference event model",
            "seeded search over schedules of up to 1500 solver steps; not exhaustive"),
    "C10": ("seeded histories of trial evaluations, rejected steps, reordered queries and event iterations of a simulated solver, against reference equations and co-simulation",
            "seeded search over integrations of up to 250 steps; not exhaustive"),
    "C11": ("seeded histories of allowed, disallowed and malformed calls by a misbehaving importer against a model of the FMI state machine, under a memory sanitizer",
            "seeded search over histories of up to 40 calls; not exhaustive"),
    "C12": ("seeded call histories executed without faults and again with a seeded pattern of failing allocations, under a memory sanitizer; results, saved states, bystander and leaks compared",
            "seeded search over histories of up to 25 calls and up to four faulty executions of each; not exhaustive"),
    "C13": ("seeded histories with a simulated file system in which files vanish, opens and reads fail and recover; decoy files at truncated and undecoded paths",
            "seeded search over histories of up to 30 rounds in one or two instances and locations of up to 4300 characters; not exhaustive"),
    "C14": ("seeded histories of configuration, reconfiguration, array access, steps and restored states against a reference model with its own sizes and arrays, under a memory sanitizer",
            "seeded search over histories of up to 45 rounds with sizes 0 to 5; not exhaustive"),
    "C15": ("seeded communication schedules with a reading callback, compared with the solver grid",
            "seeded search over schedules of up to 1500 solver steps; not exhaustive"),
    "C16": ("seeded histories of allowed, disallowed and malformed calls and logging settings in several instances; every message judged by a model of the settings, every result compared with a twin that has other settings",
            "seeded search over histories of up to 40 rounds in two or three instances; not exhaustive"),
    "C17": ("seeded histories of calls of every function of the importer library with arrays of every length, against a simulated FMU that records its arguments and answers with planned statuses and values",
            "seeded search over histories of up to 30 operations in up to three instances; not exhaustive"),
    "C18": ("seeded histories of creation, loading, instantiation, calls and destruction through the importer library with failing allocations, loads and symbol lookups; address sanitizer and accounting of memory and handles",
            "seeded search over histories of up to 30 operations and their fault sequences; not exhaustive"),
    "C23": ("example programs with importer library and FMU run as a whole on a simulated file system, allocator and loader with seeded faults and kills; exit status and result file compared with the next run without faults, under a memory sanitizer",
            "seeded search over fault sequences of 40 programs; not exhaustive"),
    "C19": ("seeded histories of grouped and single sets and gets between steps, events, mode changes and restores, against a map of the values last set",
            "seeded search over histories of up to 45 rounds in one or two instances; not exhaustive"),
}

NOT_APPLICABLE = {
    "C20": "A pure function of the current state: no schedule, time, I/O, fault or multi-party behaviour is involved, so there is nothing to simulate.",
    "C21": "Pure string conversion of its arguments: no schedule, time, I/O, fault or history is involved, so there is nothing to simulate.",
    "C22": "A static comparison of two artefacts (XML and binary): no execution, schedule or fault decides it.",
}
