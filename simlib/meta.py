"""Static description of each check: technique, what the verdict means, what was real, what was stubbed."""

_POOL_REAL = ["DispenserManager and IndiWorker (zernpy.utils.intmproc)", "worker function (radial_integral_s or harness function)",
              "pickle of parameters, results and exceptions"]
_POOL_STUB = ["processes (threads passing a baton)", "multiprocessing queues, pipes, events, locks (byte-exact CPython 3.12 semantics: feeder "
              "thread, semaphores, partial pipe writes)", "signals, exit handlers, clocks, time.sleep, os.cpu_count"]
_THR_REAL = ["all zernpy code", "numpy, scipy"]
_THR_STUB = ["the GIL's choice of the running thread / the instant of an asynchronous exception (decided at instruction boundaries by the seed)"]
_FS_REAL = ["all zernpy code", "json, pathlib, io buffering and text layers", "the kernel's file system for the final byte state"]
_FS_STUB = ["every file system call of the code under test (order, result, split, failure, crash point decided by the seed)",
            "volatile disk cache (journal model replayed after power loss)", "process id and thread id of simulated writers"]

META = {
    "C01": ("seeded deterministic simulation of processes and message delivery, results checked against f(p) and an application log", _POOL_REAL, _POOL_STUB),
    "C02": ("seeded deterministic simulation of processes with fault injection (raise, kill, refused start, stall), bounded-time liveness", _POOL_REAL, _POOL_STUB),
    "C03": ("seeded deterministic simulation of several pools with interrupts, crashes and exits; process-leak and cross-talk invariants", _POOL_REAL, _POOL_STUB),
    "C04": ("seeded deterministic simulation of ZernPSF histories on simulated workers with faults; refinement against a fresh serial object",
            ["ZernPSF and all calculation code"] + _POOL_REAL, _POOL_STUB),
    "C05": ("seeded simulation of file operations with crash, power-loss and I/O-error injection and concurrent readers", _FS_REAL, _FS_STUB),
    "C06": ("seeded simulation of save/read histories over arbitrary prior object states with crashes after the save; refinement against the writer", _FS_REAL, _FS_STUB),
    "C07": ("seeded simulation of saves with I/O faults, races and bystander files; frame condition on the folder", _FS_REAL, _FS_STUB),
    "C08": ("seeded corruption, truncation, read-fault and interrupt injection during reads; all-or-nothing state oracle", _FS_REAL, _FS_STUB),
    "C09": ("seeded histories of calls, rejections, interrupts, clock and file faults; refinement against a fresh object", _THR_REAL, _THR_STUB),
    "C10": ("asynchronous-exception injection at seeded instruction boundaries; old-or-new oracle", _THR_REAL, _THR_STUB),
    "C11": ("seeded evaluation histories, thread interleavings and interrupts; exact rational reference", _THR_REAL, _THR_STUB),
    "C12": ("seeded settings histories with failing arguments, warnings-as-errors and interrupts; all-or-nothing oracle", _THR_REAL, _THR_STUB),
    "C13": ("seeded preemptive thread schedules of concurrent callers; comparison with isolated execution and input fingerprints", _THR_REAL, _THR_STUB),
    "C14": ("seeded configurations and mid-history failures of the optional libraries; refinement against the plain computation", _THR_REAL, ["availability of numba and joblib"]),
    "C15": ("seeded and adversarial random streams behind the generator seam; consistency oracle", _THR_REAL, ["random number stream"]),
    "C16": ("seeded adversarial clocks behind the time seam, verbosity on and off; comparison with a calm clock", _THR_REAL, ["all clocks and sleeping"]),
    "C17": ("seeded histories, thread interleavings, interrupts, file and process faults under drawn settings of the surrounding program; frame condition on process-wide state",
            ["all zernpy code", "numpy, scipy, matplotlib (Agg)"], ["the instant of an exception or thread switch", "file operations and processes while they fail"]),
}
NOTE = ("Seeded search, not exhaustive: a pass means no violation in the simulated runs of this seed (counts in the evidence file). "
        "Trusted: the simulator's model of the stubbed components, CPython/numpy/scipy.")


def describe(mod):
    t = META[mod.ID]
    for k, v in (("TECHNIQUE", t[0]), ("REAL", t[1]), ("STUB", t[2]), ("LEVEL_NOTE", NOTE),
                 ("ASSUMPTIONS", ["the stubbed components behave like the real ones (see stubbed_components and DESIGN.md)",
                                  "faults are limited to the kinds listed under faults_injected"])):
        if not hasattr(mod, k):
            setattr(mod, k, v)
    return mod
