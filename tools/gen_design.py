import json,os,glob
head = r'''# Deterministic simulation of zernpy

zernpy is a Python library: Zernike polynomials, PSF kernels built from them, saving / reading of kernels as JSON, a pool of
processes for speeding up the integration, random phase images and fitting. It has no network. What meets nondeterminism or
faults is:

* **processes** - the worker pool (`utils/intmproc.py`) and the parallel PSF kernel on top of it (`zernpsf.py`, `calc_psfs.py`);
* **storage** - `save_json` / `read_json` (`zernpsf.py`, `save_psf`, `write_complete_file`, `read_psf` in `calc_psfs.py`);
* **caller threads and asynchronous exceptions** - shared stores of coefficients and caches, state of PSF objects;
* **randomness** - `generate_random_phases` (`zernikepol.py`);
* **clocks** - progress reports and pauses;
* **optional libraries** - numba / joblib may be missing, broken, or fail later.

The properties that depend on one of these (C01-C17) are decided by seeded simulation. The rest (U01-U10) are pure functions of
their input: there is no schedule, fault or crash point for them to depend on, so they are listed as not applicable (last section).

## How a check works

`check.py <ID>` imports the package from `/repo/src` (nothing is built; `ZSIM_REPO_SRC` can point it to a copy), puts every source of
nondeterminism behind a seam, and executes a number of *runs*. One run = one *case* (workload + fault plan, JSON, generated from
`sha256(property, VERIF_SEED, run number)`) plus the *choices* of the run's chooser (all scheduling, delays, instants of faults).
The same case executes identically every time. Runs are distributed over 8 forked children; the first ones are executed again in
other processes and the hashes of their event histories are compared (`determinism_recheck` in the evidence).

A violation is minimised (operations and faults dropped, then scheduling choices replaced by zero, each step re-executed), written to
`replays/<ID>/` with its case, choices and trace, replayed from that file in a fresh process, and only reported if the replay reproduces
it. `check.py <ID> --replay FILE` repeats it (`--trace` shows the events). A failure of the harness itself is never a verdict (exit 2). An
exception that escapes from package code where the run allows none is `unexpected-error`; a run that doesn't end in 100 s of real time
inside package code is `never-returns`.

No hooks were added to `/repo`: the seams are the modules the package imports (`multiprocessing`, `time`, `os`, `random`, `io`), replaced
while it is imported or patched to dispatch to the active simulation (`simlib/env.py`). Checks judge results, file contents and object
states through public calls; they don't look at the source text, private names or line numbers.

### The simulators

`simlib/procsim.py` - **processes in virtual time.** The program and its workers are threads passing a baton; each operation on a process,
event, queue, lock or clock is a scheduling point with a drawn virtual duration, and the task due first continues. Modelled after CPython
3.12 on POSIX/fork: queue feeders with a delay of their own, pickling in the feeder, one pipe per queue of 64 KiB (a writer of more
blocks until it is read), reader locks that a killed process keeps, `Event.set()` waiting for its waiters (it never returns if a waiter has been killed),
exit of a process waiting for its feeder unless cancelled, daemon processes stopped at exit, exit codes, refused starts. Faults: stalls,
kill at any operation / time / by the parent's operations, an exception in the job (also ones that cannot be pickled or unpickled), interrupts of the
parent (before / after any operation, also of the whole process group), memory errors, refused process starts, clock misbehaviour,
overloaded machine (every pause longer), jobs that never end, results bigger than the pipe.

`simlib/thrsim.py` - **threads and asynchronous exceptions.** All code objects of the package are instrumented through `sys.monitoring`.
CPython 3.12 switches threads and delivers KeyboardInterrupt only where it checks its eval breaker: function entry, backward jumps and
after calls of C functions; MemoryError may also strike before calls, operators and constructions of containers. Exactly these are the points
where the simulator hands over the baton or raises. (A first version allowed them between any two instructions; that gave a false
alarm for C12 - `a = x; b = y` cannot be interrupted - and was corrected.) Strategies: few preemptions at drawn distances (PCT),
preemption with probability 1/n, preemption at a few drawn places of the program. `StackRoom` limits the recursion depth, numpy's errors and warnings can be made to raise.

`simlib/fssim.py` - **file operations.** Files are real files in a scratch folder, each operation of the code under test (os / io / pathlib level) is
a scheduling and fault point: error codes valid for the operation (ENOSPC, EIO, EACCES, EMFILE, ...; once or sticky), quota, short and torn writes and reads,
crash of the process before / after an operation, interrupts, and loss of power: a journal tracks what has been made durable (name changes in order,
data only after fsync), and all namespace prefixes with drawn subsets of unsynced data are materialised and examined. Several savers and
readers (threads or separate imports of the package as other processes) are interleaved at every operation. Writes outside of the scratch folder are refused and reported.

`simlib/env.py` - loading of the package with N CPUs, with / without / with broken numba and joblib (stand-ins written as importable modules), clocks,
pristine-state reset between runs (module- and class-level containers and caches are restored), locks that know the simulated threads.

### Evidence

`evidence/<ID>.json` (rewritten by every run): runs, runs and seeds per hour, simulated seconds, steps, how often each fault was injected and in
how many runs, distinct event histories (hash of the sequence of all scheduling events, faults and results), probes (e.g. compared kernels, refused calls),
real and stubbed components, the determinism recheck.
'''
props = {
"C01": ("pool of 1-16 workers, 1-420 parameters of several types (repeated, equal, falsy, arrays, the text 'Started'), results of several types, 1-3 rounds with or without new parameters, drawn job durations and delays, stalls, idle programs (up to a day between rounds), lists changed in place by their owner, overloaded machines with jobs of hours",
        "i-th result equals f(i-th parameter); log of applications equals the multiset of parameters; results returned by earlier rounds are re-examined after each later one",
        "quick 6000 runs, about 55 s"),
"C02": ("the same with job exceptions of ten kinds, kills of workers at drawn operations / times / operations of the parent, refused starts, machines with 1 ... 8 or an unknown number of CPUs, jobs that never end, jobs of minutes, deaths while the program idles, results larger than a pipe, parameters and results that cannot be transferred, lists changed (also emptied) by their owner",
        "every call ends within 20 s of virtual time after the injected stalls, an error (or a warned refusal) only if a fault happened, and every returned list is right",
        "quick 6000 runs, about 25 s; one known finding"),
"C03": ("1-3 pools with interleaved lifetimes (create, compute, update, close, drop, reuse after close), interrupts of the parent or the process group (also two), kills, failures, program exit",
        "results of each pool are its own (tagged values), all workers of a closed / failed / interrupted / dropped pool stop within 12 s, none is alive after the exit, a closed pool refuses",
        "quick 6000 runs, about 30 s"),
"C04": ("PSF objects with simulated workers: histories of accepted and refused settings, init / deinit, serial and parallel kernels, single points with and without workers, reads of files, other objects with workers of their own, kills, interrupts, refused starts",
        "each kernel equals the kernel of a new object with the settings in force computed serially in pristine module state (1e-9); points equal that kernel's entries; a file with the same settings and another polynomial, sizes that are even or not specified",
        "quick 640 runs, about 30 s"),
"C05": ("1-3 savers and 0-2 readers interleaved at each file operation, in one or several processes; old content PSF / large / garbage / empty / none; folders named in several ways and with unusual names; crash, power loss, errors, quota, torn and short writes, interrupts at instructions, failing serialization",
        "at every instant and after every power-loss state, the target holds the old bytes, is absent as before, or holds one complete new document; a later save works",
        "quick 2400 runs, about 15 s"),
"C06": ("a writer with an arbitrary history (accepted / refused settings in all accepted forms, kernels, cropping, reads), saved into folders given in several ways, crash after the save; a reader with another history; the same file saved and read again with other content while its time stamp stands still",
        "all public settings, amplitudes, polynomials and the kernel are restored exactly; reader saves an equal document; same future after the same call; same computed kernel",
        "quick 1600 runs, about 15 s"),
"C07": ("1-3 savers with / without permission, folder as text, path, link, relative, missing, default; bystander files with similar names, read-only files, links; faults as in C05",
        "snapshot of all folders before and after: at most the reported file changed, only with permission, in the folder given; no PSF-like left-over after a failure",
        "quick 2400 runs, about 12 s"),
"C08": ("files truncated at drawn places, with missing / renamed / invalid entries or impossible settings, damaged bytes, another writer rewriting them while they are read, read errors, interrupts and memory errors at instructions",
        "a twin object with the same history that read nothing: equal settings, kernel, plain attributes, path, future kernels and saved document; a truncated or incomplete file is never accepted",
        "quick 2400 runs, about 25 s"),
"C09": ("histories of 3-12 operations on 1-3 objects: accepted and refused settings, kernels (plain, accelerated, parallel), interrupted operations, saves and reads with faults, mutation of arrays and lists passed in or returned, clock misbehaviour, other objects, objects and repeated settings that differ from earlier ones in a single argument",
        "kernel equals that of a new object with the settings in force (1e-9), computed in pristine module state",
        "quick 1600 runs, about 50 s"),
"C10": ("kernel, cropping, convolution, save, plotting stopped at a drawn instruction by KeyboardInterrupt, MemoryError, stack exhaustion, numpy errors or warnings turned into errors; the same for the parallel kernel in the process simulator",
        "stored kernel is the previous one or the complete new one, settings unchanged, arrays handed out earlier unchanged, next computation right",
        "quick 2000 runs, about 75 s"),
"C11": ("histories and 2-4 threads of evaluations (value, radial part, derivatives, sums, surfaces) of orders up to 45 with interrupts, memory errors, stack exhaustion, preemption; stores filled far beyond their start; results overwritten by the caller",
        "exact rational arithmetic (definition) up to order 40 and the value a pristine import computes; returned arrays never change, share no memory",
        "quick 6000 runs, about 60 s"),
"C12": ("settings calls with about 80 kinds of invalid / odd arguments, objects whose methods raise while they are read, warnings as errors, failing stdout, interrupts, stack exhaustion",
        "if the call raised: settings, next kernel, next save document and the effect of the next settings call equal those of a twin that never got the call (also the kernel computed on simulated workers); if not: those of a new object",
        "quick 4000 runs, about 75 s"),
"C13": ("1-4 threads with operations on their own objects (values, sums, coordinates, phases, fits, images of several types and memory layouts, PSFs, convolution, save, random phases, plots) on arrays of several layouts and types and angles in and out of the usual range, preempted; callers writing into what they gave or got",
        "results equal those of the isolated execution; inputs bit-identical; no shared memory; earlier results unchanged",
        "quick 3000 runs, about 45 s"),
"C14": ("numba present / python stand-in / absent / broken in ten ways / failing while compiling or at a later call, joblib likewise; histories of kernels with acceleration None / True / False, zero, negligible and large amplitudes",
        "kernel equals the plain one (1e-9; piston: accuracy of integration) or an explicit error; import always succeeds",
        "quick 2000 runs, about 115 s"),
"C15": ("random sources: real generator with seeds, adversarial streams (nothing selected, everything, one at a drawn place, extreme and nearly negligible amplitudes), stopped generations before, other users of the generator",
        "image equals the independently computed sum of polynomials, an amplitude of at least 0.08, all within +-1.5, fit returns them, the same stream gives the same image",
        "quick 4000 runs, about 20 s"),
"C16": ("clocks frozen, fast, slow, jumping, stepping back, leaping; verbosity on / off; overloaded machine and jobs of hours in the process simulator; up to 420 parameters; kernels of up to 510x36 or 320x300 integration points",
        "results equal those with a calm clock; no call gives up; no exception",
        "quick 2400 runs, about 180 s"),
"C17": ("drawn settings of the program (numpy error handling, print options, filters, seeds, environment, umask, recursion limit, gc, rcParams, decimal, signals, open figures), then histories of completed, refused and disturbed calls (interrupt, memory error, stack, numpy errors, warnings as errors at drawn instants), preempted threads, saves and reads with failing file operations, pools with interrupts, refused starts, killed workers, imports with every state of numba",
        "about 40 kinds of process-wide state read before and after each call: equal; no file left open, no thread left running, figures of the program untouched",
        "quick 3000 runs, about 60 s"),
}
notes = r'''
Tolerances: kernels are compared with rtol 1e-9 (different order of summation is allowed), polynomials with a tolerance growing with the radial
order as the recursion's rounding does (measured on the exact reference). All other comparisons are exact.

Bounds: kernels are mostly 3x3 - 7x7 with 20-40 integration points (one integrand evaluation exercises all code; larger kernels in C06,
C10, C16), at most 420 parameters per pool run, at most 4 threads, 3 savers + 2 readers.

## Known findings, repairs, and behaviour left alone

`known_findings.jsonl` lists one unrepaired finding (C02): a worker waiting for its trigger that is killed in the instant between the
liveness check of the main process and its `Event.set()` makes `set()` wait for ever - CPython's implementation of Event; avoiding it needs another
way of signalling between the processes. It is recognised only by that exact history (the process was alive at the last check of the
calling task, no more than two operations ago, and died while waiting); all other hangs are violations. 26 genuine defects were repaired by `fix:`
commits (also listed there); each check reports its defect again if the commit is reverted.

Seen and left alone, because no listed property is affected or the behaviour is documented / harmless: `ZernPSF(5)` raises nothing; file names of
several polynomials use numpy's abbreviated print of amplitudes; a folder that doesn't exist falls back to `saved_psfs` in the working folder; a NaN
as NA is accepted; nested amplitude lists are accepted for a single polynomial; a numba version with two components ("0.57") is not parsed.

False alarms that were corrected in the machinery (never listed as findings): preemption between any two instructions (C12, C11); C08 accepted a
document assembled of two complete ones by short reads as a violation (no reader can tell); C13 harness altering shared inputs itself; C14 piston (exact
equation against integration) and orders the accelerated form refuses; C15 rounding to zero digits (draw of exactly 0 gives an amplitude outside of the
range: the property says at least one digit); C02 harness counted the job number after the job had slept; C16 / C01: timed waits on an overloaded machine ended before the pauses of the other side did;
C17 counted fonts that matplotlib keeps open and descriptors of an open() that reported an error after opening.

Limits of the model: preemption only where CPython 3.12 with the GIL can preempt (a race between `k in d` and `d[k]` without a call in between cannot happen
there and is not reported); spawn start method and Windows are not simulated; numba's own compiler is used only in a few C14 runs ("present"), the other
accelerated runs execute the same functions uncompiled; numpy / scipy internals are not interrupted.
'''
na = {json.loads(l)['id']: json.loads(l) for l in open('properties.jsonl')}
man = json.load(open('MANIFEST.json'))
out = [head, "\n## Properties\n", "| id | simulated environment and workload | oracle | cost |", "|---|---|---|---|"]
for k,(a,b,c) in props.items(): out.append(f"| {k} | {a} | {b} | {c} |")
out.append(notes)
out.append("## Planted changes (`seeded/`) and what catches them\n")
out.append("Each has been confirmed in a scratch copy: applies, builds, the 15 tests pass, its demonstration passes on the unchanged tree and fails with the change. "
           "The check of its property reports all of them in the quick tier unless stated otherwise.\n")
out.append("| change | caught by | needs |"); out.append("|---|---|---|")
caught = json.load(open('tools/caught.json')) if os.path.exists('tools/caught.json') else {}
for b in sorted(glob.glob('seeded/*')):
    d=json.load(open(b+'/meta.json')); n=os.path.basename(b)
    out.append(f"| {n} | {caught.get(n, d['property'])} | {d['needs']} |")
out.append("\n## Not applicable\n")
for x in man['not_applicable']:
    out.append(f"* **{x.get('property', x.get('id'))}** {na[x.get('property', x.get('id'))]['title']} - {x['reason']}")
open('DESIGN.md','w').write("\n".join(out)+"\n")
