import json
T={
"C01":("deterministic simulation: seeded schedules of concurrent callers, results compared with each call's solo result in a fresh library state, plus the race detector under the simulated scheduler",
 "Seeded search: tens of thousands of runs per invocation, each one schedule of real library code at statement/shared-access granularity with stalls, panicking callers and restarts. A data race is judged by happens-before in the race-built runs. Trusts the AST instrumenter, the simulator's sync model and the Go race detector; math/big and strconv of the Go library run real but are not preempted inside."),
"C02":("deterministic simulation: the caller's argument is sampled at every instrumented step of every schedule, readers and the race detector run alongside",
 "Seeded search. The argument's value, sign, precision, mode and accuracy are compared at every scheduling point of each call, so transient changes that are undone before return are seen unless they happen and are undone inside one math/big call."),
"C03":("deterministic simulation: seeded histories in which owners overwrite results and arguments in place (fault injection on owned memory), held results and later calls checked",
 "Seeded search over histories and schedules; every held result is re-compared after each owner write, every later call with the fresh-process answer."),
"C04":("deterministic simulation: seeded call histories with recovered panics, pointer/near-duplicate input reuse, virtual time and library restarts, refinement against the fresh-process answer",
 "Seeded search over histories (including runs of thousands of calls); the oracle is the same call made first in a fresh library state in the same binary."),
"C05":("deterministic simulation: seeded schedules with stalls and panicking callers, deadlock/livelock detection and bounded-progress check after faults stop",
 "Seeded search. Deadlock is exact (no runnable task while calls are open); livelock is judged by a step bound far above the longest legitimate call."),
"C06":("deterministic simulation: appends into disjoint windows of one shared array under seeded schedules, the array compared at every step, plus the race detector",
 "Seeded search. The whole array (neighbour windows, old content, spare capacity owned by others) is compared at every scheduling point."),
"C07":("deterministic simulation: panicking calls injected at arbitrary points of seeded schedules, calls in progress and later calls checked for their usual result and for progress",
 "Seeded search over placements of every panicking entry point; library state is compared through the answers of later calls and through blocking."),
"C08":("deterministic simulation: real generator code run in simulated environments that differ in clock, entropy, map order, scheduling, CPUs, environment, pid, names and old output; outputs compared byte for byte",
 "Seeded search over environments. The file system, clock, randomness and process identity are simulated; text/template, math/big and the library run real."),
"C09":("deterministic simulation with injected I/O faults: every open/read/write/sync/rename/close of the generators can fail, be short or fill the disk; a reported success is checked against the complete golden output",
 "Seeded search over fault placements (each operation index reached, each error kind, singly and in pairs); the oracle is the fault-free output of the same generator plus a completeness check against the template."),
"C21":("deterministic simulation with crash injection: chains of real generator runs on one simulated disk, each killed at a seeded I/O operation or byte, failed by an I/O error or cut off by power loss with torn and lost unsynced writes; then an undisturbed run compared with the golden output",
 "Seeded search over crash placements and chains. The simulated disk keeps an undo log of unsynced effects; a power loss keeps a seeded subset. The oracle is the fault-free output of the same generator in a clean directory."),
"C22":("deterministic simulation of long histories: thousands of calls (one input or ever new ones, panicking ones, overlapping ones under seeded schedules) with virtual time let run out afterwards; reachable memory, goroutines and timers measured and confirmed over up to four million calls",
 "Seeded search over call mixes. Memory is what the Go collector finds reachable after pools are emptied and virtual time has passed. Growth seen in a short run is reported only if it goes on over a history many times longer, so bounded caches, pools and workers do not alarm; growth below about 700 bytes per run of the short histories is not seen."),
"C23":("deterministic simulation of two or three generator processes on one simulated disk under seeded schedules of their I/O operations, with processes stopped at any operation, killed or failing; outputs, exit statuses and progress compared with a run alone",
 "Seeded search over interleavings of I/O operations, among them the schedules in which one process is stopped at one operation, another runs up to some operation, and the first goes on. Each process has its own environment, identity, random state and package variables; the file system and the clock are shared. Kills and errors are injected only into runs whose output path no other run has."),
"C24":("deterministic simulation with everything the code can do to its process or to the outside replaced by recording stand-ins: seeded histories and interleavings of calls, with panics, stalls and jumps of time; any recorded effect that belongs to no answer is a violation",
 "Seeded search over histories and schedules. Package initialisation, calls and background work are all covered. What is recorded: files, standard streams, log, environment, directory, exit, programs, signals, random source, CPU count, collector and runtime settings, variables of the standard library. An effect that only a direct system call or unsafe access could have is not modelled; the build then ends with status 2."),
"C25":("deterministic simulation of processes with generated surroundings (environment variables, files that are asked for, clock and time zone, CPUs, seeds, identity, arguments, failing and short I/O): each call's answer compared with its answer in a plain process",
 "Seeded search over surroundings, calls and schedules. Variables and files are present under whatever name the code asks for. The oracle is the same call made first in a fresh process with plain surroundings; a difference is reported only if it disappears with plain surroundings (else it belongs to C01 or C04)."),
}
why="a pure function of one input: no schedule, clock, fault, history, randomness or I/O can influence it, so there is nothing for a simulator to control; "
NA={
"C10":why+"deciding it is input-space verification of decoding (the simulation only checks that decoding is the same under every schedule and history: C01, C04).",
"C11":why+"deciding it is input-space verification of rounding against a reference (C01/C04 cover its independence of schedule and history).",
"C12":why+"deciding it is input-space comparison of the returned accuracy.",
"C13":why+"deciding it is an input-space round-trip check (it is known to fail for some double-double inputs; DESIGN.md).",
"C14":why+"deciding it is input-space verification of narrowing.",
"C15":why+"deciding it is inspection of a finite set of special inputs, with no fault or interleaving (a history that changes an exported special value is covered by C03/C04).",
"C16":why+"deciding it is input-space verification of three predicates.",
"C17":why+"deciding it is input-space comparison with strconv.",
"C18":why+"deciding it is input-space comparison with strconv.",
"C19":why+"it concerns single calls on single inputs; panics that do happen are treated as the call's answer in C01, C04, C07.",
"C20":why+"the generators' PRNG has a fixed seed, so the emitted vectors are one fixed data set; that it is the same in every environment is C08, that it is written completely is C09.",
}
m={"version":1,"setup_cmd":"./check.sh setup",
"checks":[{"property":p,"quick_cmd":f"./check.sh {p} quick","thorough_cmd":f"./check.sh {p} thorough","technique":t,"level":"exploration","level_note":n} for p,(t,n) in T.items()],
"not_applicable":[{"property":p,"reason":r} for p,r in NA.items()],
"notes":"No hooks in /repo: the checks instrument a copy of /repo's working tree at build time (AST rewriting in sim/instr) so every scheduling, time, randomness and I/O seam is under the simulator. Replay a violation with ./check.sh replay FILE."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
open("/verif/MANIFEST.json","a").write("\n")
