#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "deterministic discrete-event simulation of a faulty broadcast chain; end-to-end recovery and bounded-progress oracle, independent reference model as third-party node",
    "C02": "deterministic simulation of batching under network faults; per-packet differential oracle against the single-packet API",
    "C03": "deterministic simulation of concurrent callers with seeded preemption at every memory access; differential oracle",
    "C04": "deterministic simulation of context histories with address reuse; fresh-context differential oracle",
    "C05": "deterministic simulation with allocation-failure injection and adversarial conforming allocator",
    "C06": "deterministic simulation with allocation failures; heap conservation oracle over the simulated allocator",
    "C07": "deterministic simulation with concurrent producers and access-checked, guarded, read-only memory",
    "C08": "deterministic simulation with calls torn out and threads killed at seeded instants",
    "C09": "deterministic simulation of same-thread re-entry at seeded instants",
    "C10": "deterministic discrete-event simulation with malformed-length injection; truncated-batch differential oracle",
    "C11": "deterministic simulation interleaving calls with floating-point work under seeded control modes",
    "C12": "deterministic simulation with threads stalled inside calls; bounded-steps progress oracle",
    "C13": "deterministic simulation with seeded memory garbage, placement, environment and long histories; pristine-twin oracle",
    "C18": "deterministic simulation with the process forked at seeded instants; both processes simulated to their end in a seeded order, differential oracle",
    "C19": "deterministic simulation with signals delivered and process state compared at seeded instants of calls",
    "C20": "deterministic simulation with stack exhaustion injected: every call of a seeded history runs on a limited stack",
    "C21": "deterministic simulation of thread and process lifetimes: calls from clean-up code of ending threads, before start-up and after exit functions, at seeded points; pristine-twin oracle",
    "C22": "deterministic simulation of long, crowded and contended histories with the accesses of every call counted; fresh-process oracle",
}
NOTE = {
    "C01": "Seeded search, not proof. Real library code of every build option that compiles here (x86: 64/32-bit, MMX, SSE2, SSSE3, AVX2, gcc and clang, both s-boxes; AArch64 NEON, big-endian PowerPC 64/32 under qemu-user); network, CA messages and third-party nodes are simulated. Trusts the reference model (checked against the published vectors).",
    "C02": "Seeded search. The oracle is the single-packet API of the same tree, on a fresh context. Batches of every fill level, slot, length mix and damage that the simulated network forms.",
    "C03": "Seeded search over preemption points at every instrumented memory access (five scheduling strategies), sequentially consistent: one thread runs at a time, weak memory ordering is not explored.",
    "C04": "Seeded search over histories of context operations, related control words and address reuse, plus long loops; oracle is a fresh context in a pristine copy of the same code.",
    "C05": "Seeded search over failure masks and placements (minimal alignment, page-end, low/high addresses); three allocator paths of the library.",
    "C06": "Every block the library obtains is accounted for in a simulated heap; leaks, double frees and writes after free are exact, reads after free are seen by instrumented accesses.",
    "C07": "Instrumented accesses are checked one by one (instrumented build), packet, descriptor, context and control-word memory is guarded and read-only where it must not be written (shipped build). Vector intrinsics that the compiler does not instrument are covered by guard pages and producers only.",
    "C08": "Calls are cut off by longjmp at a seeded access (also allocator and lock calls) of the instrumented build; the stack of a killed thread is not reused.",
    "C09": "Re-entry at a seeded access of the outer call, up to three levels, instrumented build, with the floating-point state saved as a signal handler's would be.",
    "C10": "Lengths up to 2^32-1 at scramblers and receivers, in every slot the simulated network makes; oracle is the same batch with the lengths cut to the limit, and unchanged bytes behind it.",
    "C11": "x87/MMX register stack, x87 and SSE control settings, AArch64 FPCR and PowerPC rounding mode after every call, with real floating-point work in between; shipped and instrumented builds, gcc and clang.",
    "C12": "A thread is parked in the middle of a call until every other call has returned; a call that waits for it, or spins beyond a step budget, is a violation. Blocking through lock functions the simulator answers, or spinning.",
    "C13": "Oracle: the same call made by a fresh thread with a clean stack and fresh context in a separate, pristine copy of the same code. Histories up to about 10^5 calls (thorough); prolonged to 10^6 when something is seen to count them.",
    "C18": "The simulated process really forks, at a seeded access of a call or between calls, with the other threads wherever the scheduler has brought them; parent and child then run one after the other (either first). Locks, atfork handlers, process identities and shared mappings are simulated. Native x86 builds only: qemu-user cannot fork a process of several threads.",
    "C19": "Signals are really delivered inside calls and the state is really read, at seeded accesses of the instrumented build and after every call of the shipped one. State that no system call shows (registered exit handlers, buffered output of other streams) is not looked at. Signal delivery native only; qemu-user handles masks wrongly.",
    "C20": "Shipped optimisation flags, every build option; 128 KiB below the call are accessible, the rest of the stack is not. Present need is below 64 KiB.",
    "C21": "Threads really end; the calls are made from thread-specific-data destructors before and after the library's own, in up to four rounds. The library's start-up and exit functions (init_array, fini_array, atexit) are taken out of the program and run by the simulator at seeded points. Unloading of a shared library is not simulated.",
    "C22": "Work is counted in instrumented memory accesses and library-requested copies and allocations, not in time. Allowed: twice what the same call makes in a fresh process plus 400, plus what the library does once at its first call.",
}
NA = {
    "C14": "A pure function of one call's input: no schedule, clock, fault or interleaving for a simulation to decide; exhaustive or proof techniques are the right tool. (C01 compares with a reference model inside simulated runs, as a side effect.)",
    "C15": "A timing property; simulated time says nothing about how long the code takes, and the technique decides nothing about performance.",
    "C16": "Pure functions of their operands (header macros), with no nondeterminism or fault a simulator could control.",
    "C17": "A property of the build system; nothing executes in the simulator. (One option, altivec, is known not to compile on any toolchain here; see DESIGN.md.)",
}
checks = [{
    "property": p, "quick_cmd": "VERIF_TIER=quick python3 tools/check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + p,
    "evidence_file": "evidence/%s.json" % p, "technique": TECH[p], "level": "exploration", "level_note": NOTE[p]} for p in sorted(TECH)]
json.dump({"version": 1, "setup_cmd": "python3 tools/build.py x86 a64 p64 p32 > /dev/null", "checks": checks,
           "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
           "notes": "No hook in /repo: the simulator compiles /repo/src itself, with compiler instrumentation and symbol renaming. Two fix: commits in /repo (see known_findings.txt)."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
