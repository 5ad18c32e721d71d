#!/usr/bin/env python3
"""check.py PROPERTY: seeded simulated runs of one property on /repo's working tree.

VERIF_SEED picks the seeds, VERIF_TIER (quick, thorough) how many.
exit 0: held on everything explored; 1: violation (VIOLATION line, replay file);
2: no answer."""
import concurrent.futures, json, os, queue, subprocess, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, simlib

T0 = time.monotonic()
clock = lambda: time.monotonic() - T0
CHAIN = ("C01", "C02", "C10")
# seeds per property and architecture: quick, thorough
N = {
    #        x86          a64         p64         p32
    "C01": [(15600, 60000), (300, 2500), (300, 2500), (250, 1500)],
    "C02": [(15600, 60000), (250, 2500), (250, 2500), (200, 1500)],
    "C03": [(45000, 150000), (300, 2500), (300, 2500), (200, 1500)],
    "C04": [(45000, 150000), (300, 2500), (300, 2500), (200, 1500)],
    "C05": [(60000, 200000), (600, 3000), (400, 3000), (300, 1500)],
    "C06": [(60000, 200000), (400, 3000), (400, 3000), (300, 1500)],
    "C07": [(60000, 200000), (400, 3000), (400, 3000), (300, 1500)],
    "C08": [(42000, 150000), (300, 2500), (300, 2500), (200, 1500)],
    "C09": [(36000, 120000), (300, 2500), (300, 2500), (200, 1500)],
    "C10": [(12000, 50000), (250, 2500), (250, 2500), (200, 1500)],
    "C11": [(54000, 150000), (500, 3000), (300, 2500), (200, 1500)],
    "C12": [(42000, 120000), (300, 2500), (300, 2500), (200, 1500)],
    "C13": [(45000, 120000), (300, 2500), (300, 2500), (200, 1500)],
    "C18": [(48000, 120000), (0, 0), (0, 0), (0, 0)],           # qemu-user cannot fork a process of several threads
    "C19": [(48000, 120000), (300, 2500), (300, 2500), (200, 1500)],
    "C20": [(48000, 150000), (500, 3000), (500, 3000), (400, 2000)],
    "C21": [(48000, 150000), (400, 2500), (400, 2500), (300, 1500)],
    "C22": [(24000, 120000), (250, 2500), (250, 2500), (200, 1500)],
}
ARCH = ["x86", "a64", "p64", "p32"]
WALL = (110, 780)                # seconds of search, at most
RULE = {
    "C01": "a seed makes one broadcast chain (nodes, builds, control words, traffic, faults) and its simulated run; non-trivial: intact packets were checked and at least one link or node fault, deadline flush or key-change flush happened",
    "C02": "a seed makes one broadcast chain; non-trivial: several batches were processed, a partial one among them, with a fault, key-change flush or short packet",
    "C03": "a seed makes one multi-threaded history and schedule; non-trivial: at least one thread was preempted in the middle of a call",
    "C04": "a seed makes one history of context operations; non-trivial: a call was preempted, an address reused, a long loop run, or there were at least 8 calls",
    "C05": "a seed makes one history with allocation failures and placements; non-trivial: a context was allocated, an allocation failed or NULL was freed",
    "C06": "a seed makes one history of context operations; non-trivial: something was freed or an allocation failed",
    "C07": "a seed makes one placement of packets and one schedule of calls and producers; non-trivial: packets of different calls were adjacent or a call was preempted",
    "C08": "a seed makes one history with calls torn out at chosen instants; non-trivial: a call really was torn out or its thread killed in the middle",
    "C09": "a seed makes one history with calls interrupted by calls; non-trivial: at least one call ran nested inside another",
    "C10": "a seed makes one broadcast chain; non-trivial: a batch contained an over-long packet",
    "C11": "a seed makes one interleaving of calls and floating-point work; non-trivial: at least two calls ran under a chosen floating-point mode",
    "C12": "a seed makes one multi-threaded history; non-trivial: a thread was stopped in the middle of a call while others went on",
    "C18": "a seed makes one multi-threaded history and schedule with a fork at a chosen instant; non-trivial: the process really forked",
    "C19": "a seed makes one history with signals coming in at chosen instants of calls; non-trivial: signals were delivered inside calls or the process state was compared at least twice",
    "C20": "a seed makes one history of calls on a limited stack; non-trivial: a call ran on a limited stack",
    "C21": "a seed makes one history of calls by threads that end and are replaced, with start-up and exit functions run at chosen points; non-trivial: a call was made while its thread ended, before the library's start-up functions or after its exit functions",
    "C22": "a seed makes one history and schedule; non-trivial: the accesses of a call were compared with those of the same call in a fresh process",
    "C13": "a seed makes one history, placement, memory content and environment; non-trivial: garbage, address reuse, preemption or a long loop occurred",
}


def main():
    prop = sys.argv[1]
    seed0 = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = 1 if os.environ.get("VERIF_TIER", "quick") == "thorough" else 0
    wall = WALL[tier]
    scale = float(os.environ.get("SIM_SCALE", "1"))
    first = seed0 * 10000000
    infos, errs = {}, {}

    def b(a):
        try:
            infos[a] = build.build(a)
        except Exception as e:        # noqa: a target that does not build is noted, not judged here
            errs[a] = str(e)[-1500:]
    ths = [threading.Thread(target=b, args=(a,)) for a in ARCH]
    [t.start() for t in ths]
    [t.join() for t in ths]
    if "x86" not in infos:
        print("build failed:\n" + errs.get("x86", ""), file=sys.stderr)
        return 2
    if not infos["x86"]["variants"]:
        print("no variant builds:\n%s" % infos["x86"]["failed"], file=sys.stderr)
        return 2
    for a in ARCH:
        if a in errs:
            print("note: %s is not covered: %s" % (a, errs[a].strip().splitlines()[-1] if errs[a].strip() else ""))
        else:
            for v in infos[a]["failed"]:
                print("note: build option %s/%s does not compile and is not covered" % (a, v))
    t_build = clock()

    ncpu = min(8, os.cpu_count() or 8)
    units = queue.Queue()
    plan = []
    for ai, a in enumerate(ARCH):
        if a in infos and infos[a]["variants"]:
            if not N[prop][ai][tier]:
                continue
            n = max(1, int(N[prop][ai][tier] * scale))
            base = first + ai * 2000000
            per = max(10, -(-n // (ncpu * (6 if tier else 3)))) if a == "x86" else max(10, -(-n // 4))
            per = min(per, 1000)
            s = base
            while s < base + n:
                plan.append((a, s, min(per, base + n - s)))
                s += per
    # slow targets first, but with some native work from the start: that finds and shows faults quickest
    native = [u for u in plan if u[0] == "x86"]
    for u in native[:3] + [u for u in plan if u[0] != "x86"] + native[3:]:
        units.put(u)
    stop = threading.Event()
    viol, infra, lock = [], [], threading.Lock()
    hashes, scheds, nontriv = {}, set(), set()
    ctr, varruns, runs = {}, {}, {}
    skipped = [0]
    procs = set()
    slow = {}
    found_at = []           # when a violation was first seen, on an emulated target

    def worker(cpu):
        while not stop.is_set():
            try:
                a, s, n = units.get_nowait()
            except queue.Empty:
                return
            left = t_build + wall - clock()
            if left <= 0 or (found_at and a != "x86"):
                with lock:
                    skipped[0] += n
                continue
            info = infos[a]
            p = subprocess.Popen(info["run"] + [info["bin"], "work", prop, str(s), str(n), str(tier), str(int(left * 1000))],
                                 stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace",
                                 env=simlib.env(cpu=cpu, cpulimit=None if a == "x86" else 60))
            with lock:
                procs.add((p, a))
            done = 0
            for line in p.stdout:
                if line.startswith("H "):
                    f = line.split()
                    with lock:
                        hashes[(a, int(f[1]))] = f[2]
                        scheds.add(f[3])
                        if f[4] == "1":
                            nontriv.add(f[2])
                        done += 1
                elif line.startswith("V "):
                    r = simlib.parse_report(line.rstrip("\n"))
                    r["arch"] = a
                    with lock:
                        (viol if r["status"] == 2 else infra).append(r)
                    if r["status"] == 2:
                        if a == "x86":
                            stop.set()
                        else:
                            found_at.append(clock())
                elif line.startswith("N "):
                    _, k, v = line.split()
                    with lock:
                        ctr[k] = ctr.get(k, 0) + int(v)
                elif line.startswith("X "):
                    with lock:
                        slow[a] = max(slow.get(a, 0), int(line.split()[1]))
                elif line.startswith("W "):
                    _, k, v = line.split()
                    with lock:
                        varruns[k] = varruns.get(k, 0) + int(v)
            rc = p.wait()
            with lock:
                procs.discard((p, a))
                runs[a] = runs.get(a, 0) + done
                if rc and not stop.is_set() and not found_at:
                    infra.append(dict(arch=a, seed=s, cls="worker", msg="worker ended with %d" % rc))
                if done < n and not stop.is_set() and not found_at:
                    skipped[0] += n - done
    ws = [threading.Thread(target=worker, args=(i,)) for i in range(ncpu)]
    [w.start() for w in ws]
    while any(w.is_alive() for w in ws):
        if found_at and not stop.is_set():
            # a native run that shows it too is quicker to minimise: look a little longer
            if clock() > found_at[0] + (20 if any(v["cls"] == "hang" for v in viol) else 4):
                stop.set()
            else:
                with lock:
                    for p, pa in list(procs):
                        if pa != "x86":
                            p.kill()
        if stop.is_set():
            time.sleep(0.3)
            with lock:
                for p, _ in list(procs):
                    p.kill()
        for w in ws:
            w.join(0.1)
    t_search = clock() - t_build

    # the same seeds once more, on another core: the run must be the same
    resample = []
    for a in infos:
        ks = sorted(k for k in hashes if k[0] == a)
        resample += ks[::max(1, len(ks) // (24 if a == "x86" else 3))][: (24 if a == "x86" else 3)]
    mism = []

    def again(k):
        a, s = k
        out = simlib.run_sim(infos[a], ["work", prop, str(s), "1", str(tier), "100000"], cpulimit=None if a == "x86" else 60)
        for l in out.splitlines():
            if l.startswith("H ") and l.split()[2] != hashes[k]:
                mism.append(k)
    if not viol:
        with concurrent.futures.ThreadPoolExecutor(ncpu) as ex:
            list(ex.map(again, resample))

    # gate, minimise, report
    rc, reported = 0, None
    unrepro = []
    for v in sorted(viol, key=lambda v: (ARCH.index(v["arch"]), v["seed"])):
        info = infos[v["arch"]]
        r1, rec = simlib.record(info, prop, v["seed"], tier)
        if not simlib.same(r1, v):
            unrepro.append(v)
            continue
        text = rec
        r2 = simlib.run_plan(info, text)
        if not simlib.same(r2, v, exact=False):
            text = simlib.gen(info, prop, v["seed"], tier)
            r2 = simlib.run_plan(info, text)
            if not simlib.same(r2, v, exact=False):
                unrepro.append(v)
                continue
        n0 = len(text.splitlines())
        small, tried = simlib.minimise(info, text, v, clock() + (35 if not tier else 60), clock)
        a1, a2 = simlib.run_plan(info, small), simlib.run_plan(info, small)
        if not (simlib.same(a1, v, exact=False) and simlib.same(a1, a2)):
            small = text
            a1, a2 = simlib.run_plan(info, small), simlib.run_plan(info, small)
            if not (simlib.same(a1, v, exact=False) and simlib.same(a1, a2)):
                unrepro.append(v)
                continue
        d = os.path.join(build.VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%d.plan" % (prop, v["arch"], v["seed"]))
        with open(path, "w") as f:
            f.write("# property=%s arch=%s seed=%d class=%s hash=%s\n# %s\n# replay: python3 %s/tools/replay.py %s\n%s" %
                    (prop, v["arch"], v["seed"], a1["cls"], a1["hash"], a1["msg"], build.VERIF, path, small))
        print("seed %d (%s): %s: %s" % (v["seed"], v["arch"], a1["cls"], a1["msg"]))
        print("minimised from %d to %d plan lines in %d executions; replayed twice with the same result (hash %s)" % (n0, len(small.splitlines()), tried, a1["hash"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc, reported = 1, dict(seed=v["seed"], arch=v["arch"], cls=a1["cls"], msg=a1["msg"], replay=path)
        break
    if not reported and unrepro:
        print("violations that did not replay: %s" % unrepro[:3], file=sys.stderr)
        rc = 2
    if not reported and infra:
        print("simulator errors: %s" % infra[:5], file=sys.stderr)
        if len(infra) > 0.01 * max(1, sum(runs.values())):
            rc = 2
    if mism:
        print("note: %d of %d re-run seeds gave another hash: %s" % (len(mism), len(resample), mism[:5]), file=sys.stderr)

    total = sum(runs.values())
    samples = []
    try:
        for s in (first, first + 1):
            g = simlib.gen(infos["x86"], prop, s, tier).splitlines()
            samples.append({"seed": s, "plan_lines": len(g), "plan_head": [l[:220] for l in g if l[0] != "K"][:14]})
    except Exception as e:            # noqa
        samples.append(str(e))
    chain = prop in CHAIN
    faults = {k: ctr[k] for k in (
        "dropped", "duplicated", "reordered", "bit_errors", "truncated", "bad_length", "over_limit_packets", "partition_losses", "crashes", "restarts",
        "node_stalls", "ecm_lost", "oom_at_rekey", "deadline_flushes", "key_change_flushes", "partial_batches",
        "preemptions_inside_calls", "calls_torn_out", "threads_killed", "nested_calls", "threads_stalled", "allocation_failures", "address_reuse",
        "forks", "threads_lost_in_mid_call_by_fork", "signals_delivered_in_calls", "threads_replaced", "calls_on_small_stacks", "lengths_stated_beyond_limit", "contexts_in_crowds", "garbage_stack", "garbage_heap", "fp_modes_set", "free_null", "adjacent_foreign_packets", "loop_iterations") if ctr.get(k)}
    ev = {
        "property": prop, "tier": "thorough" if tier else "quick", "seed": seed0, "level": "exploration",
        "coverage": {
            "evaluations": total,
            "distinct_nontrivial": len(nontriv),
            "rule": RULE[prop] + "; distinct: by hash of the whole recorded history",
            "samples": samples,
            "simulated_runs": runs,
            "runs_and_seeds_per_hour": int(total / max(t_search, 0.01) * 3600),
            "seeds_planned_but_not_run": skipped[0],
            "slowest_run_cpu_ms": slow,
            "simulated_time": ("%.3f s of broadcast time" % (ctr.get("simulated_us", 0) / 1e6)) if chain else
                              ("no clock in this property; %d instrumented memory accesses, each one a scheduling point" % ctr.get("instrumented_accesses", 0)),
            "faults_injected": faults,
            "distinct_interleavings": len(scheds),
            "interleaving_measure": "hash of every batch boundary and the order of packets in it" if chain else "hash of every thread switch and fired fault with its position inside the call",
            "other_counters": {k: v for k, v in ctr.items() if k not in faults},
            "runs_per_build_option": varruns,
            "real_code": "all of the library's own sources from /repo/src, one copy per build option",
            "stubbed": "memory allocation, locks, clocks, randomness and environment of the library process (answered by the simulator); " +
                       ("broadcast network, conditional-access messages, third-party equipment (reference model)" if chain else "thread scheduler, signals"),
            "determinism_resample": {"seeds_run_again": len(resample) if not viol else 0, "different": len(mism)},
            "targets_not_built": errs, "build_options_not_built": {a: list(infos[a]["failed"]) for a in infos if infos[a]["failed"]},
            "externals_without_simulated_answer": {a: infos[a]["unknown"] for a in infos if infos[a]["unknown"]},
            "simulator_errors": len(infra),
        },
        "assumptions": [
            "a preemption or tear-out happens between two memory accesses of the instrumented build; the shipped (plain) build is exercised without preemption",
            "AArch64 and PowerPC code runs under qemu-user",
            "the x86 host orders memory as simulated: one thread runs at a time, so weak memory reordering is not explored",
        ],
        "wall_s": round(clock(), 2),
        "violations": 1 if reported else 0,
    }
    if reported:
        ev["coverage"]["violation"] = reported
    os.makedirs(os.path.join(build.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(build.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d runs (%d distinct non-trivial, %d interleavings) in %.1fs search + %.1fs build; result %d" % (prop, total, len(nontriv), len(scheds), t_search, t_build, rc))
    return rc


if __name__ == "__main__":
    sys.exit(main())
