"""Running the simulator, gating what it reports, minimising, replaying."""
import concurrent.futures, os, re, subprocess, sys, tempfile
import build

VERIF = build.VERIF
JOBS = min(8, os.cpu_count() or 8)


def env(cpu=None, cpulimit=None):
    e = dict(os.environ)
    e.pop("SIM_NOASLR", None)
    if cpu is not None:
        e["SIM_CPU"] = str(cpu)
    if cpulimit:
        e["SIM_CPULIMIT"] = str(cpulimit)
    return e


def parse_report(line):
    m = re.match(r"(\w) seed=(\d+) status=(\d+) hash=(\w+) sched=(\w+) cls=(\S+) msg=(.*)", line)
    return dict(tag=m[1], seed=int(m[2]), status=int(m[3]), hash=m[4], sched=m[5], cls=m[6], msg=m[7]) if m else None


def run_sim(info, args, timeout=240, **kw):
    r = subprocess.run(info["run"] + [info["bin"]] + args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                       text=True, errors="replace", timeout=timeout, env=env(**dict(dict(cpulimit=None if info["arch"] == "x86" else 60), **kw)))
    return r.stdout


def run_plan(info, text, cpu=None, cpulimit=None):
    """One execution of a plan in a fresh process."""
    with tempfile.NamedTemporaryFile("w", suffix=".plan", delete=False) as f:
        f.write(text)
    try:
        out = run_sim(info, ["run", f.name], cpu=cpu, **(dict(cpulimit=cpulimit) if cpulimit else {}))
    except subprocess.TimeoutExpired:
        return None
    finally:
        os.unlink(f.name)
    for l in out.splitlines():
        r = parse_report(l)
        if r:
            return r
    return None


def record(info, prop, seed, tier):
    out = run_sim(info, ["record", prop, str(seed), str(tier)])
    i = out.find("\n")
    return parse_report(out[:i]), out[i + 1:]


def gen(info, prop, seed, tier):
    return run_sim(info, ["gen", prop, str(seed), str(tier)])


def same(a, b, exact=True):
    return bool(a and b and a["status"] == b["status"] == 2 and a["cls"] == b["cls"] and (not exact or a["hash"] == b["hash"]))


def expand(lines):
    """chain plans: one line per packet, so that packets can be left out"""
    out = []
    for l in lines:
        if l.startswith("G "):
            m = re.match(r"G id=(\d+) t=(\d+) svc=(\d+) gap=(\d+) p=(.*)", l)
            i, t, gap = int(m[1]), int(m[2]), int(m[4])
            for k, p in enumerate(m[5].split(",")):
                if p:
                    out.append("G id=%d t=%d svc=%s gap=0 p=%s" % (i + k, t + k * gap, m[3], p))
        else:
            out.append(l)
    return out


def minimise(info, text, ref, deadline, clock):
    """Delta debugging over the plan's operations, faults, packets and switches;
    a candidate counts only if it shows the same kind of violation."""
    lines = [l for l in text.split("\n") if l]
    tried = [0]
    pool = concurrent.futures.ThreadPoolExecutor(JOBS)

    def test(ls):
        if clock() > deadline:
            return False
        tried[0] += 1
        # what hangs at last is run once more with the full limit
        r = run_plan(info, "\n".join(ls) + "\n", cpulimit=2 if ref["cls"] == "hang" and info["arch"] == "x86" else None)
        return same(r, ref, exact=False)

    if lines[0].startswith("C"):
        ex = expand(lines)
        if ex != lines and test(ex):
            lines = ex
    # a forced order instead of a recorded one is simpler: try without any switch
    fixed = lambda l: l[0] in "MCK#"
    cand = [l for l in lines if l[0] != "S"]
    if len(cand) < len(lines) and test(cand):
        lines = cand
    def ddmin(fixed):
        nonlocal lines
        body = [i for i, l in enumerate(lines) if not fixed(l)]
        n = 2
        while len(body) >= 1 and clock() < deadline:
            size = max(1, len(body) // n)
            done = False
            ats = list(range(0, len(body), size))
            # as many candidates at a time as there are cores; the first that still fails is kept
            for g in range(0, len(ats), JOBS):
                cs = []
                for at in ats[g:g + JOBS]:
                    drop = set(body[at:at + size])
                    cs.append([l for i, l in enumerate(lines) if i not in drop])
                hit = next((c for c, ok in zip(cs, pool.map(test, cs)) if ok), None)
                if hit is not None:
                    lines = hit
                    body = [i for i, l in enumerate(lines) if not fixed(l)]
                    n = max(2, n - 1)
                    done = True
                    break
                if clock() > deadline:
                    break
            if not done:
                if size == 1:
                    break
                n = min(len(body), n * 2)

    ddmin(fixed)
    if lines[0].startswith("C"):
        ddmin(lambda l: l[0] != "K")
    # fewer packets per operation
    for i in range(len(lines)):
        if lines[i].startswith("O ") and " p=" in lines[i]:
            head, pk = lines[i].split(" p=", 1)
            pk = [p for p in pk.split(",") if p]
            step = len(pk) // 2
            while step >= 1 and clock() < deadline:
                at = 0
                while at < len(pk) and len(pk) > 1 and clock() < deadline:
                    c = pk[:at] + pk[at + step:]
                    if c and test(lines[:i] + [head + " p=" + ",".join(c)] + lines[i + 1:]):
                        pk = c
                        lines[i] = head + " p=" + ",".join(pk)
                    else:
                        at += step
                step //= 2
    # a plainer world
    for key in ("sg", "fp", "garb", "guard", "reuse", "minal", "hbase", "abase", "descg", "cwpl", "env"):
        c = re.sub(r" %s=\d+" % key, " %s=0" % key, lines[0])
        if c != lines[0] and test([c] + lines[1:]):
            lines[0] = c
    # control words nobody uses
    if lines[0].startswith("M"):
        used = {m[1] for l in lines if l.startswith("O ") for m in [re.search(r" cw=(\d+)", l)] if m}
        c = [l for l in lines if not (l.startswith("K ") and re.search(r"i=(\d+)", l)[1] not in used)]
        if len(c) < len(lines) and test(c):
            lines = c
    return "\n".join(lines) + "\n", tried[0]
