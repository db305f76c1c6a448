#!/usr/bin/env python3
"""Runs the check of one property, or replays a recorded violation.

  check.py C01 [--tier quick|thorough]     exit 0 held, 1 violated, 2 no answer
  check.py --replay replays/C01-....replay  exit 1 iff the violation shows again

A run is one scenario under one seed.  The seed decides the generated workload,
every thread interleaving, every injected fault and the heap layout.
"""
import json, os, re, subprocess, sys, time, pathlib, threading, hashlib, collections

HERE = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
import build as B
import checks as C

VERIF = HERE.parent
FAULTS = ["thread_create_failure", "alloc_failure", "spurious_wakeup", "weak_cas_failure",
          "callback_exception", "stalled_thread", "io_error", "crash"]
POLICIES = ["sync", "random", "pct", "conflict", "serial", "mix", "none"]


def run_sim(binary, args, timeout=600):
    r = subprocess.run([str(binary)] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True, errors="replace", timeout=timeout)
    return [json.loads(l, strict=False) for l in r.stdout.splitlines() if l.startswith("{")]


def symbolize(binary, pcs):
    out = []
    for pc in pcs:
        if not pc:
            out.append("?")
            continue
        r = subprocess.run(["addr2line", "-Cfie", str(binary), hex(pc - 1)], stdout=subprocess.PIPE, text=True).stdout.splitlines()
        frames = list(zip(r[0::2], r[1::2]))
        best = next(((f, l) for f, l in frames if "/src/SeQuant" in l), frames[0] if frames else ("?", "?"))
        out.append(f"{best[0]} ({re.sub(r'.*/src/', '', best[1])})")
    return out


def signature(binary, r):
    """class plus, for races, the functions on both sides (no line numbers)"""
    s = r["cls"]
    if r.get("pcs") and any(r["pcs"]):
        fs = sorted(re.sub(r" \(.*", "", re.sub(r"\(.*?\)( const)?", "()", x)) for x in symbolize(binary, r["pcs"]))
        s += ":" + "|".join(fs)
    return s


def known_findings(prop):
    out = []
    p = VERIF / "known_findings.txt"
    if p.exists():
        for l in p.read_text().splitlines():
            m = re.match(r"known: property=(\S+) scenario=(\S+) sig=<(.*?)> (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def write_replay(path, prop, target, scn, seed, policy, cls, sw, fl, dis, extra):
    with open(path, "w") as f:
        f.write(f"# property={prop} target={target} scn={scn} seed={seed} policy={policy} cls={cls}\n")
        for l in extra:
            f.write("# " + l.replace("\n", "\n# ") + "\n")
        for d in dis:
            f.write(f"d {d}\n")
        for k, i in fl:
            f.write(f"f {k} {i}\n")
        for t, s, to in sw:
            f.write(f"s {t} {s} {to}\n")


def minimise(binary, prop, target, r, full, budget, workdir):
    """ddmin over dropped operations, faults and preemptions"""
    t_end = time.time() + budget
    tmp = workdir / f"min-{prop}-{os.getpid()}.replay"
    scn, seed, pol, cls = r["scn"], r["seed"], r["policy"], r["cls"]
    tries = [0]

    def attempt(sw, fl, dis):
        if time.time() > t_end:
            return None
        tries[0] += 1
        write_replay(tmp, prop, target, scn, seed, pol, cls, sw, fl, dis, [])
        try:
            o = run_sim(binary, ["--scn", scn, "--seed", seed, "--replay", tmp, "--timeout", 60], 90)
        except subprocess.TimeoutExpired:
            return None
        if o and o[0]["status"] == 2 and o[0]["cls"] == cls:
            return o[0]
        return None

    sw, fl, dis = full["sw"], full["fl"], []
    base = attempt(sw, fl, dis)
    if base is None:
        return None
    best = base
    sw, fl = base["sw"], base["fl"]

    def ddmin(items, test):
        nonlocal best
        n = 2
        # first: everything away
        o = test([])
        if o:
            return []
        while len(items) >= 1 and time.time() < t_end:
            k = max(1, len(items) // n)
            chunks = [items[i:i + k] for i in range(0, len(items), k)]
            for i in range(len(chunks)):
                rest = [x for j, c in enumerate(chunks) if j != i for x in c]
                o = test(rest)
                if o:
                    items = rest
                    n = max(n - 1, 2)
                    break
            else:
                if k == 1:
                    break
                n = min(len(items), n * 2)
        return items

    def keep(o, f):
        nonlocal best
        if o:
            best = o
            f(o)
        return o

    # operations of the plan
    nops = base.get("nops", 0)
    if nops:
        state = {"dis": []}

        def t_ops(rest):
            d = [i for i in range(nops) if i not in rest]
            o = attempt(sw, fl, d)
            if o:
                state["dis"] = d
            return o
        ddmin(list(range(nops)), t_ops)
        dis = state["dis"]

    def t_fl(rest):
        return attempt(sw, rest, dis)
    fl = ddmin(fl, t_fl)

    def t_sw(rest):
        return attempt(rest, fl, dis)
    sw = ddmin(sw, t_sw)
    o = attempt(sw, fl, dis)
    if o is None:  # out of time: fall back on one more run without the limit
        t_end = time.time() + 120
        o = attempt(sw, fl, dis)
    try:
        tmp.unlink()
    except OSError:
        pass
    if o is None:
        return None
    return dict(sw=sw, fl=fl, dis=dis, result=o, tries=tries[0], from_sw=len(full["sw"]), from_fl=len(full["fl"]))


def replay(path):
    head = open(path).readline()
    kv = dict(x.split("=", 1) for x in head[1:].split())
    out = B.build(pathlib.Path(os.environ.get("SIM_BUILD", VERIF / "build")), [kv["target"]])
    binary = out / f"sim_{kv['target']}"
    o = run_sim(binary, ["--scn", kv["scn"], "--seed", kv["seed"], "--replay", path, "--timeout", 300])
    r = o[0]
    if r["status"] == 2:
        print(f"reproduced: class={r['cls']} hash={r['hash']}")
        print(r["msg"][:3000])
        for s in symbolize(binary, [p for p in r["pcs"] if p]):
            print("  at", s)
        print(f"VIOLATION property={kv['property']} replay={path}")
        return 1
    print(f"not reproduced: status {r['status']}")
    return 0


def main():
    a = sys.argv[1:]
    if a[0] == "--replay":
        return replay(a[1])
    prop = a[0]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    vseed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = C.CHECKS[prop]
    t0 = time.time()
    out = B.build(pathlib.Path(os.environ.get("SIM_BUILD", VERIF / "build")), sorted({s["target"] for s in cfg["scenarios"]}))
    t_build = time.time() - t0
    known = known_findings(prop)
    scale = {"quick": 1.0, "thorough": cfg.get("thorough_scale", 20.0)}[tier]
    ncpu = os.cpu_count() or 8
    W = max(1, min(8, ncpu))
    replays = VERIF / "replays"
    replays.mkdir(exist_ok=True)
    (VERIF / "evidence").mkdir(exist_ok=True)

    stop = threading.Event()
    lock = threading.Lock()
    viols, hits = [], collections.Counter()
    st = {s["name"]: dict(runs=0, steps=0, switches=0, sim_ns=0, skip=0, slow=0, err=0, ilv=set(), hist=set(), nontriv=set(),
                          faults=[0] * len(FAULTS), pol=collections.Counter(), probes=collections.Counter(), events=0, peak=0,
                          errmsg=set(), threads=0, cpu=0.0)
          for s in cfg["scenarios"]}
    procs = set()

    def worker_job(s, shard, nshard):
        binary = out / f"sim_{s['target']}"
        n = max(1, int(s["runs"] * scale) // nshard)
        base = (vseed * 1000003 + int(hashlib.sha1(s["name"].encode()).hexdigest()[:6], 16)) * 1000000 + shard
        cap = s.get("cap", 120) * (1 if tier == "quick" else 12)
        cmd = [str(binary), "--scn", s["name"], "--seed", str(base), "--count", str(n), "--stride", str(nshard), "--secs", str(cap),
               "--timeout", str(s.get("timeout", 60))]
        if "policy" in s:
            cmd += ["--policy", str(s["policy"])]
        tj = time.time()
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
        with lock:
            procs.add(p)
        d = st[s["name"]]
        for l in p.stdout:
            if not l.startswith("{"):
                continue
            try:
                r = json.loads(l, strict=False)
            except ValueError:
                continue
            with lock:
                d["runs"] += 1
                d["steps"] += r["steps"]
                d["switches"] += r["switches"]
                d["sim_ns"] += r["sim_ns"]
                d["events"] += r["events"]
                d["peak"] = max(d["peak"], r["peak"])
                d["threads"] += r["threads"]
                d["pol"][POLICIES[r["policy"]]] += 1
                d["ilv"].add(r["ilv"])
                d["hist"].add(r["hist"])
                if r["status"] == 1 and (r["switches"] or any(r["faults"]) or r["probes"]):
                    d["nontriv"].add(r["ilv"] + r["hist"])
                for i, v in enumerate(r["faults"]):
                    d["faults"][i] += v
                for k, v in r["probes"].items():
                    d["probes"][k] += v
                if r["status"] == 3:
                    d["skip"] += 1
                elif r["status"] == 5:
                    d["slow"] += 1
                elif r["status"] == 4:
                    d["err"] += 1
                    d["errmsg"].add(r.get("msg", "")[:200])
            if r["status"] == 2:
                sig = signature(binary, r)
                k = next((x for x in known if x[0] in (s["name"], "*") and re.search(x[1], sig)), None)
                with lock:
                    if k:
                        hits[k] += 1
                    elif not stop.is_set():
                        viols.append((s, r, sig))
                        stop.set()
            if stop.is_set():
                p.kill()
                break
        p.wait()
        with lock:
            d["cpu"] += time.time() - tj
            procs.discard(p)

    # jobs: every scenario in W shards, scenarios one after the other in each worker
    jobs = [(s, w, W) for s in cfg["scenarios"] for w in range(W)]
    jit = iter(jobs)

    def worker():
        while not stop.is_set():
            with lock:
                j = next(jit, None)
            if j is None:
                return
            worker_job(*j)

    t1 = time.time()
    ths = [threading.Thread(target=worker) for _ in range(W)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    t_run = time.time() - t1
    status = 0
    reports = []
    for s, r, sig in viols[:1]:
        binary = out / f"sim_{s['target']}"
        args = ["--scn", s["name"], "--seed", r["seed"], "--full", "--timeout", 300]
        if "policy" in s:
            args += ["--policy", s["policy"]]
        again = run_sim(binary, args)[0]
        ok = again["status"] == 2 and again["cls"] == r["cls"]
        path = replays / f"{prop}-{s['name']}-{r['seed']}.replay"
        m = minimise(binary, prop, s["target"], r, again, 60 if tier == "quick" else 240, replays) if ok else None
        rr = m["result"] if m else again
        extra = [f"signature: {sig}", f"message: {rr.get('msg', r['msg'])[:6000]}"]
        extra += [f"at: {x}" for x in symbolize(binary, [p for p in rr.get("pcs", r["pcs"]) if p])]
        if rr.get("notes"):
            extra += ["notes:", rr["notes"][:6000]]
        if m:
            extra.insert(0, f"minimised: preemptions {m['from_sw']} -> {len(m['sw'])}, faults {m['from_fl']} -> {len(m['fl'])}, "
                            f"operations dropped {len(m['dis'])} of {rr.get('nops', 0)}, {m['tries']} attempts")
            extra.append("faults: " + ", ".join(f"{FAULTS[k]}#{i}" for k, i in m["fl"]) if m["fl"] else "faults: none")
        src = m or dict(sw=again.get("sw", []), fl=again.get("fl", []), dis=[])
        write_replay(path, prop, s["target"], s["name"], r["seed"], r["policy"], r["cls"], src["sw"], src["fl"], src["dis"], extra)
        print(f"{prop}: scenario {s['name']} seed {r['seed']}: {sig}")
        print("  " + "\n  ".join("\n".join(extra)[:2500].split("\n")))
        if not ok:
            print("  (the rerun of the seed ended differently: status %d)" % again["status"])
        print(f"VIOLATION property={prop} replay={path}")
        status = 1
        reports.append(dict(scenario=s["name"], seed=r["seed"], signature=sig, replay=str(path), minimised=bool(m)))

    # the known findings: shown on every run (their own scenario and seed)
    for k in known:
        if hits[k]:
            print(f"KNOWN-FINDING: property={prop} {k[2]}")
    # determinism: the same seed twice, in fresh processes
    det = []
    if status == 0:
        for s in cfg["scenarios"]:
            binary = out / f"sim_{s['target']}"
            base = (vseed * 1000003 + int(hashlib.sha1(s["name"].encode()).hexdigest()[:6], 16)) * 1000000
            hs = []
            for cpu in (None, 0):
                args = ["--scn", s["name"], "--seed", base, "--count", 3, "--timeout", 300]
                if cpu is not None:
                    args += ["--cpu", cpu]
                if "policy" in s:
                    args += ["--policy", s["policy"]]
                hs.append([(x["status"], x["hash"], x["ilv"], x["hist"]) for x in run_sim(binary, args)])
            det.append(dict(scenario=s["name"], runs=len(hs[0]), identical=hs[0] == hs[1]))
            if hs[0] != hs[1]:
                print(f"{prop}: warning: scenario {s['name']} is not reproducible: {hs}")
    samples = []
    for s in cfg["scenarios"]:
        binary = out / f"sim_{s['target']}"
        base = (vseed * 1000003 + int(hashlib.sha1(s["name"].encode()).hexdigest()[:6], 16)) * 1000000
        args = ["--scn", s["name"], "--seed", base + 1, "--full", "--timeout", 300]
        if "policy" in s:
            args += ["--policy", s["policy"]]
        try:
            x = run_sim(binary, args)[0]
        except Exception:
            continue
        samples.append(f"{s['name']} seed {base + 1}: policy {POLICIES[x['policy']]}, {x['threads']} threads, {x['steps']} steps, "
                       f"{x['switches']} switches, faults {[(FAULTS[k], i) for k, i in x['fl']][:6]}, history hash {x['hist']}; "
                       f"first switches [thread, local step, to] {x['sw'][:6]}; plan: {x['notes'][:700]}")
    tot = lambda k: sum(d[k] for d in st.values())
    runs = tot("runs")
    bad = [f"{n}: {d['err']} internal errors {sorted(d['errmsg'])[:2]}" for n, d in st.items() if d["err"]]
    bad += [f"{n}: no run finished" for n, d in st.items() if status == 0 and d["runs"] - d["skip"] - d["slow"] <= 0]
    bad += [f"{n}: probe {p} never reached" for s in cfg["scenarios"] for n, d in [(s["name"], st[s["name"]])]
            for p in s.get("need", []) if status == 0 and not d["probes"][p]]
    ev = {
        "property": prop, "tier": tier, "seed": vseed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": sum(len(d["nontriv"]) for d in st.values()),
            "rule": "one evaluation is one simulated run (scenario, seed). Distinct = different pair of interleaving hash (order of "
                    "context switches and synchronisation operations) and history hash (results observed). Non-trivial = completed, with at "
                    "least one context switch, injected fault or reach probe hit.",
            "samples": samples,
            "runs_per_hour": int(runs / max(t_run, 1e-3) * 3600),
            "seeds": runs,
            "simulated_seconds": round(tot("sim_ns") * 1e-9, 6),
            "steps": tot("steps"),
            "context_switches": tot("switches"),
            "faults_injected": {f: sum(d["faults"][i] for d in st.values()) for i, f in enumerate(FAULTS)},
            "scheduling_policies": dict(sum((d["pol"] for d in st.values()), collections.Counter())),
            "scenarios": {n: dict(runs=d["runs"], steps=d["steps"], switches=d["switches"], threads_created=d["threads"],
                                  peak_threads=d["peak"], distinct_interleavings=len(d["ilv"]),
                                  distinct_histories=len(d["hist"]), skipped=d["skip"], real_time_limit=d["slow"],
                                  probes=dict(d["probes"]),
                                  faults={f: d["faults"][i] for i, f in enumerate(FAULTS) if d["faults"][i]})
                          for n, d in st.items()},
            "determinism": det,
            "components_real": cfg["real"],
            "components_stub": cfg["stub"],
            "known_findings_seen": {k[2]: hits[k] for k in known},
            "violation_reports": reports,
            "build_s": round(t_build, 1),
            "problems": bad,
        },
        "assumptions": C.ASSUMPTIONS + cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(viols),
    }
    (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1))
    print(f"{prop} {tier}: {runs} runs, {ev['coverage']['distinct_nontrivial']} distinct, {sum(ev['coverage']['faults_injected'].values())} faults, "
          f"build {t_build:.0f} s, runs {t_run:.0f} s, status {status}")
    if status == 0 and bad:
        print("no answer: " + "; ".join(bad))
        return 2
    return status


if __name__ == "__main__":
    try:
        rc = main()
    except Exception as e:  # no answer
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
