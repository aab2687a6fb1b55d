#!/usr/bin/env python3
"""Driver of one property check:  check.py <ID> [quick|thorough]   |   check.py replay FILE

Seeded search over simulated runs (scenario = operations + interleaving + faults), gate and minimisation of violations,
known findings, evidence.  Exit 0: held on everything explored; 1: VIOLATION line; 2: the check itself failed."""
import collections, json, os, re, subprocess, sys, threading, time, hashlib
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(V, "tools"))
import build
import catalog
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
ENV = dict(os.environ, MALLOC_PERTURB_="165", PYTHONHASHSEED="0", LC_ALL="C", TZ="UTC", PROJ_NETWORK="OFF", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")

def die(msg):
    print("CHECK-ERROR: " + msg); sys.stdout.flush(); os._exit(2)

class Engine:
    """Command line of a simulator: gen PROP MODE SEED | run FILE | batch PROP MODE SEED0 N SECS"""
    def __init__(self, kind):
        pre = ["setarch", "-R"] if subprocess.run(["setarch", "-R", "true"], stderr=subprocess.DEVNULL).returncode == 0 else []
        self.env = dict(ENV)
        if kind == "gsim":
            self.cmd = pre + [build.gsim()]
        else:
            so, pkg = build.pysim()
            self.env["SIM_PKG"] = pkg; self.env["SIM_PRELOAD"] = so; self.env["LD_PRELOAD"] = so
            self.cmd = pre + ["/usr/bin/python3", "-B", os.path.join(V, "sim", "psim.py")]
    def gen(self, prop, mode, seed):
        return subprocess.run(self.cmd + ["gen", prop, mode, str(seed)], env=self.env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=120).stdout
    def run(self, path, env=None):
        p = subprocess.run(self.cmd + ["run", path], env=dict(self.env, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=300)
        return Report("0|" + p.stdout.decode("utf-8", "replace").strip().split("\n")[0])
    def batch(self, prop, mode, seed0, n, secs, env=None):
        return subprocess.Popen(self.cmd + ["batch", prop, mode, str(seed0), str(n), str(secs)], env=dict(self.env, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")

class Report:
    def __init__(self, line):
        self.line = line; f = line.split("|"); self.ok = len(f) >= 5
        if not self.ok: return
        self.seed = int(f[0]); self.status = f[1]; self.hash = f[2]; self.kv = {}
        for i, x in enumerate(f[3:], 3):
            k, _, v = x.partition("="); 
            if k == "msg": v = "|".join(f[i:])[4:]
            self.kv[k] = v
            if k == "msg": break
    def num(self, k):
        try: return float(self.kv.get(k, 0) or 0)
        except ValueError: return 0.0
    @property
    def cls(self): return self.kv.get("class", "")
    @property
    def msg(self): return self.kv.get("msg", "")

def known(prop):
    keys = {}
    for l in open(os.path.join(V, "known-findings.txt")):
        m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", l.strip())
        if m and m.group(1) == prop: keys[m.group(2)] = m.group(3)
    return keys

def minimise(eng, text, cls, secs, tmp):
    """ddmin over scenario lines while the same violation class persists."""
    t0 = time.time(); lines = [l for l in text.split("\n") if l.strip() and not l.startswith("#")]; runs = 0
    def bad(ls):
        nonlocal runs; runs += 1
        open(tmp, "w").write("\n".join(ls) + "\n")
        try: r = eng.run(tmp)
        except subprocess.TimeoutExpired: return False
        return r.ok and r.status == "VIOLATION" and r.cls == cls
    step = max(1, len(lines)//2)
    while time.time()-t0 < secs:
        i = len(lines); changed = False
        while i > 0 and time.time()-t0 < secs:
            j = max(0, i-step); c = lines[:j] + lines[i:]
            if c and bad(c): lines = c; changed = True
            i = j
        if step == 1 and not changed: break
        step = max(1, step//2)
    # shrink numbers of scan-like operations
    for i, l in enumerate(lines):
        t = l.split()
        if t[0] == "scan" and len(t) >= 5:
            for n in (1, 2, 4, 8, 16):
                if n < int(t[4]) and time.time()-t0 < secs:
                    c = lines[:i] + [" ".join(t[:4] + [str(n)])] + lines[i+1:]
                    if bad(c): lines = c; break
    return "\n".join(lines) + "\n", runs

def sim(prop, tier, seed):
    t0 = time.time(); spec = catalog.CHECKS[prop]; eng = Engine(spec["engine"]); t_build = time.time()-t0
    budget = float(os.environ.get("VERIF_BUDGET", spec.get("quick", 45) if tier == "quick" else spec.get("thorough", 600)))
    modes = spec["modes"]; keys = known(prop)
    base = int(hashlib.sha256(f"{seed}:{prop}:{tier}".encode()).hexdigest()[:10], 16)
    reports = {m: [] for m in modes}; viol = []; lock = threading.Lock(); stop = threading.Event(); errs = []
    def worker(w):
        for k, (m, share) in enumerate(modes.items()):
            if stop.is_set(): return
            p = eng.batch(prop, m, base + w*100_000_000 + k*10_000_000, 10_000_000, budget*share)
            killer = threading.Thread(target=lambda: (stop.wait(budget*share+240), p.poll() is None and p.kill()), daemon=True); killer.start()
            for line in p.stdout:
                r = Report(line.strip())
                if not r.ok: continue
                with lock:
                    reports[m].append(r)
                    if r.status == "VIOLATION" and r.cls != "harness": viol.append((m, r))
                    if len(viol) >= 6: stop.set()
            p.wait()
            if p.returncode != 0 and not stop.is_set(): errs.append(f"{m} worker {w}: exit {p.returncode}")
    th = [threading.Thread(target=worker, args=(w,)) for w in range(WORKERS)]
    [t.start() for t in th]; [t.join() for t in th]
    t_search = time.time()-t0-t_build; stop.set()
    allr = [(m, r) for m in modes for r in reports[m]]
    if not allr: die("no simulated run completed: " + "; ".join(errs))
    # ---- findings that are not in the known list are violations
    seen = collections.Counter()
    for m, r in allr:
        for k in filter(None, r.kv.get("findings", "").split(",")):
            seen[k] += 1
            if k not in keys: viol.append((m, r))
    # ---- gate, minimise and report violations
    rep = None
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    tried = set()
    for m, r in sorted(viol, key=lambda v: (v[1].cls, v[1].num("ops")))[:40]:
        if len(tried) >= 5: break
        fnd = [k for k in filter(None, r.kv.get("findings", "").split(",")) if k not in keys]
        cls = r.cls if r.status == "VIOLATION" else "finding:" + fnd[0]
        if sum(1 for c, _ in tried if c == cls) >= 2: continue
        tried.add((cls, r.seed))
        tmp = os.path.join(V, "replays", f".{prop}-{os.getpid()}.min"); text = eng.gen(prop, m, r.seed)
        path = os.path.join(V, "replays", f"{prop}-{m}-{r.seed}.scenario")
        open(tmp, "w").write(text)
        try: a, b = eng.run(tmp), eng.run(tmp)
        except subprocess.TimeoutExpired: continue
        same = lambda x: x.ok and ((x.status == "VIOLATION" and x.cls == cls) or (cls.startswith("finding:") and cls[8:] in x.kv.get("findings", "")))
        if not (same(a) and same(b) and a.hash == b.hash): print(f"note: seed {r.seed} [{cls}] not reproduced exactly: {a.line[:200]} / {b.line[:200]}"); continue
        runs = 0; small = text
        if r.status == "VIOLATION": small, runs = minimise(eng, text, cls, 60 if tier == "quick" else 120, tmp)
        head = f"# property={prop} mode={m} seed={r.seed} class={cls}\n# replay: python3 /verif/check.py replay {path}\n"
        open(path, "w").write(head + small)
        a, b = eng.run(path), eng.run(path)
        if not (same(a) and same(b) and a.hash == b.hash):
            open(path, "w").write(head + text); a, b = eng.run(path), eng.run(path)
            if not (same(a) and same(b) and a.hash == b.hash): continue
        open(path, "w").write(head + f"# expected: {a.status} {a.hash} {a.cls} {a.msg}\n" + (small if runs else text))
        a = eng.run(path); os.remove(tmp)
        rep = (m, r, path, a, runs); break
    # ---- determinism: the same seeds again in other processes, another layout of workers
    det = 0; diff = []
    if rep is None:
        pick = []
        for m in modes:
            rs = reports[m]; n = min(len(rs), 24 if tier == "quick" else 120)
            pick += [(m, rs[(i*len(rs))//n]) for i in range(n)]
        def again(chunk):
            nonlocal det
            for m, r in chunk:
                p = eng.batch(prop, m, r.seed, 1, 60, {"PYTHONHASHSEED": "77"}); out = p.communicate()[0].strip()
                x = Report(out)
                with lock:
                    det += 1
                    if not x.ok or x.hash != r.hash or x.status != r.status: diff.append((m, r.seed, r.line[:160], out[:160]))
        ts = [threading.Thread(target=again, args=(pick[i::WORKERS],)) for i in range(WORKERS)]
        [t.start() for t in ts]; [t.join() for t in ts]
    # ---- evidence
    faults = collections.Counter(); probes = collections.Counter(); tot = collections.Counter(); hashes = set(); nontriv = set(); perm = {}
    for m, r in allr:
        for f in r.kv.get("faults", "").split():
            k, _, n = f.partition("="); faults[k] += int(n or 0)
        for p in filter(None, r.kv.get("probes", "").split(",")): probes[p] += 1
        for k in ("ops", "hard", "benign", "q", "warn", "faulted", "checks", "vtime"): tot[k] += r.num(k)
        hashes.add(r.hash)
        if r.num("checks") > 0 and (m != "faults" or r.num("hard") + r.num("benign") > 0): nontriv.add(r.hash)
        d = perm.setdefault(m, {"runs": 0, "runs_with_faults": 0, "harness_skipped": 0}); d["runs"] += 1; d["runs_with_faults"] += int(r.num("hard") + r.num("benign") > 0); d["harness_skipped"] += int(r.cls == "harness")
    samples = []
    for m in modes:
        if reports[m]: r = reports[m][0]; samples.append({"mode": m, "seed": r.seed, "scenario": eng.gen(prop, m, r.seed)[:3000], "result": r.line[:400]})
    hr = t_search/3600
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(time.time()-t0, 2), "violations": 1 if rep else 0,
          "coverage": {"evaluations": len(allr), "distinct_nontrivial": len(nontriv),
            "rule": "One evaluation = one simulated run of a generated scenario (operations, interleaving and fault rules all drawn from one seed). Distinct = different hash over the complete event log (every simulated I/O operation with offset, size and outcome, every operation and its result); non-trivial = at least one oracle comparison was made and, in mode 'faults', at least one injected fault actually fired.",
            "samples": samples, "distinct_event_histories": len(hashes), "modes": perm, "runs_per_hour": int(len(allr)/hr) if hr > 0 else 0,
            "seeds": {"first": base, "per_worker_stride": 100_000_000, "workers": WORKERS},
            "simulated_seconds": round(tot["vtime"], 3), "simulated_io_operations": int(tot["ops"]), "queries": int(tot["q"]), "oracle_comparisons": int(tot["checks"]), "answers_with_warning": int(tot["warn"]), "calls_hit_by_fault": int(tot["faulted"]),
            "faults_fired": dict(sorted(faults.items())), "probes_runs": dict(sorted(probes.items())), "determinism_reruns": det, "determinism_mismatches": len(diff), "known_findings_seen": {k: seen[k] for k in keys if seen[k]},
            "real_components": spec["real"], "stub_components": spec["stub"], "build_s": round(t_build, 1), "search_s": round(t_search, 1)},
          "assumptions": spec["assume"]}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{prop} {tier} seed={seed}: {len(allr)} runs ({', '.join(m + ' ' + str(len(reports[m])) for m in modes)}), {len(nontriv)} distinct non-trivial, {int(tot['checks'])} comparisons, faults fired {sum(faults.values())}, determinism {det-len(diff)}/{det}, {ev['wall_s']} s")
    for k, d in keys.items():
        print(f"KNOWN-FINDING: property={prop} {k}: {d}" + ("" if seen[k] else " (not met in this run)"))
    if rep:
        m, r, path, a, runs = rep
        print(f"violation class {a.cls or 'finding'} (mode {m}, seed {r.seed}, minimised in {runs} runs): {a.msg}")
        print(f"VIOLATION property={prop} replay={path}"); sys.stdout.flush(); os._exit(1)
    if viol: die("violations seen but none reproduced exactly: " + viol[0][1].line[:300])
    if diff: die("same seed gave a different run: " + str(diff[:3]))
    if errs: die("; ".join(errs[:4]))
    h = sum(d["harness_skipped"] for d in perm.values())
    if h > max(3, len(allr)//200): die(f"{h} runs ended in the harness: " + next(r.line for m, r in allr if r.cls == "harness")[:300])
    sys.exit(0)

def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        path = os.path.abspath(sys.argv[2]); prop = re.search(r"property=(\S+)", open(path).read()).group(1)
        r = Engine(catalog.CHECKS[prop]["engine"]).run(path); print(r.line)
        exp = re.search(r"# expected: (\S+) (\S+)", open(path).read())
        if exp: print("same as recorded" if (r.status, r.hash) == exp.groups() else "differs from recorded")
        if r.status == "VIOLATION": print(f"VIOLATION property={prop} replay={path}"); sys.exit(1)
        sys.exit(0)
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try: sim(prop, tier, int(os.environ.get("VERIF_SEED", "1") or 1))
    except SystemExit: raise
    except BaseException as e:
        import traceback; traceback.print_exc(); die(repr(e))
main()
