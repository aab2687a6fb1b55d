#!/usr/bin/env python3
"""Simulator for the Python side: model creation, Python bindings, data sources.

psim.py gen PROP MODE SEED | run FILE | batch PROP MODE SEED0 N SECS

Every path below /simfs/ lives on the simulated disk (libsimio.so, LD_PRELOAD).  One scenario runs in its own forked process;
each session (one simulated operating-system process) runs in a further fork, and only the disk survives it."""
import ctypes, gc, json, math, os, pickle, random, signal, struct, sys, time, traceback, hashlib, zlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = os.environ.get("SIM_PKG", "")
sys.path.insert(0, PKG); sys.path.insert(0, os.path.join(V, "sim"))
IO = ctypes.CDLL(None)
IO.simio_hash.restype = ctypes.c_uint64; IO.simio_vtime.restype = ctypes.c_double; IO.simio_size.restype = ctypes.c_long; IO.simio_get.restype = ctypes.c_long
for f in ("simio_ops", "simio_fired_total", "simio_benign_total", "simio_fired_file"): getattr(IO, f).restype = ctypes.c_long
IO.simio_clock.argtypes = [ctypes.c_int, ctypes.c_double]; IO.simio_fault_counts.restype = ctypes.c_size_t; IO.simio_list.restype = ctypes.c_size_t
IO.simio_put.argtypes = [ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t]; IO.simio_get.argtypes = [ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t]
def put(path, data): IO.simio_put(path.encode(), data, len(data))
def size(path): return IO.simio_size(path.encode())
def get(path):
    n = size(path)
    if n < 0: return None
    b = ctypes.create_string_buffer(max(1, n)); IO.simio_get(path.encode(), b, n); return b.raw[:n]
def remove(path): IO.simio_remove(path.encode())
def listing():
    b = ctypes.create_string_buffer(1 << 16); IO.simio_list(b, len(b)); return [x for x in b.value.decode().split("\n") if x]
def note(s): IO.simio_note(s.encode("utf-8", "replace"))
def fault_counts():
    b = ctypes.create_string_buffer(4096); IO.simio_fault_counts(b, len(b)); r = {}
    for t in b.value.decode().split():
        k, _, n = t.partition("="); r[k] = r.get(k, 0) + int(n)
    return r

class Violation(Exception):
    def __init__(self, cls, msg): super().__init__(msg); self.cls = cls; self.msg = msg
class W:  # the world of one scenario
    cfgs = {}; state = {}; probes = set(); findings = set(); checks = 0; q = 0; faulted = 0; faults = {}; ops = 0; hard = 0; benign = 0; vt = 0.0
    rules = []; op = ""; nop = 0; prop = ""; tool = {}

import psim_create, psim_bind, psim_srcs, psim_emc, psim_prof
MODULES = (psim_create, psim_bind, psim_srcs, psim_emc, psim_prof)
OPS = {}; GENS = {}
for m in MODULES:
    m.bind(sys.modules[__name__]); OPS.update(m.OPS); GENS.update(m.GENS)

def probe(k): W.probes.add(k)
FINDINGS = {"create-varz-mirrored": ("C14", "C17"), "profiles-missing-coordinates-skipped": ("C24",)}  # other properties accept what these findings store
def finding(k):
    if W.prop in FINDINGS[k]: W.findings.add(k)
def check(n=1): W.checks += n

def measure(res, crashed, h0, b0, o0, v0, c0):
    res["files"] = {p: get(p) for p in listing()}
    res["hard"] = IO.simio_fired_total()-h0; res["benign"] = IO.simio_benign_total()-b0; res["ops"] = IO.simio_ops()-o0; res["vt"] = IO.simio_vtime()-v0
    c = fault_counts(); res["counts"] = {k: c[k]-c0.get(k, 0) for k in c if c[k] > c0.get(k, 0)}; res["hash"] = IO.simio_hash(); res["tool"] = dict(W.tool)
    res["probes"] = set(W.probes); res["findings"] = set(W.findings); res["checks"] = W.checks; res["q"] = W.q
def send(w, res):
    data = pickle.dumps(res); mv = memoryview(struct.pack("<Q", len(data)) + data)
    while mv: n = os.write(w, mv[:1 << 16]); mv = mv[n:]
def session(fn, clock=None, arm=True):
    """Runs fn in a process of its own over the simulated disk.  Returns dict(status=ok|exc|crash|died, ...)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r); res = {}
        try:
            signal.alarm(60); W.tool = {}
            if os.environ.get("SIM_TRACE"): import faulthandler; faulthandler.enable()
            if clock is not None: IO.simio_clock(1, clock)
            h0, b0, o0 = IO.simio_fired_total(), IO.simio_benign_total(), IO.simio_ops(); c0 = fault_counts(); v0 = IO.simio_vtime()
            for rule in W.rules:
                if IO.simio_rule(rule.encode()) < 0: raise RuntimeError("bad rule " + rule)
            if arm: IO.simio_arm(1)
            def done(res):  # the application is done; keep its outcome even if cleaning up in third-party libraries crashes afterwards
                snap = dict(res, cleanup="died"); measure(snap, False, h0, b0, o0, v0, c0)
                if IO.simio_crashed(): snap["status"] = "crash"; snap["was"] = res["status"]
                send(w, snap)
            try:
                out = fn(); res = {"status": "ok", "out": out}; done(res)
            except Violation as v: res = {"status": "violation", "cls": v.cls, "msg": v.msg}
            except SystemExit as e: res = {"status": "ok" if not e.code else "exc", "exc": "SystemExit", "msg": str(e.code), "out": None}; done(res)
            except BaseException as e:
                res = {"status": "exc", "exc": type(e).__name__, "msg": str(e)[:300], "tb": "".join(traceback.format_exception(e))[-3000:]}; done(res)
            gc.collect(); IO.simio_arm(0)
            crashed = bool(IO.simio_crashed())
            if crashed and res.get("status") != "violation": res = {"status": "crash", "was": res.get("status")}
            IO.simio_heal()
            if crashed: IO.simio_thaw()
            measure(res, crashed, h0, b0, o0, v0, c0)
        except BaseException as e:
            res = {"status": "harness", "msg": repr(e) + traceback.format_exc()[-500:]}
        send(w, res)
        os._exit(0)
    os.close(w); data = b""
    while True:
        b = os.read(r, 1 << 16)
        if not b: break
        data += b
    os.close(r); _, st = os.waitpid(pid, 0)
    if not data: return {"status": "died", "signal": os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0, "msg": f"process ends with status {st}", "hard": 0, "out": None}
    res = None
    while len(data) >= 8:
        n = struct.unpack("<Q", data[:8])[0]
        if len(data) < 8+n: break
        res = pickle.loads(data[8:8+n]); data = data[8+n:]
    if res["status"] == "harness": raise RuntimeError(res["msg"])
    for p in listing():
        if p not in res["files"]: remove(p)
    for p, d in res["files"].items(): put(p, d)
    W.hard += res["hard"]; W.benign += res["benign"]; W.ops += res["ops"]; W.vt += res["vt"]
    for k, n in res["counts"].items(): W.faults[k] = W.faults.get(k, 0) + n
    for k, n in res["tool"].items(): W.faults[k] = W.faults.get(k, 0) + n
    if res["hard"] or res["tool"]: W.faulted += 1
    W.probes |= res["probes"]; W.findings |= res["findings"]; W.checks = res["checks"]; W.q = res["q"]
    note(f"session {res['status']} {res.get('exc', '')} {res['hash']:016x}")
    for p in sorted(res["files"]): note(p + " " + hashlib.sha256(res["files"][p]).hexdigest()[:16])
    if res["status"] == "violation": raise Violation(res["cls"], res["msg"])
    return res

def execute(text):
    """Executes a scenario; returns the report (without seed)."""
    IO.simio_reset()
    status, cls, msg = "OK", "", ""
    try:
        for line in text.split("\n"):
            t = line.split(None, 2)
            if t and t[0] == "scenario": W.prop = t[1]
            if not t or t[0].startswith("#") or t[0] == "scenario": continue
            W.op = line[:300]; W.nop += 1; note(line)
            if t[0] == "fault": W.rules.append(line.split(None, 1)[1])
            elif t[0] == "heal": W.rules.clear()
            elif t[0] in OPS: OPS[t[0]](line.split()[1:], line)
            else: raise RuntimeError("unknown operation " + line)
        W.rules.clear(); W.op = "end of scenario"
        for m in MODULES: m.finish()
    except Violation as v: status, cls, msg = "VIOLATION", v.cls, v.msg
    except Exception as e: status, cls, msg = "VIOLATION", "harness", repr(e) + " " + traceback.format_exc()[-700:]
    note(status + cls)
    msg = (f"op {W.nop} [{W.op}]: {msg}" if msg else "").replace("\n", " / ")
    f = " ".join(f"{k}={n}" for k, n in sorted(W.faults.items()))
    return (f"{status}|{IO.simio_hash():016x}|ops={W.ops}|hard={W.hard}|benign={W.benign}|vtime={W.vt:.6f}|q={W.q}|warn=0|faulted={W.faulted}|checks={W.checks}|faults={f}"
            f"|probes={','.join(sorted(W.probes))}|findings={','.join(sorted(W.findings))}|class={cls}|msg={msg}")

def fork_run(text):
    r, w = os.pipe(); pid = os.fork()
    if pid == 0:
        os.close(r)
        psim_bind.C.geomemo_on(int(zlib.crc32(text.encode()) % 16 != 0))  # one run in 16 without copies of PROJ objects
        try: out = execute(text)
        except BaseException as e: out = "VIOLATION|0|ops=0|class=harness|msg=" + repr(e)
        os.write(w, out.encode("utf-8", "replace")[:60000]); os._exit(0)
    os.close(w); d = b""
    while True:
        b = os.read(r, 65536)
        if not b: break
        d += b
    os.close(r); os.waitpid(pid, 0)
    return d.decode("utf-8", "replace") or "VIOLATION|0|ops=0|class=harness|msg=scenario process died"

def generate(prop, mode, seed):
    r = random.Random(f"{prop}:{mode}:{seed}")
    return f"scenario {prop} {mode} {seed}\n" + "\n".join(GENS[prop](r, mode)) + "\n"

def main():
    a = sys.argv
    if a[1] == "gen": sys.stdout.write(generate(a[2], a[3], int(a[4])))
    elif a[1] == "run":
        gc.freeze()
        os.environ.get("SIM_TRACE") and IO.simio_trace(1)
        print(fork_run(open(a[2]).read()))
    elif a[1] == "batch":
        t0 = time.monotonic(); bad = 0; psim_bind.warm(); gc.collect(); gc.freeze()
        for i in range(int(a[5])):
            if time.monotonic()-t0 > float(a[6]): break
            s = int(a[4])+i; out = fork_run(generate(a[2], a[3], s)); print(f"{s}|{out}", flush=True)
            if not out.startswith("OK") and "class=harness" not in out:
                bad += 1
                if bad >= 3: break
if __name__ == "__main__": main()
