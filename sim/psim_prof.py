"""Vertical profiles at stations (C24): examples/python-api/station_profiles.py over the simulated disk, in a process of its own."""
import csv, ctypes, importlib.util, io, math, os, pathlib, random, sys
import numpy as np
P = None; PC = None; PB = None
NODATA = -1.0e20; FIVE = ("Density", "Vp", "Vs", "Qp", "Qs"); OUT = "/simfs/out"
def bind(p):
    global P, PC, PB
    P = p; import psim_create, psim_bind; PC = psim_create; PB = psim_bind
def script(): return os.path.join(os.environ.get("SIM_PKG", ""), "examples/python-api/station_profiles.py")
def load():
    s = importlib.util.spec_from_file_location("station_profiles", script()); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m

def op_smk(args, line):
    """smk NAME SEED [key=value ...]: a model file with the five standard values in some order, possibly among others."""
    r = random.Random(f"smk:{args[1]}"); c = PC.make_cfg(args[0], args[1], dict([("zover", "0")] + [x.split("=", 1) for x in args[2:]]))
    v = list(FIVE); r.shuffle(v); k = r.random()
    if k < 0.3: v.insert(r.randint(0, 5), "zone_id")
    elif k < 0.4: v = v[:4]  # lacks a value
    if r.random() < 0.3: v = [x.lower() for x in v]
    c["values"] = v; c["units"] = ["m/s" if x.lower() in ("vp", "vs") else "kg/m**3" if x.lower() == "density" else "none" for x in v]
    for b in c["blocks"]: b["chunk"][3] = r.randint(1, len(v))
    P.W.cfgs[args[0]] = c; s = P.session(lambda: PB.write_model(c), arm=False)
    if s["status"] != "ok": raise RuntimeError(f"model writer: {s}")
def op_st(args, line):
    """st MODEL SEED N [bad]: the CSV file of stations around a model."""
    if args[0] not in P.W.cfgs: return
    c = P.W.cfgs[args[0]]; r = random.Random(f"st:{args[1]}"); n = int(args[2]); bad = args[3] if len(args) > 3 else ""
    rows = []
    for i in range(n):
        k = r.random(); x, y = (r.uniform(0.01, 0.99), r.uniform(0.01, 0.99)) if k < 0.8 else (r.uniform(0.1, 0.9), r.choice((-0.2, 1.3)))
        X, Y = PC.rotate(c, x*c["dx"], y*c["dy"]); la, lo = PB.transformer(c["crs"]).transform(X, Y)
        f = r.choice(("%.5f", "%.8f", "%.14g", "%.10e", " %.6f", "%+.6f")); name = (r.choice(("BK", "NC", "CE", "XX", "1A")), f"S{i:02d}" if r.random() < 0.97 else "S00")
        rows.append([name[0], name[1], f % la, f % lo])
    cols = ["Network", "StationCode", "StationLatitude", "StationLongitude"]; order = list(range(4))
    if r.random() < 0.5: r.shuffle(order)
    extra = r.random() < 0.4; pos = r.randint(0, 4); hd = [cols[i] for i in order]; tab = [[x[i] for i in order] for x in rows]
    if extra: hd.insert(pos, "Name"); [t.insert(pos, r.choice(("Byerly, CA", "a \"b\"", "", "é"))) for t in tab]
    if bad and tab:
        b = r.randrange(len(tab)); j = hd.index(r.choice(("StationLatitude", "StationLongitude")))
        if bad == "text": tab[b][j] = r.choice(("abc", "", "37.1N", "1,5"))
        elif bad == "short": tab[b] = tab[b][:max(hd.index("StationLatitude"), hd.index("StationLongitude"))]
        elif bad == "column": k = hd.index(r.choice(cols)); hd[k] = hd[k].lower()
    f = io.StringIO(); w = csv.writer(f, lineterminator=r.choice(("\n", "\r\n"))); w.writerow(hd); w.writerows(tab); s = f.getvalue()
    if r.random() < 0.3: s = s.rstrip("\r\n")
    P.put("/simfs/stations.csv", s.encode()); P.W.state["st"] = dict(rows=rows, bad=bool(bad and tab), short=b if bad == "short" and tab else None, model=args[0])
def expected(files, values, rows, maxd, res):
    """What the native library returns along the profiles: None (outside) or list of (z, lo, hi, nodata allowed) per row."""
    N = PB.Native(); p, e = N.open(files, values, "EPSG:4326"); PB.C.geomodelgrids_cerrorhandler_setLoggingOn(PB.C.geomodelgrids_squery_getErrorHandler(p), 0)
    if e == 2: return None
    out = []; n = int(math.floor(maxd/res + 1e-9)), int(math.floor(maxd/res + 0.5))
    for row in rows:
        la, lo = float(row[2]), float(row[3]); g = float(N.elev(p, "geomodelgrids_squery_queryTopElevation", [[la, lo]])[0])
        if g == NODATA: out.append(None); continue
        z0 = g - 1e-6 if g != 0.0 else 0.0; prof = []
        for i in range(max(n)+1):
            z = z0 - i*res; zs = [z, z-1e-4] + ([z+1e-4] if i else [z-1e-6])
            v, err = N.query(p, len(values), [[la, lo, q] for q in zs])
            prof.append((z, v, bool(np.any(err != 0))))
        out.append((g, prof))
    return dict(profiles=out, n=sorted(set(n)))
def parse(fmt, data, path):
    bad = lambda m: P.Violation("format", f"{path}: {m}")
    try: s = data.decode("utf-8")
    except UnicodeDecodeError: raise bad("not text")
    if not s.endswith("\n"): raise bad("last line is incomplete")
    if fmt == "csv": t = list(csv.reader(io.StringIO(s))); hd = t[0]
    else:
        l = s.split("\n")[:-1]; 
        if not l[0].startswith("#"): raise bad(f"header {l[0]!r}")
        hd = l[0][1:].split(); t = [hd] + [x.split() for x in l[1:]]
    try: return hd, [[float(x) for x in r] for r in t[1:]]
    except ValueError as e: raise bad(f"row that is not numeric: {e}")
def check_file(fmt, path, exp, names, ns, res):
    d = P.get(path)
    if d is None: raise P.Violation("missing", f"the application succeeds, but {path} does not exist")
    hd, rows = parse(fmt, d, path); P.check(len(rows))
    if hd != ["Elevation", "Depth"] + names: raise P.Violation("header", f"{path}: columns {hd}, expected elevation, depth and {names}")
    if len(rows)-1 not in ns: raise P.Violation("rows", f"{path} has {len(rows)} rows, expected depths 0 to {ns[-1]*res} every {res}")
    h = 0.0051 if fmt == "csv" else 1e-5; g, prof = exp
    for i, r in enumerate(rows):
        z, v, nod = prof[i]
        if len(r) != len(hd): raise P.Violation("rows", f"{path} row {i} has {len(r)} columns")
        if abs(r[0]-z) > h + 1e-9*abs(z) or abs(r[1]-i*res) > h: raise P.Violation("location", f"{path} row {i}: elevation {r[0]}, depth {r[1]}; expected {z}, {i*res} (surface {g})")
        for k, name in enumerate(names):
            x = r[2+k]; w = v[:, k]; lim = [q for q in w if q != NODATA]
            if x == NODATA or x <= -1e19:
                if NODATA not in w: raise P.Violation("values", f"{path} row {i}: {name} is NODATA, the library returns {w[0]} at elevation {z}")
                continue
            if not lim or not min(lim) - h - 1e-6*abs(min(lim)) <= x <= max(lim) + h + 1e-6*abs(max(lim)): raise P.Violation("values", f"{path} row {i}: {name} is {x}, the library returns {w[0]} at elevation {z}")
def op_prof(args, line):
    """prof FORMAT MAXKM RES MODELS cli|app:VALUES"""
    fmt, maxkm, res, ms, how = args[0], args[1], args[2], args[3].split(","), args[4]; st = P.W.state.get("st"); cf = P.W.cfgs
    if not st: return
    files = [cf[m]["file"] if m in cf else f"/simfs/{m}.h5" for m in ms]; names = list(FIVE) if how == "cli" else how[4:].split(","); maxd = float(maxkm)*1000.0
    e = P.session(lambda: expected(files, names, st["rows"], maxd, float(res)), arm=False)
    if e["status"] != "ok": raise RuntimeError(f"native run: {e.get('status')} {e.get('exc')} {e.get('msg')} {e.get('tb')}")
    exp = e["out"]; before = {p: P.get(p) for p in P.listing()}
    def go():
        P.W.q += 1; m = load()
        if how == "cli":
            sys.argv = ["station_profiles.py", "--models=" + ",".join(files), "--filename=/simfs/stations.csv", "--output-dir=" + OUT, "--max-depth=" + maxkm, "--resolution=" + res, "--log=/simfs/run.log"]
            if fmt != "csv" or int(args[1][-1], 36) % 2: sys.argv.append("--output-format=" + fmt)
            m.cli()
        else:
            a = m.App(); a.initialize(models=files, max_depth_m=maxd, resolution_m=float(res), values=tuple(names)); a.run_query("/simfs/stations.csv", pathlib.Path(OUT), fmt)
    r = P.session(go); f = r.get("hard", 0)
    if r["status"] == "died": raise P.Violation("crash", f"interpreter dies: {r['msg']}")
    if r["status"] == "crash": P.probe("crash"); return
    if r["status"] == "exc":
        P.probe("reported")
        if exp and not st["bad"] and not f: raise P.Violation("spurious-failure", f"{r['exc']} {r['msg']} without a fault")
        if not r["msg"] and r["exc"] == "SystemExit": raise P.Violation("no-message", "the application fails without a message")
        return
    if exp is None: raise P.Violation("silent-failure", f"the application succeeds, but the library reports an error for {files} {names}")
    if st["short"] is not None: P.finding("profiles-missing-coordinates-skipped"); exp["profiles"][st["short"]] = None  # recorded: that station is skipped
    elif st["bad"]: raise P.Violation("silent-failure", "the application accepts a damaged file of stations")
    want = {}
    for row, x in zip(st["rows"], exp["profiles"]):
        if x: want[f"{OUT}/{row[0]}.{row[1]}.{fmt}"] = x
        else: P.probe("outside")
    for p, x in want.items(): check_file(fmt, p, x, names, exp["n"], float(res)); P.probe("profile-" + fmt)
    for p in P.listing():
        if p.startswith(OUT + "/") and p not in want and before.get(p) != P.get(p): raise P.Violation("extra", f"the application wrote {p}, which belongs to no station in the models")
def finish(): pass
OPS = {"smk": op_smk, "st": op_st, "prof": op_prof}

def gen24(r, mode):
    sd = lambda: str(r.randint(0, 10**9)); ms = ["a", "b"][:r.choice((1, 1, 2))]; l = [f"smk {m} {sd()} small=1" + r.choice(("", "", " surf=none", " surf=both")) for m in ms]
    def st(bad=True): return f"st {r.choice(ms)} {sd()} {r.choice((0, 1, 2, 3, 5, 9))}" + (" " + r.choice(("text", "short", "column")) if bad and r.random() < 0.12 else "")
    def prof():
        res = r.choice((25.0, 10.0, 100.0, 12.5, 0.5, 1000.0, 40.0)); k = r.choice((0, 1, 2, 4, 10, 10, 40)); maxd = res*(k + r.choice((0, 0, 0, 0.3, 0.8)))
        how = "cli" if r.random() < 0.6 else "app:" + ",".join(r.sample(["Vp", "Vs", "Density", "vp", "QP", "Qs", "density"], r.randint(1, 4)))
        return f"prof {r.choice(('csv', 'csv', 'txt'))} {round(maxd/1000, 9)!r} {res} {','.join(r.sample(ms, len(ms)) if r.random() < 0.96 else ['a', 'nofile'])} {how}"
    l.append(st())
    if mode == "benign": l.append("fault " + r.choice(("op=read from=0 n=-1 act=short:" + str(r.choice((1, 7, 511))), "op=read from=0 n=20 act=eintr", "op=write from=0 n=-1 act=short:" + str(r.choice((1, 5, 100))), "op=any from=0 n=-1 act=delay:20")))
    for _ in range(r.randint(1, 3)):
        p = prof()
        if mode == "faults" and r.random() < 0.85:
            if r.random() < 0.3: l.append(p)  # a complete output exists already
            f = r.choice(("", "", " file=.csv", " file=.txt", " file=.h5"))
            l.append("fault " + r.choice((f"op=read file=.h5 from={r.choice((0, r.randint(0, 40), r.randint(0, 40)))} n={r.choice((1, 1, 3, -1))} act=eio", f"op=open{f} from={r.randint(0, 5)} n={r.choice((1, -1))} act={r.choice(('emfile', 'eacces', 'enoent', 'eio'))}",
                f"op=write{f} from={r.randint(0, 6)} n={r.choice((1, -1))} act={r.choice(('eio', 'enospc'))}", f"op=wclose{f} from={r.randint(0, 4)} n=1 act={r.choice(('eio', 'enospc'))}", "op=read file=stations.csv from=0 n=1 act=eio",
                f"op=write budget={r.randint(1, 6000)} act=enospc", f"op=any from={r.randint(0, 60)} n=1 act=crash:{r.randint(0, 40)}", f"op=write from={r.randint(0, 6)} n=1 act=crash:{r.randint(0, 200)}", f"op=mkdir from=0 n=1 act={r.choice(('eacces', 'enospc'))}")))
            l += [p, "heal", p]
        else: l.append(p)
        if r.random() < 0.4: l.append(st())
    return l
GENS = {"C24": gen24}
