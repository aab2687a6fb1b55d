"""Data sources: EarthVision programs (C19) and CSV files (C20).

The EarthVision programs are stubs that read and write files on the simulated disk; api.py runs them through subprocess as usual.
The configuration, the operations and the checks of metadata and surfaces are those of psim_create."""
import hashlib, io, math, os, random, re, shlex, subprocess, time
import numpy as np
P = None; PC = None
RealPopen = subprocess.Popen
def bind(p):
    global P, PC; P = p; PC = p.psim_create; subprocess.Popen = FakePopen; p.srcs = SRC
    import geomodelgrids.create.data_srcs.earthvision.datasrc, geomodelgrids.create.data_srcs.csv.datasrc, pyproj
def h01(*a): return int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:6], "big")/2.0**48
NODATA = -1.0e+20

# ------------------------------------------------------------------ external programs
class Tools: on = False; c = None; rules = []; count = {}
def tool_fault(prog):
    n = Tools.count.get(prog, 0); Tools.count[prog] = n+1
    for r in Tools.rules:
        if r["prog"] == prog and r["from"] <= n and (r["n"] < 0 or n < r["from"]+r["n"]): return r["act"]
    return ""
BENIGN = ("hdr", "slow", "cut", "nonames")
def fired(prog, act):
    k = "tool-" + act.split(":")[0]; P.W.tool[k] = P.W.tool.get(k, 0)+1; P.probe(f"{prog}-{act.split(':')[0]}"); P.note(f"tool {prog} {act}")
class FakePopen:
    """subprocess.Popen for the stub programs."""
    def __new__(cls, *a, **kw): return object.__new__(cls) if Tools.on else RealPopen(*a, **kw)
    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None, universal_newlines=None, text=None, encoding=None, errors=None, **kw):
        self.args = args; argv = shlex.split(args) if isinstance(args, str) else [os.fspath(x) for x in args]; self.cwd = cwd; self.env = env; self.argv = argv; self.pid = 4711
        self.text = bool(universal_newlines or text or encoding); self._out = stdout; self.returncode = None; self.done = None; self.stderr = None
        self.stdin = io.BytesIO() if stdin == subprocess.PIPE else None; self._in = stdin.read() if hasattr(stdin, "read") else b""; self.stdout = None
        prog = os.path.basename(argv[0]); self.prog = prog
        if prog not in PROGS: raise FileNotFoundError(2, "No such file or directory", argv[0])
        self.act = tool_fault(prog)
        if self.act == "missing": fired(prog, "missing"); raise FileNotFoundError(2, "No such file or directory", argv[0])
        if stdout == subprocess.PIPE and self.stdin is None: self._run(self._in)
    def __enter__(self): return self
    def __exit__(self, *a): self.wait()
    def _run(self, data):
        if self.done is None:
            if isinstance(data, str): data = data.encode()
            self.returncode, out = simulate(self.prog, self.argv[1:], self.cwd, self.env, data, self.act); self.done = out.decode() if self.text else out
            if self._out == subprocess.PIPE: self.stdout = io.StringIO(self.done) if self.text else io.BytesIO(self.done)
            elif hasattr(self._out, "write"): self._out.write(out)
    def communicate(self, input=None, timeout=None):
        self._run(input if input is not None else (self.stdin.getvalue() if self.stdin and not self.stdin.closed else self._in)); return (self.done if self._out == subprocess.PIPE else None), None
    def wait(self, timeout=None):
        self._run(self.stdin.getvalue() if self.stdin and not self.stdin.closed else self._in); return self.returncode
    def poll(self): return self.returncode
    def kill(self): pass
    terminate = kill
def simulate(prog, argv, cwd, env, data, act):
    """Runs a stub program; returns exit code and standard output."""
    P.IO.simio_note(f"exec {prog} {' '.join(argv)} {data.decode('utf-8', 'replace')} {act}".encode())
    if P.IO.simio_crashed(): return -9, b""
    if not env or "LM_LICENSE_FILE" not in env: return 3, b"no license\n"
    if not cwd: return 4, b"not in model directory\n"
    path = lambda f: os.path.join(cwd, f)
    if act.startswith("exit") : fired(prog, act); return int(act.split(":")[1]), b""
    if act == "slow": fired(prog, act)
    return PROGS[prog](argv, path, data, act)
def rows_of(text, n):
    rows = []
    for l in text.split("\n"):
        l = l.split("#")[0].split()
        if l: rows.append([float(x) for x in l])
    return np.array(rows).reshape(-1, n)
def deliver(prog, path, rows, header, act, fields):
    """Writes the output file of a program, damaged as the fault says.  rows: lists of fields."""
    k, _, a = act.partition(":"); n = len(rows); sep = "\t"
    if k in ("noout", "kill", "rows", "one", "empty", "garble", "chop", "extra"): fired(prog, act)
    if k == "noout": return 0, b""
    code = 0; text = None
    if k == "rows": rows = rows[:max(0, n-max(1, int(a)))]
    if k == "one": rows = rows[:1] if n > 1 else []
    if k == "empty": rows = []
    if k == "extra": rows = rows + [rows[-1]]*int(a)
    if k == "garble":
        i = int(a) % n; j = int(a) % fields; rows = [list(r) for r in rows]; rows[i][j] = ("*******", "1.0.0", "", "--")[int(a) // 7 % 4]
        if len(rows[i]) == 1 and rows[i][0] == "": rows[i][0] = "****"
    head = "# Type: scattered data\n# Version: 6\n# Field: 1 x meters\n# End:\n" if k == "hdr" or header else ""
    if k == "hdr": fired(prog, act)
    text = head + "".join(sep.join(r) + "\n" for r in rows)
    if k == "kill": code = -9; text = text[:int(len(text)*float(a))]
    if k == "chop":  # last row is incomplete
        r = rows[-1]; text = head + "".join(sep.join(x) + "\n" for x in rows[:-1]) + (sep.join(r[:max(1, len(r)-1-int(a) % 3)]) if len(r) > 1 else "")
    P.put(path, text.encode()); return code, b""
def ev_facedump(argv, path, data, act):
    t = P.get(path(argv[0])) if argv else None
    if t is None: return 1, b"cannot open faces\n"
    k, _, a = act.partition(":")
    if k == "nonames": fired("ev_facedump", act); return 0, b""
    if k == "cut": fired("ev_facedump", act); return 0, t[:int(len(t)*float(a))]
    if k == "kill": fired("ev_facedump", act); return -9, t[:int(len(t)*float(a))]
    return 0, t
def ev_label(argv, path, data, act):
    o = {"-m": None, "-o": None, "-suppress": None}; files = []; i = 0
    while i < len(argv):
        if argv[i] in o: o[argv[i]] = argv[i+1]; i += 2
        else: files.append(argv[i]); i += 1
    pts = P.get(path(files[0])) if len(files) == 1 else None; model = P.get(path(o["-m"])) if o["-m"] else None
    if pts is None or model is None or o["-o"] is None: return 1, b"usage\n"
    p = rows_of(pts.decode(), 3); c = Tools.c; hs, vs = UNITS[c["xyu"]], UNITS[c["zu"]]
    rows = [["%.8e" % x, "%.8e" % y, "%.8e" % z, f'"{fb}"', f'"{zn}"'] for (x, y, z), (fb, zn) in zip(p, labels(c, p[:, 0]*hs, p[:, 1]*hs, p[:, 2]*vs))]
    return deliver("ev_label", path(o["-o"]), rows, c["hdr"], act, 3)
def ev_fp(argv, path, data, act):
    m = re.fullmatch(r"\s*(\S+?)<(\w+)>\s*=\s*bakint\((\S+?),\s*(\S+?)<x>,\s*(\S+?)<y>\);?\s*", data.decode())
    if not m or m.group(4) != m.group(5): return 1, b"syntax error\n"
    out, col, grd, fin, _ = m.groups(); pts = P.get(path(fin)); g = P.get(path(grd))
    if pts is None or g is None: return 1, b"cannot open file\n"
    p = rows_of(pts.decode(), 3 if len(pts.decode().split("\n")[0].split()) == 3 else 2); c = Tools.c; hs, vs = UNITS[c["xyu"]], UNITS[c["zu"]]; which, k = g.decode().split()
    e = grid_elev(c, which, k, p[:, 0]*hs, p[:, 1]*hs)/vs
    return deliver("ev_fp", path(out), [["%.9e" % x] for x in e], c["hdr"], act, 1)
PROGS = {"ev_facedump": ev_facedump, "ev_label": ev_label, "ev_fp": ev_fp}
UNITS = {"m": 1.0, "meter": 1.0, "km": 1000.0, "kilometers": 1000.0, "ft": 0.3048, "feet": 0.3048}

# ------------------------------------------------------------------ EarthVision model (analytic)
NAMES = ("Alexander", "Central Bay Block", "E Diablo Range", "Great Valley", "N. shelf", "south_coast C", "QT_Bay_Block_Santa Rosa", "Kgr_Gab", "<null>", "Logan G", "Mantle (lower) [x]", "T_La Honda", "water", "Lower Crust", "abcdefghijklmnopqrstuvwxyz012345")
def grid_elev(c, which, k, X, Y):
    if k == "zero": return np.zeros(np.shape(X))
    if k == "alt": return PC.elev1(c, which, X, Y) + 0.05*c["elev"]*np.sin(0.01 + 7.0*PC.unrotate(c, X, Y)[0]/c["dx"])
    return PC.elev1(c, which, X, Y)
def labels(c, X, Y, Z):
    x, y = PC.unrotate(c, X, Y); u, v, w = x/c["dx"], y/c["dy"], -Z/c["dz"]; e = c["ev"]; nf, nz = len(e["fb"]), len(e["zn"])
    f = np.floor(0.37 + 0.97*nf*(u + 0.31*v)/1.31 + 0.11*w).astype(int) % nf; z = np.floor(0.43 + 0.93*nz*(0.8*w + 0.2*v)).astype(int) % nz
    return [(e["fb"][i], e["zn"][j]) for i, j in zip(f, z)]
def get_rules(fault_block, zone):  # rules_fn of the configuration
    return rule(Tools.c, fault_block, zone)
def rule(c, fb, zone):
    n = len(c["values"])-2; kind = int(6*h01("k", fb, zone, c["salt"])); b = [round(500.0*(i+1) + 400.0*h01(i, fb, zone, c["salt"]), 1) for i in range(n)]
    nx, ny = c["surface"]["x"]["n"], c["surface"]["y"]["n"]; nz = max(1.0, sum(g["nz"]-1 for g in c["blocks"]))
    def grad(x, y, depth):
        u, v = PC.unrotate(c, x, y); return tuple(b[i] + 0.5*nx*u/c["dx"]*(1+i) - 0.7*ny*v/c["dy"] + 5.0*nz*depth/c["dz"] for i in range(n))
    if kind == 0: return lambda x, y, d: tuple(int(t) for t in b)
    if kind == 1: return lambda x, y, d: tuple([1030.5] + [NODATA]*(n-1))
    if kind == 2: return lambda x, y, d: tuple([int(b[0])] + [t for t in grad(x, y, d)[1:]])
    return grad
def ev_cfg(name, seed, kv):
    r = random.Random(f"ev:{seed}"); k2 = dict(kv, varz="0"); k2["surf"] = kv.get("surf") or r.choice(("top", "both", "both", "topo")); c = PC.make_cfg(name, seed, k2)
    n = r.choice((1, 2, 2, 3)); c["values"] = ["density", "Vp", "Vs"][:n] + ["fault_block_id", "zone_id"]; c["units"] = ["kg/m**3", "m/s", "m/s"][:n] + ["none", "none"]
    for b in c["blocks"]: b["chunk"][3] = r.randint(1, len(c["values"]))
    cell = min(float(np.min(np.diff(PC.coords(c["surface"], a)))) for a in "xy"); lim = 5e4 if cell > 40 else 40*cell  # data source keeps x and y in single precision
    c["ox"], c["oy"] = round(r.uniform(-lim, lim), 2), round(r.uniform(-lim, lim), 2)
    c["src"] = "ev"; c["source"] = "geomodelgrids.create.data_srcs.earthvision.datasrc.RulesDataSrc"; c["xyu"] = r.choice(("m", "km", "meter", "ft")); c["zu"] = r.choice(("m", "km", "feet")); c["hdr"] = r.random() < 0.5
    ev_model(c, r)
    c["grids"] = {w: r.choice((["base"], ["base", "zero"], ["zero", "base"], ["base", "alt"])) for w in ("top_surface", "topography_bathymetry")}
    if c["surf"] == "both": c["grids"]["topography_bathymetry"] = ["base"]
    if c["surf"] == "topo": c["grids"]["topography_bathymetry"] = ["base"]
    f = lambda w: "[" + ", ".join(f"{w[:4]}_{k}.2grd" for k in c["grids"][w]) + "]"
    c["extra"] = ["[earthvision]", f"model_dir = {EVDIR}", f"top_surface_2grd = {f('top_surface')}", f"topography_bathymetry_2grd = {f('topography_bathymetry')}", "geologic_model = bay.seq", f"elev_units = {c['zu']}", f"xy_units = {c['xyu']}", "rules_fn = psim_srcs.get_rules",
        "[earthvision.environment]", "PATH = /bin:/opt/ev/bin", "LM_LICENSE_FILE = /opt/ev/license.dat"]
    return c
EVDIR = "/simfs/ev"
def ev_model(c, r):
    nm = list(NAMES); r.shuffle(nm); nf, nz = r.choice((1, 2, 3, 4)), r.choice((1, 2, 3, 4)); e = {"fb": nm[:nf], "zn": r.sample(NAMES, nz)}
    for k in ("fb", "zn"):
        ids = r.sample(range(1, 60), len(e[k])+2); e[k + "ids"] = dict(zip(e[k], ids)); extra = [x for x in NAMES if x not in e[k]][:2] if r.random() < 0.5 else []; e[k + "all"] = list(e[k + "ids"].items()) + list(zip(extra, ids[len(e[k]):])); r.shuffle(e[k + "all"])
        if r.random() < 0.35: e[k] = e[k] + [""]; e[k + "ids"][""] = NODATA; r.shuffle(e[k])
    c["ev"] = e
def ev_files(c):
    e = c["ev"]; t = "EarthVision faces file: bay.faces\n\nNumber of objects: 4\n" + "Fault Block Names\n" + "".join(f"[{i}] {n}\n" for n, i in e["fball"]) + "\nZone Names\n" + "".join(f"[{i}] {n}\n" for n, i in e["znall"]) + "\nEnd\n"
    f = {"bay.faces": t, "bay.seq": "sequence\n"}
    for w in ("top_surface", "topography_bathymetry"):
        for k in ("base", "zero", "alt"): f[f"{w[:4]}_{k}.2grd"] = f"{w} {k}"
    for n, t in f.items(): P.put(f"{EVDIR}/{n}", t.encode())
    return {f"{EVDIR}/{n}" for n in f}
def ev_check_block(c, b, v, where, partial=False):
    """Values of a block: the rules applied to one of the labels that the programs can have returned for the node."""
    X, Y, Z = PC.block_nodes(c, b); d0 = PC.ground(c, X, Y)-Z; sh = X.shape; n = len(c["values"])
    if v.shape != sh + (n,): raise P.Violation("stored-data", f"{where} has shape {v.shape}, expected {sh + (n,)}")
    sx = 3e-7*(np.max(np.abs(X))+1); sy = 3e-7*(np.max(np.abs(Y))+1); sz = 3e-7*(np.max(np.abs(Z))+c["elev"]+1) + PC.surf_tol(c); cells = [float(np.min(np.diff(PC.coords(c["surface"], a)))) for a in "xy"]
    fx, fy, fz = X.ravel(), Y.ravel(), Z.ravel(); cand = [labels(c, fx+a*sx, fy+bb*sy, fz+g*sz) for a in (-1, 0, 1) for bb in (-1, 0, 1) for g in (-1, 0, 1)]
    vv = v.reshape(-1, n).astype(float); D = d0.ravel(); top = np.broadcast_to((np.arange(sh[2]) == 0)[None, None, :], sh).ravel(); P.check(vv.size)
    tolg = 2.0*(0.5*4*c["surface"]["x"]["n"]/c["dx"]*(sx+sy) + 0.7*c["surface"]["y"]["n"]/c["dy"]*(sx+sy)) + 5.0*max(1.0, sum(g["nz"]-1 for g in c["blocks"]))/c["dz"]*sz*2 + 1e-6
    for i in range(len(fx)):
        if partial and not np.any(vv[i]): continue
        ok = False
        for fb, zn in {cc[i] for cc in cand}:
            ids = (c["ev"]["fbids"][fb], c["ev"]["znids"][zn]); f = rule(c, fb, zn)
            for d in ((D[i], D[i]-b["off"], D[i]+b["off"]) if top[i] and b["off"] else (D[i],)):
                w = np.array(f(fx[i], fy[i], d) + ids, float)
                if np.all(np.abs(vv[i]-w) <= 1e-6*np.abs(w) + tolg): ok = True; break
            if ok: break
        if not ok:
            k = np.unravel_index(i, sh); raise P.Violation("stored-data", f"{where} at node {tuple(int(q) for q in k)} is {vv[i].tolist()}, the programs and rules give {w.tolist()} (fault block {fb!r}, zone {zn!r}, depth {D[i]:.6g})" + (" after a failed import" if partial else ""))

# ------------------------------------------------------------------ CSV
CSVF = "/simfs/work/model data.txt"
GEO = {"EPSG:3488": "EPSG:4759", "EPSG:26910": "EPSG:4269", "EPSG:2193": "EPSG:4167"}
def csv_cfg(name, seed, kv):
    r = random.Random(f"csv:{seed}"); k2 = dict(kv, surf="none", batch=kv.get("batch", "none")); c = PC.make_cfg(name, seed, k2)
    c["src"] = "csv"; c["source"] = "geomodelgrids.create.data_srcs.csv.datasrc.CSVFile"; cell = min(float(np.min(np.diff(PC.coords(g, a)))) for g in c["blocks"] for a in "xy")
    c["csvcrs"] = r.choice((c["crs"], GEO[c["crs"]])) if cell > 40 else c["crs"]
    if c["csvcrs"] != c["crs"] and c["crs"] == "EPSG:2193": c["ox"] = round(1.6e6 + r.uniform(-3e5, 3e5), 2)
    c["flag"] = r.choice(("#", "#", ">", "!", None)); c["miss"] = r.choice((0.0, 0.0, 0.1, 0.5)); c["junk"] = r.random() < 0.4; c["near"] = r.random() < 0.4; c["out"] = r.random() < 0.4; c["jit"] = r.choice((0.0, 0.0, 0.02)); 
    if len(c["blocks"]) > 1 or c["near"]: c["jit"] = 0.0
    names = ["x", "y", "z"] + c["values"]; cols = r.sample(range(len(names)+(2 if c["junk"] else 0)), len(names)); c["cols"] = dict(zip(names, cols)); c["ncol"] = len(names)+(2 if c["junk"] else 0)
    if kv.get("rows"): c["rows"] = int(kv["rows"])
    c["extra"] = ["[csv]", f"filename = {CSVF}", f"crs = {c['csvcrs']}"] + ([f"comment_flag = {c['flag']}"] if c["flag"] else []) + ["[csv.columns]"] + [f"{k} = {i}" for k, i in c["cols"].items()]
    c["now"] = 1.7e9; c["rowseed"] = seed; return c
def loc(b, i, j, k): return PC.coords(b, "x")[i], PC.coords(b, "y")[j], PC.zlogical(b)[k]
def csv_rows(c):
    """All rows as (x, y, z, values) in the coordinates of the model, and per block the expected values (None: unspecified)."""
    r = random.Random(f"rows:{c['rowseed']}"); n = len(c["values"]); rows = []; nodes = {}
    for b in c["blocks"]:
        xs, ys, zs = PC.coords(b, "x"), PC.coords(b, "y"), PC.zlogical(b)
        for x in xs:
            for y in ys:
                for z in zs:
                    k = (round(float(x), 3), round(float(y), 3), round(float(z), 3))
                    if k not in nodes: nodes[k] = None if h01("m", k, c["rowseed"]) < c["miss"] else (float(x), float(y), float(z))
    if not any(nodes.values()): k = next(iter(nodes)); nodes[k] = k
    keys = [k for k in nodes if nodes[k]]
    if c.get("rows"): keep = set(r.sample(keys, min(len(keys), c["rows"]))); keys = [k for k in keys if k in keep]
    for k in nodes:
        if nodes[k] and k not in keys and c.get("rows"): nodes[k] = None
    cell = [min(float(np.min(np.diff(PC.coords(b, a)))) for b in c["blocks"]) for a in "xy"] + [min(float(np.min(-np.diff(PC.zlogical(b)))) for b in c["blocks"])]
    val = lambda x, y, z: [float("%.7g" % PC.value_fn(dict(c, ox=0.0, oy=0.0, az=0.0), i, x, y, z, -z)) for i in range(n)]
    exp = {}
    for k in keys:
        x, y, z = nodes[k]; w = val(x, y, z); exp[k] = w; J = c["jit"]; rows.append((x + r.uniform(-J, J)*cell[0], y + r.uniform(-J, J)*cell[1], z + r.uniform(-J, J)*cell[2], w))
        if c["near"] and r.random() < 0.15:  # row between nodes; the row of the node is closer
            rows.append((x + r.choice((-0.3, 0.3))*cell[0], y + r.choice((-0.2, 0.2))*cell[1], z + r.choice((0.0, -0.2, 0.2))*cell[2], [t+77.0 for t in w]))
    if c["out"]:
        for _ in range(r.randint(1, 6)):
            dx, dy, dz = c["dx"], c["dy"], c["dz"]; p = r.choice(((-1.5*cell[0]-0.2*dx, 0.0, 0.0), (dx*1.3 + 2*max(cell[0], dx), 0.0, 0.0), (0.0, -0.7*dy-2*dy, -dz), (0.0, dy*4, 0.0), (0.0, 0.0, 2*dz), (dx, 0.0, -dz*3.1)))
            rows.append(p + ([55.0]*n,))
    r.shuffle(rows); return rows, exp, nodes
def csv_text(c):
    import pyproj
    r = random.Random(f"text:{c['rowseed']}"); rows, _, _ = csv_rows(c); f = c["flag"] or "#"; n = len(c["values"])
    X, Y = PC.rotate(c, np.array([t[0] for t in rows]), np.array([t[1] for t in rows])); Z = np.array([t[2] for t in rows])
    if c["csvcrs"] != c["crs"]: X, Y = pyproj.Transformer.from_crs(c["crs"], c["csvcrs"], always_xy=True).transform(X, Y)
    l = [f"{f} header {i}" for i in range(r.choice((0, 1, 3)))]
    for t in range(len(rows)):
        a = ["-1"]*c["ncol"]; fmt = "%.11f" if c["csvcrs"] != c["crs"] else "%.5f"; a[c["cols"]["x"]] = fmt % X[t]; a[c["cols"]["y"]] = fmt % Y[t]; a[c["cols"]["z"]] = "%.5f" % Z[t]
        for i, v in enumerate(c["values"]): a[c["cols"][v]] = "%.7g" % rows[t][3][i]
        l.append(r.choice((" ", "  ", "\t")).join(a) + (f"  {f} note" if r.random() < 0.03 else ""))
        if r.random() < 0.02: l.append(r.choice(("", f"{f}", "   ")))
    return l
def csv_put(c):
    l = csv_text(c); d = c.get("dam")
    if d == "gone": P.remove(CSVF); return
    t = "\n".join(l) + "\n"; body = [i for i, x in enumerate(l) if x.strip() and not x.startswith(c["flag"] or "#")]
    if d and body:
        i = body[int(c["damat"]*len(body)) % len(body)]
        used = sorted(c["cols"].values())
        if d == "row": l = l[:i] + [" ".join(l[i].split((c["flag"] or "#"))[0].split()[:max(1, used[-1] - int(7*c["damat"]) % 2)])]; t = "\n".join(l)
        if d == "garble": w = l[i].split(); w[used[int(31*c["damat"]) % len(used)]] = "1.2.3"; l[i] = " ".join(w); t = "\n".join(l) + "\n"
    P.put(CSVF, t.encode())
def csv_check_block(c, b, v, where, partial=False):
    n = len(c["values"]); sh = (b["x"]["n"], b["y"]["n"], b["nz"]); rows, exp, nodes = csv_rows(c); P.check(v.size)
    if v.shape != sh + (n,): raise P.Violation("stored-data", f"{where} has shape {v.shape}, expected {sh + (n,)}")
    xs, ys, zs = PC.coords(b, "x"), PC.coords(b, "y"), PC.zlogical(b); R = np.array([t[:3] for t in rows]).reshape(-1, 3); mc = [float(np.max(np.diff(q))) for q in (xs, ys, -zs)]
    for i, x in enumerate(xs):
        for j, y in enumerate(ys):
            for k, z in enumerate(zs):
                key = (round(float(x), 3), round(float(y), 3), round(float(z), 3)); w = exp.get(key); a = v[i, j, k].astype(float)
                if partial and not np.any(a): continue
                if w is None:
                    if len(R) and np.any(np.all(np.abs(R-np.array((x, y, z))) <= 0.6*np.array(mc), axis=1)): continue  # row between nodes
                    w = [NODATA]*n
                if not np.all(np.abs(a-np.array(w)) <= 1e-6*np.abs(np.array(w))+1e-6): raise P.Violation("stored-data", f"{where} at node {(i, j, k)} is {a.tolist()}, the row at ({x}, {y}, {z}) has {w if w[0] != NODATA else 'no row'}")

# ------------------------------------------------------------------ interface for psim_create
class SRC:
    cfg = {"ev": ev_cfg, "csv": csv_cfg}; check_block = {"ev": ev_check_block, "csv": csv_check_block}; put = {"ev": ev_files, "csv": csv_put}
    @staticmethod
    def emc_attrs(c, a): del a["history"]; del a["crs"]
    @staticmethod
    def emc_domain(attrs, c): P.psim_emc.check_domain(attrs, c)
    grid_elev = staticmethod(grid_elev)
    @staticmethod
    def files(c):
        if c.get("src"): SRC.put[c["src"]](c)
    @staticmethod
    def begin(c):  # inside the session
        Tools.on = c.get("src") == "ev"; Tools.c = c; Tools.count = {}
    @staticmethod
    def tool_failed(c, res, parts):
        """What went wrong in the data source and has to make the run fail; empty if nothing."""
        bad = [k for k in res.get("tool", {}) if k.split("-")[1] not in BENIGN]
        if bad: return "external program failed (" + ", ".join(bad) + ")"
        if c.get("src") == "csv" and "blocks" in parts:
            if c.get("dam"): return f"CSV file is damaged ({c['dam']})"
            if c["batch"] and res["status"] == "exc" and res["exc"] == "NotImplementedError": P.probe("csv-batch-refused"); return "batches are not implemented"
        if c.get("src") == "emc" and c.get("dam"): return f"NetCDF file is damaged ({c['dam']})"
        if any(k in res.get("tool", {}) for k in ("tool-cut", "tool-nonames")) and res["status"] == "exc": return "list of names is incomplete"
        return ""
    @staticmethod
    def leftovers(before):
        for f in P.listing():
            if f.startswith(EVDIR + "/") and f not in before: raise P.Violation("leftover", f"successful run leaves {f} behind")
    @staticmethod
    def check_partial(c):
        """After a failed import: whatever is stored is right."""
        import h5py
        with h5py.File(c["file"], "r") as h:
            for n in PC.surfaces(c):
                if "surfaces/" + n in h:
                    v = h["surfaces/" + n][()][:, :, 0]; w = PC.ref_surface(c, n); ok = PC.close(v, w, 2e-6, PC.surf_tol(c)) | (v == 0); P.check(v.size)
                    if v.shape != w.shape or not ok.all(): raise P.Violation("stored-data", f"{n} has wrong elevations after a failed import ({int((~ok).sum())} nodes)")
            for b in c["blocks"]:
                if "blocks/" + b["name"] in h: SRC.check_block[c["src"]](c, b, h["blocks/" + b["name"]][()], "blocks/" + b["name"], True)
    @staticmethod
    def date(c): return time.strftime("%Y-%m-%d", time.gmtime(c["now"]))
def op_tool(args, line):
    kv = dict(x.split("=", 1) for x in args); Tools.rules = Tools.rules + [{"prog": kv["prog"], "from": int(kv.get("from", 0)), "n": int(kv.get("n", 1)), "act": kv["act"]}]
def op_notool(args, line): Tools.rules = []
def op_evchange(args, line):
    """Another geologic model in the same directory; created models are removed."""
    s = PC.st(args[0]); r = random.Random(f"evchange:{args[1]}"); c = dict(s.c); c["salt"] = r.randint(0, 10**6); ev_model(c, r); PC.op_rmfile([args[0]], ""); s.c = c; SRC.files(c)
def op_csvfile(args, line):
    """csvfile NAME SEED [dam=gone|row|garble at=F]: writes the CSV file again, other row order and missing rows, possibly damaged."""
    s = PC.st(args[0]); kv = dict(x.split("=", 1) for x in args[2:]); s.c = dict(s.c, rowseed=args[1], dam=kv.get("dam"), damat=float(kv.get("at", 0))); PC.op_rmfile([args[0]], ""); SRC.files(s.c)
def op_csvfix(args, line): s = PC.st(args[0]); s.c = dict(s.c, dam=None); SRC.files(s.c)
def op_clock(args, line): s = PC.st(args[0]); s.c = dict(s.c, now=float(args[1]))
OPS = {"tool": op_tool, "notool": op_notool, "evchange": op_evchange, "csvfile": op_csvfile, "csvfix": op_csvfix, "clock": op_clock}
def finish(): pass

# ------------------------------------------------------------------ generators
def sd(r): return str(r.randint(0, 10**9))
def tool(r):
    p = r.choice(("ev_label", "ev_label", "ev_label", "ev_fp", "ev_fp", "ev_facedump")); fr = r.choice((0, 0, 1, 2, r.randint(0, 30))) if p != "ev_facedump" else 0; n = r.choice((1, 1, 1, 2, -1))
    if p == "ev_facedump": a = r.choice(("exit:1", "missing", f"kill:{round(r.random(), 2)}", "nonames", f"cut:{round(r.random(), 3)}"))
    else: a = r.choice((f"exit:{r.choice((1, 2, 255))}", f"kill:{round(r.random(), 2)}", "missing", "noout", "noout", f"rows:{r.choice((1, 2, r.randint(1, 50)))}", "one", "empty", f"garble:{r.randint(0, 500)}", f"chop:{r.randint(0, 9)}", f"extra:{r.choice((1, 2, 7))}"))
    if p == "ev_fp" and r.random() < 0.3: a = "noout"  # after the output for another grid
    return f"tool prog={p} from={fr} n={n} act={a}"
def benign_tool(r): return f"tool prog={r.choice(('ev_label', 'ev_fp'))} from=0 n=-1 act={r.choice(('hdr', 'slow'))}"
def evfault(r, name):
    f = r.choice(("block_points.dat", "block_values.dat", "top_surface_points.dat", "top_surface_elev.dat", "topography_bathymetry_points.dat", "topography_bathymetry_elev.dat", ".dat"))
    return r.choice((f"fault op=write file={f} from={r.randint(0, 3)} n={r.choice((1, -1))} act={r.choice(('enospc', 'eio'))}", f"fault op=read file={f} from={r.choice((0, 1, 3))} n={r.choice((1, -1))} act=eio", f"fault op=open file={f} from={r.randint(0, 5)} n={r.choice((1, -1))} act={r.choice(('emfile', 'eacces', 'enoent'))}",
        f"fault op={r.choice(('write', 'open', 'close', 'unlink'))} file={f} from={r.randint(0, 6)} n=1 act=crash:{r.choice((0, 1, 100))}", f"fault op=unlink file={f} from={r.randint(0, 3)} n=1 act=eacces", f"fault op=wclose file={f} from={r.randint(0, 3)} n=1 act=eio"))
def stale(r):
    """A failed run leaves files behind; in the next one, for another geologic model, the program writes nothing."""
    p = r.choice(("ev_label", "ev_label", "ev_fp")); k = r.choice((0, 0, 0, 1, 2)); f = "block_values.dat" if p == "ev_label" else "elev.dat"; l = [f"cfg a {sd(r)} src=ev small=1{r.choice((' batch=none', ' batch=none', ' batch=6', ''))}"]
    l += [r.choice((f"tool prog={p} from={k} n=1 act=kill:1.0", f"tool prog={p} from={k} n=1 act=garble:{r.randint(0, 500)}", f"fault op=read file={f} from={r.randint(0, 2)} n=-1 act=eio", f"fault op={r.choice(('unlink', 'open'))} file={f} from={r.randint(0, 3)} n=1 act=crash:0")), "run a all", "heal", "notool"]
    if r.random() < 0.7: l.append(f"evchange a {sd(r)}")
    return l + [f"tool prog={p} from={k} n={r.choice((1, -1))} act=noout", "run a all", "notool", "converge a"]
def gen19(r, mode):
    if mode == "faults" and r.random() < 0.25: return stale(r)
    b = "" if r.random() < 0.4 else f" batch={r.choice((1, 2, 3, 5, 10, 30, 100))}"; l = [f"cfg a {sd(r)} src=ev{" small=1" if r.random() < 0.4 else PC.opts(r)}{b}"]
    if mode == "benign": l += [PC.benign(r) if r.random() < 0.5 else benign_tool(r)]
    for t in r.choice((["all"], ["domain,surfaces", "blocks"], ["domain", "surfaces", "blocks"], ["all", "blocks"], ["all", "surfaces"])):
        if mode == "faults" and r.random() < 0.8:
            k = r.random(); fs = [tool(r)] if k < 0.6 else [evfault(r, "a")] if k < 0.85 else [PC.fault(r, "a")] if k < 0.92 else [evfault(r, "a"), tool(r)]
            l += fs + [f"run a {t}{PC.via(r)}", "heal", "notool"]
            if r.random() < 0.5:
                if r.random() < 0.4: l.append(f"evchange a {sd(r)}"); l += [tool(r), "run a all", "notool", "converge a"] if r.random() < 0.7 else ["run a all"]; continue
                l += [tool(r), f"run a {t}", "notool"]
            l.append("converge a" if r.random() < 0.8 else f"run a {t}")
        else: l.append(f"run a {t}{PC.via(r)}")
        if r.random() < 0.3: l.append(f"batch a {PC.batches(r)}")
    l.append("converge a"); return l
def gen20(r, mode):
    o = "".join((" small=1" if r.random() < 0.3 else "", " var=1" if r.random() < 0.35 else "", r.choice(("", "", " varz=1", " varz=0")), f" rows={r.choice((1, 2, 5))}" if r.random() < 0.12 else "", " batch=10" if mode == "faults" and r.random() < 0.04 else ""))
    l = [f"cfg a {sd(r)} src=csv{o}", f"clock a {r.choice((0, 86399, 1709164800, r.randint(0, 4*10**9), r.randint(0, 4*10**9)))}"]
    if mode == "benign": l.append(PC.benign(r))
    for _ in range(r.randint(1, 3)):
        if r.random() < 0.5: l.append(f"clock a {r.randint(0, 4*10**9)}")
        if mode == "faults" and r.random() < 0.7:
            if r.random() < 0.4: l += [f"csvfile a {sd(r)} dam={r.choice(('gone', 'row', 'garble'))} at={round(r.random(), 3)}", "run a all", "csvfix a"]
            else:
                f = r.choice((f"fault op=read file=.txt from={r.choice((0, 0, 1, 2))} n={r.choice((1, -1))} act=eio", f"fault op=open file=.txt from=0 n=-1 act={r.choice(('emfile', 'enoent', 'eacces'))}", PC.fault(r, "a"))); l += [f, f"run a all{PC.via(r)}", "heal"]
            l.append("converge a" if r.random() < 0.7 else "run a all")
        else: l.append(r.choice(("run a all", "run a domain,blocks", "run a blocks,domain")) + PC.via(r))
        if r.random() < 0.4: l += [f"csvfile a {sd(r)}", "run a all"]
    l.append("converge a"); return l
GENS = {"C19": gen19, "C20": gen20}
