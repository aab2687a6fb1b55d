"""IRIS EMC data source (C23): NetCDF files on the simulated disk, read through a stub of the netCDF4 module."""
import json, os, random, sys, time, types
import numpy as np
P = None; PC = None; NODATA = -1.0e+20
EMCF = "/simfs/emc/model file.nc"
def bind(p):
    global P, PC; P = p; PC = p.psim_create; S = p.srcs; S.cfg["emc"] = emc_cfg; S.check_block["emc"] = check_block; S.put["emc"] = emc_put
    m = types.ModuleType("netCDF4"); m.Dataset = Dataset; m.Variable = Variable; sys.modules["netCDF4"] = m
    import geomodelgrids.create.data_srcs.iris_emc.datasrc

# ------------------------------------------------------------------ netCDF4 (as much of it as reading needs)
MAGIC = b"\x89SIMNC\r\n"
class Base:
    def __getattr__(self, k):
        a = self.__dict__.get("_attrs", {})
        if k in a: return a[k]
        raise AttributeError(f"NetCDF: Attribute not found: {k}")
    def ncattrs(self): return list(self._attrs)
    def getncattr(self, k): return getattr(self, k)
class Variable(Base):
    """Reads from disk when it is indexed; values equal to the fill value are masked, as with set_auto_mask(True)."""
    def __init__(self, ds, name, d):
        self.__dict__.update(_ds=ds, name=name, dtype=np.dtype(d["dtype"]), shape=tuple(d["shape"]), dimensions=tuple(d["dims"]), _pos=d["pos"], _attrs={k: attr(v) for k, v in d["attrs"].items()}); self.ndim = len(self.shape); self.size = int(np.prod(self.shape)); self._mask = True
    def set_auto_mask(self, on): self._mask = bool(on)
    set_auto_maskandscale = set_auto_mask
    def __len__(self): return self.shape[0]
    def __array__(self, dtype=None): a = np.asarray(self[:]); return a if dtype is None else a.astype(dtype)
    def __getitem__(self, key):
        if self._ds._fd is None: raise RuntimeError("NetCDF: Not a valid ID")
        key = key if isinstance(key, tuple) else (key,); k0 = key[0]; n = self.shape[0]; row = int(np.prod(self.shape[1:]))*self.dtype.itemsize
        rows = range(*k0.indices(n)) if isinstance(k0, slice) else range(n); a = np.zeros((n,) + self.shape[1:], self.dtype)
        for i in rows: a[i] = np.frombuffer(self._ds._read(self._pos + i*row, row), self.dtype).reshape(self.shape[1:])
        a = a[key]; f = self._attrs.get("_FillValue", self._attrs.get("missing_value"))
        if not self._mask: return a
        m = np.isnan(a) if f is not None and np.isnan(f) else (a == self.dtype.type(f)) if f is not None else np.zeros(np.shape(a), bool)
        return np.ma.MaskedArray(a, mask=m if np.any(m) else False, fill_value=f)
class Dataset(Base):
    def __init__(self, filename, mode="r", *a, **kw):
        self.__dict__["_fd"] = None
        if mode != "r": raise PermissionError(13, "Permission denied", filename)
        self._fd = os.open(os.fspath(filename), os.O_RDONLY)
        try:
            h = self._read(0, 16)
            if h[:8] != MAGIC: raise OSError(-51, "NetCDF: Unknown file format", filename)
            h = json.loads(self._read(16, int.from_bytes(h[8:], "little")))
        except BaseException as e:
            self.close()
            if isinstance(e, RuntimeError): raise OSError(-101, "NetCDF: HDF error", filename)
            raise
        self._attrs = {k: attr(v) for k, v in h["attrs"].items()}; self.variables = {k: Variable(self, k, d) for k, d in h["vars"].items()}; self.dimensions = dict(h["dims"]); self._mode = mode
    def _read(self, pos, n):
        b = b""
        try:
            while len(b) < n:
                t = os.pread(self._fd, n-len(b), pos+len(b))
                if not t: raise RuntimeError("NetCDF: HDF error")
                b += t
        except OSError: raise RuntimeError("NetCDF: HDF error")
        return b
    def __getitem__(self, k): return self.variables[k]
    def isopen(self): return self._fd is not None
    def set_auto_mask(self, on): [v.set_auto_mask(on) for v in self.variables.values()]
    set_auto_maskandscale = set_auto_mask
    def close(self):
        if self._fd is not None: os.close(self._fd); self._fd = None
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def __del__(self): self.close()
def attr(v): return np.dtype(v[0]).type(v[1]) if isinstance(v, list) else v
def nc_bytes(dims, attrs, variables):
    """variables: (name, dimensions, array, attributes); attributes are strings or [dtype, value]."""
    h = {"dims": dims, "attrs": attrs, "vars": {}}; pos = 0
    for n, d, a, at in variables: h["vars"][n] = dict(dims=d, shape=list(a.shape), dtype=a.dtype.str, attrs=at, pos=pos); pos += a.nbytes
    k = len(json.dumps(h)) + 20*len(variables)
    for d in h["vars"].values(): d["pos"] += 16+k
    t = json.dumps(h).encode(); assert len(t) <= k; t = t.ljust(k); return MAGIC + len(t).to_bytes(8, "little") + t + b"".join(np.ascontiguousarray(a).tobytes() for _, _, a, _ in variables)

# ------------------------------------------------------------------ model
WORDS = ("S362ANI+M", "shear-wave velocity", "Moulik & Ekström (2014)", "v. 1, draft", "3D model; depth 25 km", "Mw > 5", "percent 50%", "世界")
ATTRS = ("title", "id", "summary", "comment", "acknowledgement", "license", "data_revision", "history", "reference", "author_name", "author_email", "author_institution", "creator_name", "creator_email", "creator_institution", "keywords")
def emc_cfg(name, seed, kv):
    r = random.Random(f"emc:{seed}"); small = kv.get("small") == "1"; n = {a: r.choice((2, 3, 4) if small else (2, 3, 4, 5, 7, 9, 12)) for a in "xyz"}; c = {"name": name, "file": f"/simfs/{name}.h5", "src": "emc", "crs": None, "az": 0.0, "surf": "none", "elev": 0.0, "aux": None, "now": 1.7e9}
    dt = r.choice(("<f4", "<f8")); g = lambda lo, hi, k, d: (lambda s: (lambda o: [o + i*s for i in range(k)])(r.choice((round(r.uniform(lo, hi - s*k), 2), float(int(r.uniform(lo, hi - s*k)))))))(d)
    lon = g(-180, 180, n["x"], r.choice((0.01, 0.1, 0.25, 0.5, 1.0, 2.0, 1/3))); lat = g(-80, 80, n["y"], r.choice((0.01, 0.1, 0.25, 0.5, 1.0, 2.0, 1/3)))
    zu = r.choice(("km", "km", "m", "kilometer", "meters")); step = r.choice((0.5, 1.0, 5.0, 25.0, 12.5)) * (1000.0 if zu[0] == "m" and r.random() < 0.7 else 1.0); var = kv.get("varz") == "1" or r.random() < 0.4 and n["z"] > 2
    z = [0.0]
    for i in range(1, n["z"]): z.append(z[-1] + step*(r.choice((1, 2, 3, 5)) if var else 1))
    if var and n["z"] > 2 and len(set(np.diff(z))) == 1: z[-1] += step
    if var and n["z"] > 2 and r.random() < 0.4:  # nearly uniform
        t = [0.0]
        for i in range(1, n["z"]): t.append(round(t[-1] + step*(1 + r.choice((0.0, 0.0, 0.02, -0.03, 0.08))), 3))
        if np.std(np.diff(t)) > 0.004: z = t
    c["nc"] = dict(lon=np.array(lon).astype(dt), lat=np.array(lat).astype(dt), z=np.array(z).astype(dt), zu=zu, dt=dt, adt=r.choice(("<f4", "<f8")) if min(abs(lon[1]-lon[0]), abs(lat[1]-lat[0])) > 0.2 else "<f8", fill=r.choice((99999.0, 99999.0, -9999.0, float("nan"), None)), fname=r.choice(("_FillValue", "missing_value")), vdt=r.choice(("<f4", "<f4", "<f8")))
    names = r.sample(("vs", "vp", "vsv", "vsh", "rho", "qmu", "thickness_1"), r.choice((1, 2, 3, 4))); c["nc"]["vars"] = names; c["nc"]["order"] = r.choice(("first", "last", "mixed")); texts(c, r)
    c["values"] = list(names); c["units"] = [r.choice(("km.s-1", "m/s", "g/cm**3", "none", "km/s")) for _ in names]; c["salt"] = r.randint(0, 10**6); c["holes"] = r.choice((0.0, 0.05, 0.3)) if c["nc"]["fill"] is not None else 0.0
    c["atol"] = 1e-6 if c["nc"]["adt"] == "<f8" else 4e-5
    sc = 1000.0 if zu[0] == "k" else 1.0; ge = geo(c); b = {"name": "block", "off": 0.0, "nz": n["z"]}
    c["ox"], c["oy"] = ge["lon_min"], ge["lat_min"]; c["dx"], c["dy"], c["dz"] = ge["lon_max"]-ge["lon_min"], ge["lat_max"]-ge["lat_min"], ge["z_max"]*sc
    b["x"] = {"res": c["dx"]/(n["x"]-1), "n": n["x"]}; b["y"] = {"res": c["dy"]/(n["y"]-1), "n": n["y"]}; b["ztop"], b["zbot"] = 0.0, -c["dz"]
    if np.std(np.diff(z)) > 1e-9: b["zc"] = [float(-sc*t) for t in c["nc"]["z"]]
    else: b["dz"] = c["dz"]/(n["z"]-1)
    b["chunk"] = [r.randint(1, n["x"]), r.randint(1, n["y"]), r.randint(1, n["z"]), r.randint(1, len(names))]; c["blocks"] = [b]; c["surface"] = {"x": b["x"], "y": b["y"]}
    tot = n["x"]*n["y"]*n["z"]
    if kv.get("batch") == "none": c["batch"] = None
    elif "batch" in kv: c["batch"] = int(kv["batch"])
    else: c["batch"] = r.choice((None, None, 25000000, r.randint(1, tot), r.randint(1, tot), max(1, tot//10)))
    if c["batch"] and tot/c["batch"] > 40: c["batch"] = tot//40 + r.randint(1, 5)
    ini(c); return c
def texts(c, r):
    w = lambda: " ".join(r.choice(WORDS) for _ in range(r.randint(1, 3)))
    a = {k: (" " if r.random() < 0.1 else "") + w() + ("\n" if r.random() < 0.1 else "") for k in ATTRS if r.random() < 0.85}
    if "keywords" in a: a["keywords"] = r.choice((", ", ",")).join(r.sample(("seismic", "shear wave", "mantle", "vélocité"), r.randint(1, 3)))
    c["nc"]["attrs"] = a; g = lambda k, d="": a.get(k, d).strip()
    c["info"] = dict(title=g("title", "unknown"), id=g("id", "unknown"), description=g("summary"), history=g("history"), comment=g("comment"), version=g("data_revision", "unknown"), creator_name=g("author_name", a.get("creator_name", "")), creator_email=g("author_email", a.get("creator_email", "")),
        creator_institution=g("author_institution", a.get("creator_institution", "")), acknowledgement=g("acknowledgement"), license=g("license"), repository_name=r.choice(PC.WORDS), repository_url=r.choice(PC.WORDS), repository_doi=r.choice(PC.WORDS))
    c["keywords"] = [k.strip() for k in a.get("keywords", "").split(",")]; c["authors"] = [a.get("author_name", "")]; c["references"] = [a.get("reference", "")]
def geo(c):
    """Extent in the attributes of the file."""
    n = c["nc"]; t = np.dtype(n["adt"]).type; f = lambda x: float(t(x))
    return dict(lon_min=f(n["lon"][0]), lon_max=f(n["lon"][-1]), lat_min=f(n["lat"][0]), lat_max=f(n["lat"][-1]), z_min=f(n["z"][0]), z_max=f(n["z"][-1]))
def ini(c):
    i = c["info"]; o = ["[geomodelgrids]", f"filename = {c['file']}", "data_source = geomodelgrids.create.data_srcs.iris_emc.datasrc.EMCNetCDF"] + [f"{k} = {i[k]}".replace("%", "%%") for k in ("repository_name", "repository_url", "repository_doi")] + ["repository_institution = None", "[domain]"]
    if c["batch"]: o.append(f"batch_size = {c['batch']}")
    c["initext"] = "\n".join(o + ["[block]", "chunk_size = (%d, %d, %d, %d)" % tuple(c["blocks"][0]["chunk"]), "[iris_emc]", f"filename = {EMCF}"]) + "\n"
def truth(c):
    """Values [Nx, Ny, Nz, Nv]; NODATA where the file has none."""
    n = c["nc"]; i, j, k = np.meshgrid(np.arange(len(n["lon"])), np.arange(len(n["lat"])), np.arange(len(n["z"])), indexing="ij"); o = []; R = np.random.RandomState(c["salt"] % 2**31)
    for v in range(len(n["vars"])):
        a = 100.0*(v+1) + (1.7+v)*i - (3.1-0.3*v)*j + (5.3+0.7*v)*k + 0.25*((3*i + 5*j + 7*k + v) % 4); a = a.astype(np.float32).astype(float); m = R.random_sample(a.shape) < c["holes"]; a[m] = NODATA; o.append(a)
    return np.stack(o, axis=3)
def emc_put(c):
    n = c["nc"]; d = c.get("dam")
    if d == "gone": P.remove(EMCF); return
    T = truth(c); g = geo(c); num = lambda x: [n["adt"], float(x)]; crd = [("longitude", ["longitude"], n["lon"], {"units": "degrees_east", "long_name": "Longitude; positive east"}), ("latitude", ["latitude"], n["lat"], {"units": "degrees_north", "long_name": "Latitude; positive north"}), ("depth", ["depth"], n["z"], {"units": n["zu"], "long_name": "depth below earth surface", "positive": "down"})]; va = []
    for v, name in enumerate(n["vars"]):
        a = np.transpose(T[..., v]).astype(n["vdt"]); at = {"units": c["units"][v], "long_name": f"Long name of {name}"}
        if n["fill"] is not None: a[a < -1e19] = n["fill"]; at[n["fname"]] = [n["vdt"], n["fill"]]
        va.append((name, ["depth", "latitude", "longitude"], a, at))
    vs = crd + va if n["order"] == "first" else va + crd if n["order"] == "last" else crd[:2] + va + crd[2:]
    at = dict(n["attrs"], geospatial_lon_min=num(g["lon_min"]), geospatial_lon_max=num(g["lon_max"]), geospatial_lat_min=num(g["lat_min"]), geospatial_lat_max=num(g["lat_max"]), geospatial_vertical_min=num(g["z_min"]), geospatial_vertical_max=num(g["z_max"]), geospatial_lon_units="degrees_east" if c["salt"] % 3 else "degrees", geospatial_lat_units="degrees_north" if c["salt"] % 3 else "degrees ", geospatial_vertical_units=n["zu"], geospatial_vertical_positive="down")
    if d == "units": at["geospatial_vertical_units"] = "furlong"
    if d == "noextent": del at[("geospatial_lat_max", "geospatial_lon_min", "geospatial_vertical_max")[c["salt"] % 3]]
    if d == "degrees": at[("geospatial_lon_units", "geospatial_lat_units")[c["salt"] % 2]] = "radians"
    b = nc_bytes({"longitude": len(n["lon"]), "latitude": len(n["lat"]), "depth": len(n["z"])}, at, vs)
    if d == "cut": b = b[:int(len(b)*c["damat"])]
    if d == "junk": b = b"lon,lat,depth,vs\n" + b[17:]
    P.put(EMCF, b)
def ref_history(c): return c["info"]["history"] + "\n" + time.strftime("%Y-%m-%d", time.gmtime(c["now"])) + " EMC NetCDF file converted to GeoModelGrids HDF5 file."
def check_domain(attrs, c):
    h, w = PC.dec(attrs["history"]), ref_history(c); P.check(); check_crs(PC.dec(attrs["crs"]))
    if h.strip() != w.strip(): raise P.Violation("metadata", f"history is {h!r}, expected {w!r}")
def check_crs(s):
    """x is longitude and y is latitude (degrees, WGS 84)."""
    import pyproj
    k = pyproj.CRS(s); a = k.axis_info
    ok = k.is_geographic and len(a) in (2, 3) and a[0].direction == "east" and a[1].direction == "north" and all(t.unit_name.startswith("degree") for t in a[:2]) and abs(k.ellipsoid.semi_major_metre-6378137) < 1e-6 and abs(k.ellipsoid.inverse_flattening-298.257223563) < 1e-9; P.check()
    if not ok: raise P.Violation("georeference", f"model has longitude along x and latitude along y; coordinate system {s!r} has axes {[t.direction for t in a]}")
def check_block(c, b, v, where, partial=False):
    w = truth(c); P.check(w.size)
    if v.shape != w.shape: raise P.Violation("stored-data", f"{where} has shape {v.shape}, expected {w.shape}")
    ok = np.abs(v-w) <= 1e-6*np.abs(w)
    if partial: ok |= v == 0
    if not ok.all(): i = tuple(int(k) for k in np.argwhere(~ok)[0]); raise P.Violation("stored-data", f"{where} at node {i} is {v[i]!r}, the file has {'no value' if w[i] < -1e19 else repr(w[i])} there ({int((~ok).sum())} of {ok.size} values)" + (" after a failed import" if partial else ""))

# ------------------------------------------------------------------ operations
def op_emcfile(args, line):
    """emcfile NAME SEED [dam=gone|cut|junk|units|noextent|degrees at=F]: another file on the same grid, possibly damaged; the model is created again from scratch."""
    s = PC.st(args[0]); kv = dict(x.split("=", 1) for x in args[2:]); r = random.Random(f"emcfile:{args[1]}"); c = dict(s.c, nc=dict(s.c["nc"])); c["salt"] = r.randint(0, 10**6); texts(c, r); c["dam"] = kv.get("dam"); c["damat"] = float(kv.get("at", 0)); ini(c); PC.op_rmfile([args[0]], ""); s.c = c; PC.write_cfg(s); emc_put(c)
def op_emcfix(args, line): s = PC.st(args[0]); s.c = dict(s.c, dam=None); emc_put(s.c)
def op_ebatch(args, line): s = PC.st(args[0]); s.c = dict(s.c, batch=None if args[1] == "none" else int(args[1])); ini(s.c); PC.write_cfg(s)
def op_emcback(args, line):
    """emcback NAME N SEED: queries the created model at latitude, longitude and elevation of nodes of the file."""
    s = PC.st(args[0]); c = s.c
    if s.damaged or not set(PC.STEPS) <= set(s.done): return
    r = random.Random(f"emcback:{args[2]}"); n = int(args[1])
    def fn():
        import geomodelgrids
        cd = s.data["blocks"]; e = 1e-5 if c["nc"]["adt"] == "<f8" else 1e-3; edge = lambda g, a, k: (lambda t: t[k] + (e*(t[1]-t[0]) if k == 0 else -e*(t[-1]-t[-2]) if k == len(t)-1 else 0.0))(PC.coords(g, a)); T = truth(cd); q = geomodelgrids.Query(); q.initialize([c["file"]], c["values"], r.choice(("EPSG:4979", "EPSG:4326"))); b = c["blocks"][0]; pts = []; nodes = []
        for _ in range(n):
            i, j, k = (r.randrange(t) for t in T.shape[:3]); x, y = c["ox"] + edge(b, "x", i), c["oy"] + edge(b, "y", j); zl = PC.zlogical(b); cell = zl[0]-zl[1] if k == 0 else zl[k-1]-zl[k]; z = zl[k] + (-1e-5*cell if k == 0 else 1e-5*cell if k == len(zl)-1 else 0.0); pts.append((y, x, z)); nodes.append((i, j, k))
        v, err = q.query(np.array(pts)); P.W.q += n
        for t, (i, j, k) in enumerate(nodes):
            around = T[max(0, i-1):i+2, max(0, j-1):j+2, max(0, k-1):k+2]; P.check(len(c["values"]))
            if err[t]: raise P.Violation("query-back", f"node {(i, j, k)} (latitude, longitude, elevation {pts[t]}) is reported outside of the created model")
            for l in range(len(c["values"])):
                w = T[i, j, k, l]
                if w > -1e19 and around[..., l].min() < -1e19: continue  # next to missing values
                if abs(v[t, l]-w) > 1e-6*abs(w) + 2e-3 + 60*e: raise P.Violation("query-back", f"query at node {(i, j, k)} (latitude, longitude, elevation {pts[t]}) gives {v[t, l]!r} for {c['values'][l]}, the file has {w!r}")
        q.finalize()
    res = P.session(fn, arm=True)
    if res["status"] == "died": raise P.Violation("crash", f"query of the created model dies: {res['msg']}")
    if res["status"] == "exc" and not res["hard"]: raise P.Violation("query-back", f"query of the created model fails: {res['exc']}: {res['msg']} {res['tb'][-300:]}")
OPS = {"emcfile": op_emcfile, "emcfix": op_emcfix, "ebatch": op_ebatch, "emcback": op_emcback}
def finish(): pass

# ------------------------------------------------------------------ generator
def ncfault(r): return r.choice((f"fault op=read file=.nc from={r.choice((0, 1, 2, 3, r.randint(0, 60)))} n={r.choice((1, 1, -1))} act=eio", f"fault op=open file=.nc from=0 n=1 act={r.choice(('emfile', 'eacces', 'enoent', 'enomem'))}"))
def gen23(r, mode):
    sd = PC.sd; l = [f"cfg a {sd(r)} src=emc{r.choice(('', '', ' small=1', ' varz=1'))}"]
    if mode == "benign": l.append(PC.benign(r))
    for _ in range(r.choice((1, 1, 2))):
        if mode == "faults" and r.random() < 0.8:
            if r.random() < 0.25: l += [f"emcfile a {sd(r)} dam={r.choice(('gone', 'cut', 'cut', 'junk', 'units', 'noextent', 'degrees'))} at={round(r.random(), 3)}", f"run a all{PC.via(r)}", "emcfix a"] + (["converge a"] if r.random() < 0.5 else [])
            else: l += [ncfault(r) if r.random() < 0.5 else PC.fault(r, "a"), f"run a {r.choice(('all', 'all', 'domain,blocks', 'blocks', 'domain'))}{PC.via(r)}", "heal", "converge a"]
        else: l += r.choice(([f"run a all{PC.via(r)}"], ["run a domain,blocks"], ["run a domain", f"run a blocks{PC.via(r)}"], ["run a blocks", "run a domain"]))
        if r.random() < 0.3: l.append(f"clock a {r.randint(0, 4*10**9)}")
        if r.random() < 0.6: l.append(f"emcback a {r.randint(5, 40)} {sd(r)}")
        if r.random() < 0.4: l += [f"ebatch a {PC.batches(r)}", "run a blocks"]
        if r.random() < 0.3: l += [f"emcfile a {sd(r)}", f"run a all{PC.via(r)}"]
    return l
GENS = {"C23": gen23}
