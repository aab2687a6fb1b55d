"""Model creation: configurations, data source, reference model, operations and generators (C14-C17)."""
import json, math, os, re, sys, types
import numpy as np
P = None
def bind(p):  # everything is imported before the first fork
    global P; P = p; app_module(); import geomodelgrids
APP = None
def app_module():
    global APP
    if APP is None:
        import importlib, h5py  # imported before the first fork
        APP = importlib.import_module("geomodelgrids.create.apps.create_model")
    return APP

# ------------------------------------------------------------------ configurations
CRSS = ("EPSG:3488", "EPSG:26910", "EPSG:2193")
WORDS = ("alpha", "beta model", "San Francisco Bay", "Müller & Söhne", "v1 (draft); see notes", "naïve 模型", "x=1; y:2", "https://example.org/a?b=1", "None", "50 km", "doi:10.1/abc")
def _num(r, lo, hi, nd): return round(r.uniform(lo, hi), nd)
def _grid(r, n, dim):  # n cells, increasing, 0 .. dim
    if n == 1: return [0.0, dim]
    c = sorted(r.sample(range(1, 40*n), n-1)); return [0.0] + [round(dim*x/(40.0*n), 4) for x in c] + [dim]
def make_cfg(name, seed, kv):
    """Configuration of one model: a plain dict, all numbers as they are written in the configuration file."""
    import random
    r = random.Random(f"cfg:{seed}"); small = kv.get("small") == "1"; c = {"name": name, "file": f"/simfs/{name}.h5"}
    c["crs"] = r.choice(CRSS); c["ox"] = _num(r, -1e5, 1e5, 2) + (5e5 if c["crs"] != "EPSG:3488" else 0); c["oy"] = _num(r, -1e5, 1e5, 2) + (4e6 if c["crs"] == "EPSG:26910" else 5e6 if c["crs"] == "EPSG:2193" else 0)
    c["az"] = float(kv["az"]) if "az" in kv else r.choice((0.0, 0.0, 90.0, 330.0, _num(r, 0, 360, 3), _num(r, -180, 180, 5)))
    c["surf"] = kv.get("surf") or r.choice(("none", "top", "both", "both", "both", "topo"))
    ax = {}
    for a in "xy":
        var = r.random() < (0.3 if kv.get("var") != "1" else 1.0)
        n = r.choice((1, 1, 2, 3, 4, 5, 6, 8, 10, 12) if not small else (1, 2, 3, 4)); skips = [k for k in range(1, n+1) if n % k == 0]
        if kv.get("n" + a): n = int(kv["n" + a]); skips = [k for k in range(1, n+1) if n % k == 0]
        res = r.choice((1000.0, 500.0, 100.0, 0.1, 0.3, 2500.5, round(r.uniform(0.05, 3000), 2)))
        ax[a] = {"var": var, "n": n, "res": res, "dim": float(repr(round(n*res, 6))), "skips": skips}
        if var: ax[a]["c"] = _grid(r, n, ax[a]["dim"])
        if kv.get("over") != "0" and r.random() < 0.2:  # domain that is larger than its grids
            ax[a]["dim"] = float(repr(round(ax[a]["dim"] + r.choice((0.1, 0.5, 0.9, r.uniform(0.01, 0.95)))*res, 6)))
            if not var: ax[a]["skips"] = sorted(set(ax[a]["skips"] + [k for k in (2, 3) if k <= n]))
    c["dx"], c["dy"] = ax["x"]["dim"], ax["y"]["dim"]
    def horiz(skip):
        o = {}
        for a in "xy":
            g = ax[a]
            if g["var"]:
                inner = [i for i in range(1, g["n"])]; keep = sorted([0, g["n"]] + [i for i in inner if skip and r.random() < 0.5 or not skip]); o[a] = {"c": [g["c"][i] for i in keep], "n": len(keep)}
            else:
                k = r.choice(g["skips"]) if skip else 1; o[a] = {"res": round(g["res"]*k, 6), "n": g["n"]//k + 1}
        return o
    c["surface"] = horiz(False); ns = c["surface"]["x"]["n"]*c["surface"]["y"]["n"]
    nb = r.choice((1, 1, 2, 2, 3)); zs = [0.0]; dz0 = r.choice((1000.0, 250.0, 50.0, 0.1, 12.5, round(r.uniform(0.1, 3000), 1))); c["blocks"] = []
    nv = r.choice((1, 2, 2, 3, 4)); c["values"] = ["Vp", "Vs", "density", "zone_id"][:nv]; c["units"] = ["m/s", "m/s", "kg/m**3", "none"][:nv]
    for i in range(nb):
        h = horiz(True) if (c["surf"] != "none" or r.random() < 0.7) else horiz(True)
        k = r.choice((1, 1, 2, 4)); nz = r.choice((1, 1, 2, 3, 5, 7) if not small else (1, 2, 3)); zt = zs[-1]; zb = round(zt - nz*dz0*k, 6); zs.append(zb)
        b = {"name": ("top", "bottom", "deep")[i] if r.random() < 0.7 else f"block{9-i}", "x": h["x"], "y": h["y"], "ztop": zt, "zbot": zb}
        if r.random() < 0.25 and kv.get("varz") != "0" or kv.get("varz") == "1":
            b["zc"] = [round(zt - x, 4) for x in _grid(r, nz, zt-zb)]; b["zc"][-1] = zb; b["nz"] = nz+1
        else: b["dz"] = round(dz0*k, 6); b["nz"] = nz+1
        b["off"] = r.choice((0.0, 0.0, round(-0.1*dz0*k, 4), round(-0.01*dz0*k, 5))) if i == 0 or r.random() < 0.3 else 0.0
        b["chunk"] = [r.randint(1, b["x"]["n"]), r.randint(1, b["y"]["n"]), r.randint(1, b["nz"]), r.randint(1, nv)]; c["blocks"].append(b)
    if kv.get("zover") != "0" and r.random() < 0.15 and "dz" in c["blocks"][-1]: b = c["blocks"][-1]; zs[-1] = b["zbot"] = round(b["zbot"] - r.choice((0.3, 0.5, 0.9))*b["dz"], 6)
    c["dz"] = round(-zs[-1], 6)
    c["schunk"] = [r.randint(1, c["surface"]["x"]["n"]), r.randint(1, c["surface"]["y"]["n"]), 1]
    if kv.get("batch") == "none": c["batch"] = None
    elif "batch" in kv: c["batch"] = int(kv["batch"])
    else:
        tot = max(b["x"]["n"]*b["y"]["n"]*b["nz"] for b in c["blocks"]); c["batch"] = r.choice((None, None, 1, 2, 3, 5, 8, 10, r.randint(1, max(2, tot)), r.randint(1, max(2, tot)), tot, tot+5, 25000000))
        if c["batch"] and tot/c["batch"] > 40: c["batch"] = tot//40 + r.randint(1, 5)
    c["ignored"] = r.random() < 0.3  # surfaces the model does not have are in the configuration, but ignored
    texts(c, r); c["salt"] = r.randint(0, 10**6)
    c["elev"] = r.choice((0.0, 1.0, 1.0)) * min(0.2*c["dz"], 3000.0)
    return c
def texts(c, r):
    w = lambda: " ".join(r.choice(WORDS) for _ in range(r.randint(1, 3))) if r.random() < 0.9 else ""
    c["info"] = {k: w() for k in ("title", "id", "description", "history", "comment", "version", "creator_name", "creator_email", "creator_institution", "acknowledgement", "repository_name", "repository_url", "repository_doi", "license")}
    c["keywords"] = [r.choice(("seismic", "model", "vélocité", "San Francisco")) for _ in range(r.randint(1, 3))]
    c["authors"] = [r.choice(("Aagaard, Brad", "Brocher, Thomas", "Müller, Jürgen", "Doe, J.")) for _ in range(r.randint(1, 3))]
    c["references"] = [r.choice(("Aagaard, B. (2008), BSSA, 98(2)", "none", "Åström, K., J. Geophys. Res.")) for _ in range(r.randint(1, 2))]
    c["aux"] = {"ids": {r.choice(("ä", "b c", "zone")): r.randint(0, 9)}, "f": round(r.random(), 3)} if r.random() < 0.6 else None
def change(c, seed):
    """Changed metadata of an existing model; grids keep their shapes."""
    import copy, random
    r = random.Random(f"change:{seed}"); d = copy.deepcopy(c); texts(d, r)
    if r.random() < 0.4: d["units"] = [r.choice(("km/s", "m/s", "g/cm**3", "none")) for _ in d["units"]]
    if r.random() < 0.3: d["values"] = [v + "2" for v in d["values"]]
    if r.random() < 0.4: d["ox"] += 100.25; d["oy"] -= 3.5
    if r.random() < 0.3: d["az"] = round(r.uniform(0, 360), 2)
    if r.random() < 0.3: d["crs"] = r.choice(CRSS)
    if r.random() < 0.4:  # stretched in z and along x and y
        f = {a: r.choice((1.0, 2.0, 0.5, 1.25)) for a in "xyz"}; d["dx"] = round(d["dx"]*f["x"], 6); d["dy"] = round(d["dy"]*f["y"], 6); d["dz"] = round(d["dz"]*f["z"], 6)
        for g in [d["surface"]] + d["blocks"]:
            for a in "xy":
                if "c" in g[a]: g[a]["c"] = [round(x*f[a], 5) for x in g[a]["c"]]
                else: g[a]["res"] = round(g[a]["res"]*f[a], 6)
        for b in d["blocks"]:
            b["ztop"] = round(b["ztop"]*f["z"], 6); b["zbot"] = round(b["zbot"]*f["z"], 6)
            if "zc" in b: b["zc"] = [round(z*f["z"], 5) for z in b["zc"]]
            else: b["dz"] = round(b["dz"]*f["z"], 6)
    if r.random() < 0.25:  # uniform axes given by coordinates instead
        for g in [d["surface"]] + d["blocks"]:
            for a in "xy":
                if "res" in g[a]: g[a] = {"n": g[a]["n"], "c": [round(g[a]["res"]*i, 6) for i in range(g[a]["n"])]}
        for b in d["blocks"]:
            if "dz" in b: b["zc"] = [round(b["ztop"] - b["dz"]*i, 6) for i in range(b["nz"])]; del b["dz"]
    elif r.random() < 0.25:  # coordinates given by a resolution
        for a in "xy":
            if any((d["surface"][a]["n"]-1) % (b[a]["n"]-1) for b in d["blocks"]): continue  # blocks would no longer match the surface
            for g in [d["surface"]] + d["blocks"]:
                if "c" in g[a]: g[a] = {"n": g[a]["n"], "res": round(g[a]["c"][-1]/(g[a]["n"]-1), 6)}
        for b in d["blocks"]:
            if "zc" in b: b["dz"] = round((b["ztop"]-b["zbot"])/(b["nz"]-1), 6); del b["zc"]
    return d
def ini(c, r=None):
    if "initext" in c: return c["initext"]
    s = lambda l, d=", ": "[" + d.join(l) + "]"; f = lambda x: repr(float(x)); o = ["[geomodelgrids]"]
    for k, v in c["info"].items(): o.append(f"{k} = {v}".replace("%", "%%").rstrip())
    o += ["keywords = " + s(c["keywords"]), "authors = " + s(c["authors"], " | "), "references = " + s(c["references"], " | ")]
    o += [f"filename = {c['file']}", f"data_source = {c.get('source', 'simsrc.SimSrc')}", "[coordsys]", f"crs = {c['crs']}", f"origin_x = {f(c['ox'])}", f"origin_y = {f(c['oy'])}", f"y_azimuth = {f(c['az'])}"]
    o += ["[data]", "values = " + s(c["values"]), "units = " + s(c["units"]), "layout = vertex"]
    if c["aux"] is not None: o.append("auxiliary = " + json.dumps(c["aux"], ensure_ascii=False))
    o += ["[domain]", f"dim_x = {f(c['dx'])}", f"dim_y = {f(c['dy'])}", f"dim_z = {f(c['dz'])}", "blocks = " + s([b["name"] for b in c["blocks"]])]
    if c["batch"]: o.append(f"batch_size = {c['batch']}")
    def axes(g): 
        for a in "xy": o.append(f"{a}_resolution = {f(g[a]['res'])}" if "res" in g[a] else f"{a}_coordinates = " + s([f(x) for x in g[a]["c"]]))
    for n in ("top_surface", "topography_bathymetry"):
        if n not in surfaces(c) and not c.get("ignored"): continue
        o.append(f"[{n}]"); o.append("use_surface = True" if n in surfaces(c) else "use_surface = False"); axes(c["surface"]); o.append("chunk_size = (%d, %d, %d)" % tuple(c["schunk"]))
    for b in c["blocks"]:
        o.append(f"[{b['name']}]"); axes(b)
        if "dz" in b: o += [f"z_resolution = {f(b['dz'])}", f"z_top = {f(b['ztop'])}", f"z_bot = {f(b['zbot'])}"]
        else: o.append("z_coordinates = " + s([f(z) for z in b["zc"]]))
        o.append(f"z_top_offset = {f(b['off'])}"); o.append("chunk_size = (%d, %d, %d, %d)" % tuple(b["chunk"]))
    return "\n".join(o + c.get("extra", [])) + "\n"
def surfaces(c): return {"none": [], "top": ["top_surface"], "topo": ["topography_bathymetry"], "both": ["top_surface", "topography_bathymetry"]}[c["surf"]]

# ------------------------------------------------------------------ reference model
def coords(g, a): return np.array(g[a]["c"]) if "c" in g[a] else g[a]["res"]*np.arange(g[a]["n"])
def rotate(c, x, y):
    az = math.radians(c["az"]); return c["ox"] + x*math.cos(az) + y*math.sin(az), c["oy"] - x*math.sin(az) + y*math.cos(az)
def unrotate(c, X, Y):
    az = math.radians(c["az"]); dx, dy = X-c["ox"], Y-c["oy"]; return dx*math.cos(az) - dy*math.sin(az), dx*math.sin(az) + dy*math.cos(az)
def elev_fn(c, which, X, Y):  # elevation of a surface at a location
    if c.get("grids"): return np.maximum.reduce([P.srcs.grid_elev(c, which, k, X, Y) for k in c["grids"][which]])
    return elev1(c, which, X, Y)
def elev1(c, which, X, Y):
    x, y = unrotate(c, X, Y); u, v = x/c["dx"], y/c["dy"]; s = (c["salt"] % 97)/97.0; A = c["elev"]
    e = A*(0.3*s - 0.2 + 0.5*u - 0.3*v + 0.2*np.sin(5.0*u + 3.0*s)*np.cos(4.0*v))
    return e if which == "top_surface" else e - A*0.1*(1 + np.cos(3.0*u)*v)
def value_fn(c, i, X, Y, Z, depth):  # values at a location: distinct strong gradients along every axis
    x, y = unrotate(c, X, Y); n = lambda g: 2.0; s = (c["salt"] % 89)/89.0
    hx = c["surface"]["x"]["n"]; hy = c["surface"]["y"]["n"]; hz = max(1.0, sum(b["nz"]-1 for b in c["blocks"]))
    if i == 3: return np.floor(2.97*x/c["dx"] + 1.001) + 10*np.floor(2.97*y/c["dy"] + 1.001)  # ids
    v = 1000.0*(i+1) + (1.7+s)*hx*x/c["dx"] - (3.1-0.3*i)*hy*y/c["dy"] + (5.3+0.7*i)*hz*(-Z)/c["dz"]
    return v + (0 if i != 1 else 2.9*hz*depth/c["dz"])
def surf_nodes(c): 
    x, y = np.meshgrid(coords(c["surface"], "x"), coords(c["surface"], "y"), indexing="ij"); return rotate(c, x, y)
def ref_surface(c, which):
    X, Y = surf_nodes(c); return elev_fn(c, which, X, Y)
def zlogical(b): return np.array(b["zc"]) if "zc" in b else b["ztop"] - b["dz"]*np.arange(b["nz"])
def block_nodes(c, b, mirrored=False):
    """Physical location of the nodes of a block.  mirrored: the recorded finding for z_coordinates."""
    x, y = np.meshgrid(coords(b, "x"), coords(b, "y"), indexing="ij"); X, Y = rotate(c, x, y); zl = zlogical(b)
    if mirrored and "zc" in b: zl = b["ztop"] - zl
    top = elev_fn(c, "top_surface", X, Y).astype(np.float32).astype(float) if "top_surface" in surfaces(c) else np.zeros(X.shape)
    bot = -c["dz"]; Z = bot + (top[:, :, None]-bot)/(0-bot)*(zl[None, None, :]-bot); Z = Z.copy(); Z[:, :, 0] += b["off"]
    sh = Z.shape; return np.broadcast_to(X[:, :, None], sh), np.broadcast_to(Y[:, :, None], sh), Z
def ground(c, X, Y):
    ss = surfaces(c); w = "topography_bathymetry" if "topography_bathymetry" in ss else "top_surface" if ss else None
    return elev_fn(c, w, X, Y).astype(np.float32).astype(float) if w else np.zeros(np.shape(X))
def ref_block(c, b, mirrored=False):
    X, Y, Z = block_nodes(c, b, mirrored); d = ground(c, X, Y) - Z
    return np.stack([value_fn(c, i, X, Y, Z, d) for i in range(len(c["values"]))], axis=3)
def ref_attrs(c):
    a = dict(c["info"]); a.update(keywords=[x for x in c["keywords"]], authors=[x for x in c["authors"]], references=[x for x in c["references"]], data_values=c["values"], data_units=c["units"], data_layout="vertex", crs=c["crs"],
        origin_x=c["ox"], origin_y=c["oy"], y_azimuth=c["az"], dim_x=c["dx"], dim_y=c["dy"], dim_z=c["dz"], auxiliary=c["aux"] or {})
    a = {k: (re.sub(r"\s+$", "", v.lstrip()) if isinstance(v, str) else v) for k, v in a.items()}
    if c.get("src") == "emc": P.srcs.emc_attrs(c, a)
    if c.get("src") == "csv": a["history"] += ("\n" if a["history"] else "") + P.srcs.date(c) + " Converted to GeoModelGrids HDF5 file."
    return a
def ref_grid_attrs(g, block=False):
    o = {}
    for a in "xy":
        if "c" in g[a]: o[a + "_coordinates"] = g[a]["c"]
        else: o[a + "_resolution"] = g[a]["res"]
    if block:
        if "zc" in g: o["z_coordinates"] = g["zc"]
        else: o["z_resolution"] = g["dz"]; o["z_top"] = g["ztop"]
    return o

# ------------------------------------------------------------------ data source (runs inside the session)
class Ctl: c = None; calls = 0; exc_at = None; seen = {}; sizes = []; log = []
CTL = Ctl()
class DataSourceError(Exception): pass
def _tick(what, pts):
    CTL.calls += 1; P.note(f"datasrc {what} {pts.shape}")
    if CTL.exc_at is not None and CTL.calls == CTL.exc_at: P.note("datasrc fails"); raise DataSourceError(f"call {CTL.calls} of the data source fails")
    CTL.seen.setdefault(what, []).append(np.array(pts, dtype=float).reshape(-1, pts.shape[-1])); CTL.sizes.append((what, int(np.prod(pts.shape[:-1]))))
def make_src_module():
    from geomodelgrids.create.core.datasrc import DataSrc
    class SimSrc(DataSrc):
        def __init__(self, config): super().__init__(); self.config = config
        def get_top_surface(self, points):
            _tick("top_surface", points); return elev_fn(CTL.c, "top_surface", points[:, :, 0], points[:, :, 1])[:, :, None]
        def get_topography_bathymetry(self, points):
            _tick("topography_bathymetry", points); return elev_fn(CTL.c, "topography_bathymetry", points[:, :, 0], points[:, :, 1])[:, :, None]
        def get_values(self, block, top_surface, topo_bathy, batch=None):
            p = block.generate_points(top_surface, batch); _tick(block.name, p); c = CTL.c
            depth = np.zeros(p.shape[:-1])
            g = block.get_surface(topo_bathy, batch) if topo_bathy else np.zeros(p.shape[:2])
            for iz in range(p.shape[2]): depth[:, :, iz] = g - p[:, :, iz, 2]
            return np.stack([value_fn(c, i, p[..., 0], p[..., 1], p[..., 2], depth) for i in range(len(c["values"]))], axis=3)
    m = types.ModuleType("simsrc"); m.SimSrc = SimSrc; sys.modules["simsrc"] = m

# ------------------------------------------------------------------ checks (run inside an unarmed session)
def close(a, b, rtol, atol): return np.abs(np.asarray(a, float)-np.asarray(b, float)) <= atol + rtol*np.abs(np.asarray(b, float))
def dec(v):
    if isinstance(v, bytes): return v.decode("utf-8")
    if isinstance(v, np.bytes_): return bytes(v).decode("utf-8")
    return v
def check_attrs(attrs, want, where, others=(), atol=0.0):
    for k, w in want.items():
        P.check()
        if k not in attrs: raise P.Violation("metadata", f"{where}: attribute {k} is missing")
        v = attrs[k]
        if k == "auxiliary": ok = json.loads(dec(v)) == w; v = dec(v)
        elif isinstance(w, str): v = dec(v); ok = isinstance(v, str) and v == w
        elif isinstance(w, list) and w and isinstance(w[0], str): v = [dec(x) for x in np.atleast_1d(v).tolist()]; ok = v == w
        elif isinstance(w, list): v = np.atleast_1d(v); ok = len(v) == len(w) and (not w or bool(np.all(np.abs(v-np.array(w)) <= atol*(1+np.abs(np.array(w))))))
        else: ok = np.ndim(v) == 0 and abs(float(v)-float(w)) <= atol*(1+abs(w))
        if not ok: raise P.Violation("metadata", f"{where}: attribute {k} is {str(v)[:120]!r}, configured {str(w)[:120]!r}")
    for k in others:
        if k in attrs and k not in want: raise P.Violation("metadata", f"{where}: attribute {k} is stored, but not configured")
GRID_ATTRS = ("x_resolution", "x_coordinates", "y_resolution", "y_coordinates", "z_resolution", "z_coordinates", "z_top")
def surf_tol(c):  # data sources that give locations to other programs as text lose digits
    if not c.get("grids"): return 1e-6*(1+c["elev"])
    m = abs(c["ox"]) + abs(c["oy"]) + c["dx"] + c["dy"]; return 1e-6*(1+c["elev"]) + 1e-8*m*4*c["elev"]*(1/c["dx"] + 1/c["dy"])
def value_tol(c): return 2e-4
def check_file(c, parts, data=None, partial=False):
    """Compares the parts of the file with the configuration c (metadata) and with data, the configuration at the time of import (values)."""
    import h5py
    data = data or {}; mirrored = False
    with h5py.File(c["file"], "r") as h:
        if "domain" in parts: check_attrs(h.attrs, ref_attrs(dict(c, now=data["domain"]["now"]) if c.get("src") in ("csv", "emc") and "domain" in data else c), "model", (), c.get("atol", 0.0))
        if "domain" in parts and c.get("src") == "emc": P.srcs.emc_domain(h.attrs, data.get("domain", c))
        ds = lambda p: data.get(p, c)
        for g, names in (("surfaces", surfaces(c)), ("blocks", [b["name"] for b in c["blocks"]])):
            for n in (h[g].keys() if g in h else ()):
                if n not in names: raise P.Violation("stored-data", f"{g}/{n} is not in the configuration")
        for n in surfaces(c) if "surfaces" in parts else ():
            if "surfaces/" + n not in h: raise P.Violation("stored-data", f"surface {n} is missing")
            d = h["surfaces/" + n]; check_attrs(d.attrs, ref_grid_attrs(c["surface"]), n, GRID_ATTRS); w = ref_surface(ds("surfaces"), n)
            if d.shape != w.shape + (1,): raise P.Violation("stored-data", f"{n} has shape {d.shape}, expected {w.shape + (1,)}")
            v = d[()][:, :, 0]; ok = close(v, w, 2e-6, surf_tol(c)); P.check(ok.size)
            if not ok.all(): i = tuple(int(k) for k in np.argwhere(~ok)[0]); raise P.Violation("stored-data", f"{n} at node {i} is {v[i]!r}, the data source gives {w[i]!r} there ({int((~ok).sum())} of {ok.size} nodes)")
        for k, b in enumerate(c["blocks"] if "blocks" in parts else ()):
            p = "blocks/" + b["name"]
            if p not in h: raise P.Violation("stored-data", f"block {b['name']} is missing")
            d = h[p]; check_attrs(d.attrs, ref_grid_attrs(b, True), p, GRID_ATTRS, c.get('atol', 0.0)); cd = ds("blocks"); bd = cd["blocks"][k]
            if c.get("src"): P.srcs.check_block[c["src"]](cd, bd, d[()], p); continue
            w = ref_block(cd, bd)
            if d.shape != w.shape: raise P.Violation("stored-data", f"{p} has shape {d.shape}, expected {w.shape}")
            v = d[()]; ok = close(v, w, 1e-6, value_tol(cd)); P.check(ok.size)
            if not ok.all() and "zc" in bd:
                m = ref_block(cd, bd, True)
                if close(v, m, 1e-6, value_tol(cd)).all(): P.finding("create-varz-mirrored"); mirrored = True; continue
            if not ok.all(): i = tuple(int(k) for k in np.argwhere(~ok)[0]); raise P.Violation("stored-data", f"{p} at node {i} is {v[i]!r}, the data source gives {w[i]!r} there ({int((~ok).sum())} of {ok.size} values)")
    return mirrored
def check_seen(c, parts, seen, sizes):
    """Every node was asked for exactly once, at its location."""
    for w, n in sizes:
        P.check()
        if c["batch"] and n > c["batch"]: raise P.Violation("batch-size", f"batch of {n} points for {w} with batch_size={c['batch']}")
    def match(what, X, Y, Z, scale, alt=None):
        pts = np.concatenate(seen[what]) if what in seen else np.zeros((0, 3)); n = X.size; P.check(n)
        if len(pts) != n: raise P.Violation("data-source-points", f"data source was asked for {len(pts)} points of {what}, which has {n} nodes")
        ref = np.stack([X.ravel(), Y.ravel(), Z.ravel()], axis=1)
        def dev(ref):
            t = np.array([scale[0], scale[1], scale[2]]); q = lambda p: p[np.lexsort(np.round(_local(c, p)/t/0.25).T)] if False else p
            import numpy as np_
            a, b = _local(c, pts)/t, _local(c, ref)/t; ia = _order(a); ib = _order(b); return np.max(np.abs(a[ia]-b[ib])) if n else 0.0
        e = dev(ref)
        if e > 1e-3:
            if alt is not None and dev(np.stack([alt[0].ravel(), alt[1].ravel(), alt[2].ravel()], axis=1)) <= 1e-3: P.finding("create-varz-mirrored"); return
            raise P.Violation("data-source-points", f"points of {what} given to the data source are not the nodes (largest deviation {e:.3g} cells)")
    h = [np.min(np.diff(coords(c["surface"], a))) for a in "xy"]
    if "surfaces" in parts:
        X, Y = surf_nodes(c)
        for n in surfaces(c): match(n, X, Y, np.zeros(X.shape), (h[0], h[1], 1.0))
    if "blocks" in parts:
        for b in c["blocks"]:
            hz = np.min(-np.diff(zlogical(b))); match(b["name"], *block_nodes(c, b), (h[0], h[1], hz), alt=block_nodes(c, b, True) if "zc" in b else None)
def _local(c, p): x, y = unrotate(c, p[:, 0], p[:, 1]); return np.stack([x, y, p[:, 2]], axis=1)
def _order(a): k = np.round(a[:, :2]/0.5 + 0.1234).astype(np.int64); return np.lexsort((a[:, 2], k[:, 1], k[:, 0]))

# ------------------------------------------------------------------ operations
def st(name): return P.W.state[name]
class State: pass
def op_cfg(args, line):
    name, seed = args[0], args[1]; kv = dict(x.split("=", 1) for x in args[2:]); s = State(); s.c = (P.srcs.cfg[kv["src"]] if "src" in kv else make_cfg)(name, seed, kv); s.done = {}; s.dirty = set(); s.damaged = False; s.data = {}; s.meta = None
    P.W.state[name] = s; write_cfg(s); P.srcs.files(s.c)
def write_cfg(s):
    t = ini(s.c); cut = t.index("[domain]"); P.put(f"/simfs/{s.c['name']}.cfg", t[:cut].encode()); P.put(f"/simfs/{s.c['name']}-2.cfg", t[cut:].encode())
def cfgfiles(c): return f"/simfs/{c['name']}.cfg,/simfs/{c['name']}-2.cfg"
STEPS = ("domain", "surfaces", "blocks")
def run_app(c, steps, via, dsexc):
    """One run of the application inside a session; returns what the data source saw."""
    m = app_module(); make_src_module(); CTL.c = c; CTL.calls = 0; CTL.exc_at = dsexc; CTL.seen = {}; CTL.sizes = []; P.srcs.begin(c)
    kw = {"domain": "import_domain", "surfaces": "import_surfaces", "blocks": "import_blocks", "update": "update_metadata", "all": "all_steps"}
    if via == "cli":
        opt = {"domain": "--import-domain", "surfaces": "--import-surfaces", "blocks": "--import-blocks", "update": "--update-metadata", "all": "--all"}
        sys.argv = ["geomodelgrids_create_model", "--config=" + cfgfiles(c), "--log=/simfs/create_model.log", "--quiet"] + [opt[x] for x in steps]; m.cli()
    else:
        m.App(show_progress=False, log_filename="/simfs/create_model.log").main(cfgfiles(c), **{kw[x]: True for x in steps})
    return CTL.seen, CTL.sizes, CTL.calls
def expand(steps): return [x for s in steps for x in (STEPS if s == "all" else (s,))]
def op_run(args, line):
    """run NAME step,step [dsexc=K] [via=cli|main]"""
    s = st(args[0]); steps = args[1].split(","); kv = dict(x.split("=", 1) for x in args[2:]); via = kv.get("via", "main"); exc = int(kv["dsexc"]) if "dsexc" in kv else None
    if steps == ["update"] and P.size(s.c["file"]) < 0: return  # nothing to update
    parts = expand(steps); c = s.c; P.probe("via-" + via); P.W.q += 1; existed = P.size(c["file"]) >= 0
    before = set(P.listing()); res = P.session(lambda: run_app(c, steps, via, exc), clock=c.get("now")); status = res["status"]; tool = P.srcs.tool_failed(c, res, parts)
    P.note(f"run {args[1]} {status}"); P.probe(f"run-{status}" + ("-fault" if res["hard"] else ""))
    hard = res["hard"] > 0
    if status == "died": raise P.Violation("crash", f"creation dies: {res['msg']}")
    if status == "ok":
        seen, sizes, calls = res["out"]
        if tool: raise P.Violation("silent-failure", f"{tool} and the application reports success")
        if c.get("src"): seen = None; P.srcs.leftovers(before)
        if exc is not None and calls >= exc: raise P.Violation("silent-failure", "data source raised an exception and the application reports success")
        for p in parts:
            if p == "update": s.meta = c
            else: s.done[p] = c; s.dirty.discard(p); s.data[p] = c
        if not s.damaged or set(STEPS) <= set(s.done) and not s.dirty: verify(s, [p for p in parts if p != "update"], seen, sizes)
        if "update" in parts and not s.damaged: verify(s, [p for p in STEPS if p in s.done], None, None)
        return
    if status == "exc" and not hard and "blocks" in parts and surfaces(c) and "surfaces" not in parts[:parts.index("blocks")] and "surfaces" not in s.done:  # surfaces are required
        P.probe("blocks-without-surfaces-refused"); s.done.pop("blocks", None); s.dirty.add("blocks"); return
    inject = exc is not None and status == "exc" and res.get("exc") == "DataSourceError" or bool(tool) and status == "exc"
    if c.get("src") and status == "exc" and hard and all("file=" in x and (".dat" in x or ".txt" in x or "file=.nc" in x) and "crash" not in x for x in P.W.rules): inject = True; hard = False  # model file is not involved
    if status == "exc" and not hard and not inject and not s.damaged:
        raise P.Violation("spurious-failure", f"creation fails without a fault: {res['exc']}: {res['msg']} {res['tb'][-300:]}")
    if inject and not hard and not s.damaged:
        P.probe("dsexc"); P.W.faults["data-source-exception"] = P.W.faults.get("data-source-exception", 0) + 1
        if "datasrc.initialize()" in res["tb"]: verify(s, [p for p in STEPS if p in s.done], None, None); return
        hit = False  # parts before the interrupted one are complete, parts not asked for are intact, the interrupted one and later ones are not done
        order = parts
        for p in order:
            if p == "domain": s.done[p] = c; s.data[p] = c
            else: s.done.pop(p, None); s.dirty.add(p)
        if "surfaces" in parts and "blocks" in parts and res.get("tb", "").find("get_values") >= 0: s.done["surfaces"] = c; s.data["surfaces"] = c; s.dirty.discard("surfaces")
        verify(s, [p for p in STEPS if p in s.done], None, None)
        if c.get("src"): verify(s, [], None, None, True)
        return
    for p in parts:  # I/O error or crash: the file may be anything
        s.done.pop(p, None); s.dirty.add(p)
    if status == "crash" or hard: s.damaged = s.damaged or wrote(s, res)
def wrote(s, res): return True
def verify(s, parts, seen, sizes, partial=False):
    c = s.c; data = dict(s.data)
    if (partial or not parts) and P.size(c["file"]) < 0: return
    if P.size(c["file"]) < 0 and parts == ["surfaces"] and not surfaces(c): return
    def fn():
        if seen is not None: check_seen(c, parts, seen, sizes)
        return P.srcs.check_partial(c) if partial else check_file(c, parts, data)
    res = P.session(fn, arm=False)
    if res["status"] == "died": raise P.Violation("unreadable", f"reading the created model: {res['msg']}")
    if res["status"] != "ok": raise P.Violation("unreadable", f"created model cannot be read: {res.get('exc')} {res.get('msg')} {res.get('tb', '')[-200:]}")
def op_rmfile(args, line):
    s = st(args[0]); P.remove(s.c["file"]); s.done = {}; s.dirty = set(); s.damaged = False; s.data = {}
def op_converge(args, line):
    """After faults ended: rerunning what was interrupted, or starting over if the file was damaged, gives the right model."""
    s = st(args[0]); rules = list(P.W.rules); P.W.rules.clear(); c = s.c
    todo = [p for p in STEPS if p not in s.done] if not s.damaged else list(STEPS)
    if c.get("src") == "csv" and c["batch"]: return  # not implemented
    if todo:
        res = P.session(lambda: run_app(c, todo, "main", None), clock=c.get("now")); P.probe("converge-" + res["status"] + ("-damaged" if s.damaged else ""))
        if res["status"] == "died": raise P.Violation("crash", f"rerun dies: {res['msg']}")
        if res["status"] != "ok":
            if not s.damaged: raise P.Violation("no-convergence", f"rerun of {','.join(todo)} fails: {res['exc']}: {res['msg']} {res['tb'][-300:]}")
            P.remove(c["file"]); s.done = {}; s.data = {}; todo = list(STEPS)
            res = P.session(lambda: run_app(c, todo, "main", None), clock=c.get("now"))
            if res["status"] != "ok": raise P.Violation("no-convergence", f"starting over fails: {res.get('exc')}: {res.get('msg')}")
        for p in todo: s.done[p] = c; s.data[p] = c
    was = s.damaged; s.damaged = False; s.dirty = set(); verify(s, list(STEPS), None, None)
    if was: op_rmfile([args[0]], ""); op_run([args[0], "all"], "")  # damage by the crash can show up in later updates
    P.W.rules[:] = rules
def op_change(args, line):
    s = st(args[0]); s.c = change(s.c, args[1]); write_cfg(s)
def op_batch(args, line):
    """Same configuration with another batch size."""
    s = st(args[0]); s.c = dict(s.c, batch=None if args[1] == "none" else int(args[1])); write_cfg(s)
def op_back(args, line):
    """back NAME N SEED: queries the created model at its nodes through the query library."""
    import random
    s = st(args[0]); c = s.c
    if s.damaged or not set(STEPS) <= set(s.done): return
    r = random.Random(f"back:{args[2]}"); n = int(args[1])
    res = P.session(lambda: query_back(c, s.data, n, r), arm=True)
    if res["status"] == "died": raise P.Violation("crash", f"query of the created model dies: {res['msg']}")
    if res["status"] == "exc" and not res["hard"]: raise P.Violation("query-back", f"query of the created model fails: {res['exc']}: {res['msg']} {res['tb'][-300:]}")
def inside(c, g, i, j):
    """Location of a node; nodes on the edge of the domain are moved inside by a small fraction of a cell (roundoff)."""
    o = []
    for k, a in ((i, "x"), (j, "y")):
        x = coords(g, a); o.append(x[k] + (1e-5*(x[1]-x[0]) if k == 0 else -1e-5*(x[-1]-x[-2]) if k == len(x)-1 else 0.0))
    return rotate(c, *o)
def query_back(c, data, n, r):
    import geomodelgrids
    cd = data["blocks"]; q = geomodelgrids.Query()
    q.initialize([c["file"]], c["values"], c["crs"]); pts = []; exp = []; what = []
    for k, b in enumerate(c["blocks"]):
        bd = cd["blocks"][k]; X, Y, Z = block_nodes(cd, bd); V = ref_block(cd, bd); m = ref_block(cd, bd, True) if "zc" in bd else None
        Xq, Yq, Zq = block_nodes(c, dict(b, off=0.0)); zl = zlogical(b)
        for _ in range(n):
            i, j, z = r.randrange(X.shape[0]), r.randrange(X.shape[1]), r.randrange(X.shape[2])
            if len(c["blocks"]) > 1 and ((z == 0 and k > 0) or (z == X.shape[2]-1 and k < len(c["blocks"])-1)): continue  # face shared by two blocks
            x, y = inside(c, b, i, j); cell = zl[0]-zl[1] if z == 0 else zl[-2]-zl[-1]; dz = max(1e-3*cell, 3e-5*c["elev"]) if z in (0, len(zl)-1) else 0.0; frac = dz/cell; dz *= 1 if z == 0 else -1
            pts.append((x, y, Zq[i, j, z]-dz)); exp.append((V[i, j, z], m[i, j, z] if m is not None else None)); z1 = z+1 if z == 0 else z-1; slope = frac*max(float(np.max(np.abs(w[i, j, z]-w[i, j, z1]))) for w in (V, m) if w is not None); what.append((b["name"], i, j, z, slope))
    if pts:
        v, err = q.query(np.array(pts)); P.W.q += len(pts)
        for t in range(len(pts)):
            P.check(len(c["values"])); name, i, j, z, slope = what[t]; V, m = exp[t]
            if err[t] != 0: raise P.Violation("query-back", f"node {(i, j, z)} of block {name} of the created model ({pts[t]}) is reported outside (status {err[t]})")
            hx = 5e-3 + 2*slope
            def fits(w): return all(abs(v[t, l]-w[l]) <= 3e-6*abs(w[l]) + hx or c["values"][l].startswith("zone_id") and abs(v[t, l]-w[l]) < 0.2 for l in range(len(w)))
            if not fits(V):
                if m is not None and fits(m): P.finding("create-varz-mirrored"); continue
                raise P.Violation("query-back", f"query at node {(i, j, z)} of block {name} gives {v[t].tolist()}, the data source gave {V.tolist()}")
    for which, fn in (("top_surface", q.query_top_elevation), ("topography_bathymetry", q.query_topobathy_elevation)):
        ss = surfaces(c)
        cs = data.get("surfaces", c); X, Y = surf_nodes(c); E = ref_surface(cs, which) if which in ss else ref_surface(cs, "top_surface") if which != "top_surface" and "top_surface" in ss else np.zeros(X.shape)
        ii = [(r.randrange(X.shape[0]), r.randrange(X.shape[1])) for _ in range(n)]; e = fn(np.array([inside(c, c["surface"], *i) for i in ii])); P.W.q += len(ii)
        for i, x in zip(ii, e):
            P.check()
            if c["surf"] == "topo" and which != "top_surface" and E[i] > -0.01:  # above the flat top of the domain
                if E[i] > 0.01 and x > -1e19: raise P.Violation("query-back", f"{which} at node {i} is {x!r}, although the surface is above the domain there")
                continue
            if abs(x-E[i]) > 1e-5*abs(E[i]) + 1e-3 + 1e-4*c["elev"]: raise P.Violation("query-back", f"{which} at node {i} is {x!r}, the data source gave {E[i]!r}")
    q.finalize()
    info = geomodelgrids.Model(); info.open(c["file"], geomodelgrids.Model.READ) if hasattr(geomodelgrids.Model, "READ") else info.open(c["file"], 0); info.load_metadata(); w = ref_attrs(c); i = info.get_info()
    for k in ("title", "id", "description", "history", "comment", "version", "creator_name", "creator_institution", "creator_email", "acknowledgement", "repository_name", "repository_url", "repository_doi", "license"):
        P.check()
        if getattr(i, k) != w[k]: raise P.Violation("query-back", f"metadata {k} read back is {getattr(i, k)!r}, configured {w[k]!r}")
    for k in ("keywords", "authors", "references"):
        if list(getattr(i, k)) != w[k]: raise P.Violation("query-back", f"metadata {k} read back is {getattr(i, k)!r}, configured {w[k]!r}")
    if json.loads(i.auxiliary or "{}") != w["auxiliary"]: raise P.Violation("query-back", f"auxiliary read back is {i.auxiliary!r}")
    info.close()
def finish():
    for s in P.W.state.values():
        pass
OPS = {"cfg": op_cfg, "run": op_run, "rmfile": op_rmfile, "converge": op_converge, "change": op_change, "batch": op_batch, "back": op_back}

# ------------------------------------------------------------------ generators
def fault(r, name, kinds=("read", "write", "crash", "open")):
    k = r.choice(kinds); f = r.choice((f"{name}.h5", f"{name}.h5", f"{name}.h5", ""))
    fs = f"file={f} " if f else ""
    if k == "read": return f"fault op=read {fs}from={r.choice((0, 0, 1, 2, r.randint(0, 40)))} n={r.choice((1, 1, 2, -1))} act=eio"
    if k == "open": return f"fault op=open {fs}from={r.randint(0, 12)} n={r.choice((1, 2, -1))} act={r.choice(('emfile', 'eacces', 'enoent', 'enomem'))}"
    if k == "crash": return f"fault op={r.choice(('write', 'write', 'any'))} {fs}from={r.randint(0, 90)} n=1 act=crash:{r.choice((0, 1, 17, 512, 4096))}"
    a = r.randint(0, 4)
    if a == 0: return f"fault op=write {fs}budget={r.choice((0, 100, 800, 2048, 4096, 10000, r.randint(0, 20000)))} act=enospc"
    if a == 1: return f"fault op=write {fs}from={r.randint(0, 80)} n=-1 act=enospc"
    if a == 2: return f"fault op=close {fs}from={r.randint(0, 10)} n=1 act=eio"
    if a == 3: return f"fault op=trunc {fs}from={r.randint(0, 10)} n={r.choice((1, -1))} act=eio"
    return f"fault op=write {fs}from={r.choice((0, 1, 2, r.randint(0, 80)))} n={r.choice((1, 1, 3))} act=eio"
def benign(r): return r.choice((f"fault op=read from=0 n=-1 act=short:{r.choice((1, 7, 100, 511))}", f"fault op=write from={r.randint(0, 9)} n=-1 act=short:{r.choice((1, 13, 100))}", "fault op=any from=0 n=-1 act=delay:20", f"fault op=read from=0 n={r.choice((1, 5))} act=eintr", f"fault op=write from=0 n={r.choice((1, 5))} act=eintr"))
def sd(r): return str(r.randint(0, 10**9))
def opts(r): return "".join((" small=1" if r.random() < 0.3 else "", " var=1" if r.random() < 0.15 else ""))
def batches(r): return r.choice(("none", "1", "2", "3", "5", "7", "8", "10", "30", "100", str(r.randint(1, 400)), "25000000"))
def via(r): return " via=cli" if r.random() < 0.3 else ""
def gen14(r, mode):
    l = [f"cfg a {sd(r)}{opts(r)}"]
    if mode == "benign": l.append(benign(r))
    if mode == "faults" and r.random() < 0.7: l += [f"run a all{via(r)}"] if r.random() < 0.5 else []; l += [fault(r, "a"), f"run a all{via(r)}", "heal", "converge a"]; return l
    l.append(f"run a all{via(r)}" if r.random() < 0.5 else f"run a domain,surfaces,blocks{via(r)}")
    for _ in range(r.randint(1, 3)): l += [f"batch a {batches(r)}", r.choice(("run a all", "run a surfaces,blocks", "run a blocks")) + via(r)]
    return l
def gen15(r, mode):
    l = [f"cfg a {sd(r)}{opts(r)} batch={r.choice(('none', '5', '10', '20', '40'))}" if r.random() < 0.7 else f"cfg a {sd(r)}{opts(r)}"]
    if mode == "benign": l.append(benign(r))
    seq = r.choice((["all"], ["domain", "surfaces", "blocks"], ["domain,surfaces", "blocks"], ["surfaces", "domain", "blocks"], ["surfaces,blocks", "domain"], ["all", "surfaces", "blocks"], ["all", "domain"], ["all", "all"]))
    for t in seq:
        if mode == "faults" and r.random() < 0.6:
            if r.random() < 0.4 and t != "domain": l.append(f"run a {t} dsexc={r.choice((1, 2, 3, r.randint(1, 20)))}{via(r)}"); l.append("converge a" if r.random() < 0.3 else f"run a {t}{via(r)}")
            else: l += [fault(r, "a"), f"run a {t}{via(r)}"] + (["run a all"] if r.random() < 0.2 else []) + ["heal"] + (["converge a"] if r.random() < 0.9 else ["rmfile a"])
        else: l.append(f"run a {t}{via(r)}")
        if r.random() < 0.2: l.append(f"run a {t}")
    if r.random() < 0.2: l += [f"cfg b {sd(r)}", "run b all"]
    l.append("converge a"); return l
def gen16(r, mode):
    l = [f"cfg a {sd(r)}{opts(r)}", "run a all"]
    if mode == "benign": l.append(benign(r))
    for _ in range(r.randint(1, 3)):
        l.append(f"change a {sd(r)}")
        if mode == "faults" and r.random() < 0.7: l += [fault(r, "a", ("read", "write", "crash", "open")), f"run a update{via(r)}", "heal", f"reupdate a"]
        else: l.append(f"run a update{via(r)}")
        if r.random() < 0.3: l.append(r.choice(("run a update", "run a domain")))
    return l
def gen17(r, mode):
    l = [f"cfg a {sd(r)}{opts(r)}", "run a all"]
    if mode == "benign": l.append(benign(r))
    for _ in range(r.randint(1, 2)):
        if mode == "faults" and r.random() < 0.7: l += [f"fault op=read file=a.h5 from={r.randint(0, 30)} n={r.choice((1, 2, -1))} act=eio", f"back a {r.randint(5, 40)} {sd(r)}", "heal"]
        l.append(f"back a {r.randint(5, 60)} {sd(r)}")
        if r.random() < 0.3: l += [f"batch a {batches(r)}", "run a blocks"]
    return l
def op_reupdate(args, line):
    """After faults ended: the data are intact, or the file is damaged and the update reports it; a rerun completes the update."""
    s = st(args[0]); c = s.c; name = args[0]
    res = P.session(lambda: run_app(c, ["update"], "main", None))
    if res["status"] == "died": raise P.Violation("crash", f"update dies: {res['msg']}")
    if res["status"] == "ok":
        for p in STEPS: s.done[p] = c
        was = s.damaged; s.damaged = False; verify(s, list(STEPS), None, None); P.probe("reupdated")
        if was: op_rmfile([name], ""); op_run([name, "all"], "")  # damage by the crash can show up in later updates
        return
    if not s.damaged: raise P.Violation("no-convergence", f"update fails after faults ended: {res['exc']}: {res['msg']}")
    P.probe("damaged-file-reported"); op_rmfile([name], ""); op_run([name, "all"], "")
OPS["reupdate"] = op_reupdate
GENS = {"C14": gen14, "C15": gen15, "C16": gen16, "C17": gen17}
