"""Python bindings (C18): histories of calls on Query and Model objects, compared with the native library (C API)."""
import ctypes, gc, json, math, os, random
import numpy as np
P = None; G = None; C = None; PC = None
NODATA = -1.0e20
def bind(p):  # imported before the first fork
    global P, G, C, PC
    P = p; import geomodelgrids, geomodelgrids._geomodelgrids as ext, pyproj, psim_create
    G = geomodelgrids; PC = psim_create; C = ctypes.CDLL(ext.__file__); d = ctypes.c_double; v = ctypes.c_void_p
    f = lambda n, r, *a: (setattr(getattr(C, n), "restype", r), setattr(getattr(C, n), "argtypes", a))
    f("geomodelgrids_squery_create", v); f("geomodelgrids_squery_destroy", None, ctypes.POINTER(v)); f("geomodelgrids_squery_getErrorHandler", v, v)
    f("geomodelgrids_squery_initialize", ctypes.c_int, v, ctypes.POINTER(ctypes.c_char_p), ctypes.c_int, ctypes.POINTER(ctypes.c_char_p), ctypes.c_int, ctypes.c_char_p)
    f("geomodelgrids_squery_setSquashMinElev", ctypes.c_int, v, d); f("geomodelgrids_squery_setSquashing", ctypes.c_int, v, ctypes.c_int)
    f("geomodelgrids_squery_queryTopElevation", d, v, d, d); f("geomodelgrids_squery_queryTopoBathyElevation", d, v, d, d)
    f("geomodelgrids_squery_query", ctypes.c_int, v, ctypes.POINTER(d), d, d, d); f("geomodelgrids_squery_finalize", ctypes.c_int, v)
    f("geomodelgrids_cerrorhandler_resetStatus", None, v); f("geomodelgrids_cerrorhandler_getStatus", ctypes.c_int, v); f("geomodelgrids_cerrorhandler_getMessage", ctypes.c_char_p, v); f("geomodelgrids_cerrorhandler_setLoggingOn", None, v, ctypes.c_int)
    # warm up PROJ (its databases are real files, opened once before the first fork)
    for crs in PC.CRSS + ("EPSG:4326",): transformer(crs).transform(0.0, 0.0)
def warm():  # the transformations that scenarios use (sim/geomemo.hh)
    for src in PC.CRSS + ("EPSG:4326",):
        for dst in PC.CRSS: C.geomemo_warm(src.encode(), dst.encode())
_TR = {}
def transformer(crs):
    import pyproj
    if crs not in _TR: _TR[crs] = pyproj.Transformer.from_crs(crs, "EPSG:4326")
    return _TR[crs]

# ------------------------------------------------------------------ model files
def write_model(c):
    import h5py
    enc = lambda v: np.bytes_(json.dumps(v, sort_keys=True)) if isinstance(v, dict) else [np.bytes_(x.encode()) for x in v] if isinstance(v, list) and v and isinstance(v[0], str) else v
    with h5py.File(c["file"], "w") as h:
        for k, v in PC.ref_attrs(c).items(): h.attrs[k] = enc(v)
        for n in PC.surfaces(c):
            d = h.create_dataset("surfaces/" + n, data=PC.ref_surface(c, n)[:, :, None].astype(np.float32), chunks=tuple(c["schunk"]), compression="gzip")
            for k, v in PC.ref_grid_attrs(c["surface"]).items(): d.attrs[k] = v
        for b in c["blocks"]:
            d = h.create_dataset("blocks/" + b["name"], data=PC.ref_block(c, b).astype(np.float32), chunks=tuple(b["chunk"]), compression="gzip")
            for k, v in PC.ref_grid_attrs(b, True).items(): d.attrs[k] = v
def op_mk(args, line):
    """mk NAME SEED [key=value ...]: a model file, written directly."""
    c = PC.make_cfg(args[0], args[1], dict([("zover", "0")] + [x.split("=", 1) for x in args[2:]])); P.W.cfgs[args[0]] = c
    r = P.session(lambda: write_model(c), arm=False)
    if r["status"] != "ok": raise RuntimeError(f"model writer: {r}")

# ------------------------------------------------------------------ points
def points(c, crs, n, seed, dim):
    r = random.Random(f"pts:{seed}"); a = np.zeros((n, 3))
    for i in range(n):
        k = r.random(); e = 0.0 if k < 0.75 else 0.15
        x = r.uniform(-e, 1+e)*c["dx"]; y = r.uniform(-e, 1+e)*c["dy"]; z = (r.uniform(-1.05, 0.02) if k < 0.7 else r.uniform(-1, 0) if k < 0.9 else r.choice((0.0, -1.0, 1.5)))*c["dz"]
        if r.random() < 0.2: g = c["surface"]; x = r.choice(list(PC.coords(g, "x"))); y = r.choice(list(PC.coords(g, "y")))
        X, Y = PC.rotate(c, x, y)
        if crs == "geo": X, Y = transformer(c["crs"]).transform(X, Y)
        a[i] = X, Y, z
    return a[:, :dim].copy()
LAYOUTS = ("c", "c", "f", "slice", "neg", "f32", "be", "int32", "int64", "list", "tuple", "ro", "obj", "wide", "mat", "f16list")
def layout(a, kind):
    """The array given to Python, and the values the native library has to be asked for."""
    if not len(a) and kind in ("list", "tuple", "f16list"): kind = "c"  # sequences without points have no second dimension
    if kind == "f": return np.asfortranarray(a), a
    if kind == "slice": b = np.full((2*a.shape[0]+1, 2*a.shape[1]+1), 7.5); b[1::2, 1::2] = a; return b[1::2, 1::2], a
    if kind == "neg": return a[::-1, ::-1].copy()[::-1, ::-1], a
    if kind == "f32": b = a.astype(np.float32); return b, b.astype(float)
    if kind == "be": return a.astype(">f8"), a
    if kind in ("int32", "int64"): b = np.rint(a).astype(kind); return b, b.astype(float)
    if kind in ("list", "f16list"): return a.tolist(), a
    if kind == "tuple": return tuple(tuple(x) for x in a.tolist()), a
    if kind == "ro": b = a.copy(); b.setflags(write=False); return b, a
    if kind == "obj": return a.astype(object), a
    if kind == "wide": b = np.hstack([a, a[:, :1]*0+3.25, a[:, :1]*0-1.0]); return b[:, :a.shape[1]], a
    if kind == "mat": return np.matrix(a), a
    return np.ascontiguousarray(a), a
def bad(kind, n, dim):
    a = np.ones((max(1, n), dim))
    return {"1d": a[0], "narrow": np.ones((n, dim-1)), "wide": np.ones((n, dim+1)), "3d": a[None, :, :], "T": np.ones((dim, dim+2)), "0d": np.float64(3.0), "empty1d": np.zeros(0), "4d": np.ones((1, 1, 1, dim)), "text": [["a"]*dim], "ragged": [[1.0]*dim, [1.0]], "none": None, "3dsq": np.ones((2, dim, dim))}[kind]
BAD = ("1d", "narrow", "wide", "3d", "T", "0d", "empty1d", "4d", "text", "ragged", "none", "3dsq")

# ------------------------------------------------------------------ one history on two backends
SQ = ("SQUASH_NONE", "SQUASH_TOP_SURFACE", "SQUASH_TOPOGRAPHY_BATHYMETRY")
def crs_of(name, models): return P.W.cfgs[models[0]]["crs"] if name == "model" else "EPSG:4326" if name == "geo" else "EPSG:999999"
def pick(models, seed): ms = [m for m in models if m in P.W.cfgs]; return P.W.cfgs[ms[int(seed) % len(ms)]]
class Native:
    """Expected results: the C API called point by point on a good disk; objects have the same history."""
    def __init__(self): self.h = {}; self.m = {}; self.nv = {}
    def reset(self, p): C.geomodelgrids_cerrorhandler_resetStatus(C.geomodelgrids_squery_getErrorHandler(p))
    def open(self, files, values, crs):
        p = C.geomodelgrids_squery_create(); return p, self.init_(p, files, values, crs)
    def init_(self, p, files, values, crs):
        self.reset(p); F = (ctypes.c_char_p*len(files))(*[f.encode() for f in files]); V = (ctypes.c_char_p*len(values))(*[v.encode() for v in values])
        return C.geomodelgrids_squery_initialize(p, F, len(files), V, len(values), crs.encode())
    def query(self, p, nv, a):
        v = np.full((len(a), nv), np.nan); e = np.zeros(len(a), int)
        for i in range(len(a)):
            self.reset(p); b = (ctypes.c_double*max(1, nv))(); e[i] = C.geomodelgrids_squery_query(p, b, *[float(x) for x in a[i]]); v[i] = b[:nv]
        return v, e
    def elev(self, p, fn, a): f = getattr(C, fn); return np.array([f(p, float(x[0]), float(x[1])) for x in a])
def native(ops):
    N = Native(); out = []; cfg = P.W.cfgs; st = {}
    for op in ops:
        t = op.split(); k = t[0]; r = None
        if k == "new":
            p = C.geomodelgrids_squery_create(); C.geomodelgrids_cerrorhandler_setLoggingOn(C.geomodelgrids_squery_getErrorHandler(p), 0); st[t[1]] = dict(p=p, init=False, models=[], values=[], crs="")
        elif k == "init":
            s = st[t[1]]; ms = t[2].split(","); vs = t[3].split(","); e = N.init_(s["p"], [cfg[m]["file"] if m in cfg else f"/simfs/{m}.h5" for m in ms], vs, crs_of(t[4], ms))
            s.update(init=e != 2, models=ms, values=vs, crs=t[4]); r = e != 2
        elif k in ("q", "top", "topo"):
            s = st[t[1]]
            if s["models"]:
                pts = points(pick(s["models"], t[3]), s["crs"], int(t[2]), t[3], 3 if k == "q" else 2); _, a = layout(pts, t[4])
                r = N.query(s["p"], len(s["values"]), a) if k == "q" else N.elev(s["p"], "geomodelgrids_squery_queryTopElevation" if k == "top" else "geomodelgrids_squery_queryTopoBathyElevation", a)
                if not s["init"]: r = None
        elif k == "squash": C.geomodelgrids_squery_setSquashing(st[t[1]]["p"], SQ.index(t[2]))
        elif k == "sqmin": C.geomodelgrids_squery_setSquashMinElev(st[t[1]]["p"], float(t[2]))
        elif k == "fin": C.geomodelgrids_squery_finalize(st[t[1]]["p"]); st[t[1]]["init"] = False
        elif k == "mopen": st[t[1]] = dict(m=t[2], crs="geo", p=None)
        elif k == "mcrs": st[t[1]]["crs"] = t[2]
        elif k == "minit":
            s = st[t[1]]; c = cfg[s["m"]]; s["p"], e = N.open([c["file"]], c["values"], crs_of(s["crs"], [s["m"]])); C.geomodelgrids_cerrorhandler_setLoggingOn(C.geomodelgrids_squery_getErrorHandler(s["p"]), 0); s["qcrs"] = s["crs"]; r = e != 2
        elif k in ("mq", "mtop", "mtopo", "mcontains"):
            s = st[t[1]]
            if s.get("p"):
                c = cfg[s["m"]]; pts = points(c, s["qcrs"], int(t[2]), t[3], 2 if k in ("mtop", "mtopo") else 3); _, a = layout(pts, t[4])
                r = N.query(s["p"], len(c["values"]), a) if k in ("mq", "mcontains") else N.elev(s["p"], "geomodelgrids_squery_queryTopElevation" if k == "mtop" else "geomodelgrids_squery_queryTopoBathyElevation", a)
        elif k == "mclose": st[t[1]]["p"] = None
        out.append(r)
    return out

def viol(cls, msg): raise P.Violation(cls, msg)
def same(a, b): return a.shape == b.shape and bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))
def python(ops, want):
    cfg = P.W.cfgs; st = {}; kept = []; hold = set(); taint = [False]
    def call(fn, opens=None):
        # libhdf5 keeps what it has read of a file after a read error as long as somebody holds the file open
        if opens and not hold - {opens}: taint[0] = False
        h0 = P.IO.simio_fired_total()
        try: r, x = "ok", fn()
        except P.Violation: raise
        except Exception as e: r, x = "exc", e
        f = P.IO.simio_fired_total()-h0; taint[0] = taint[0] or f > 0
        if opens: hold.add(opens)
        return r, x, f or (opens is not None and taint[0])
    def keep(what, a):
        if a.dtype.kind != "O": kept.append((what, a, a.copy()))
    for n, op in enumerate(ops):
        t = op.split(); k = t[0]; w = want[n]; P.note("py " + op); P.IO.simio_arm(1); P.W.q += 1
        for what, a, b in kept:
            if not np.array_equal(a, b, equal_nan=True): viol("result-changed", f"array returned or passed earlier ({what}) changed its content before '{op}'")
        if k == "fault": P.IO.simio_rule(op.split(None, 1)[1].encode()); continue
        if k == "heal": P.IO.simio_heal(); continue
        if k == "new":
            q = G.Query(); st[t[1]] = dict(q=q, init=False, models=[], values=[], crs="")
            if int(q.get_error_handler().get_status()) != 0: viol("status", "status of a new object is not OK")
        elif k == "init":
            s = st[t[1]]; ms = t[2].split(","); vs = t[3].split(",")
            r, x, f = call(lambda: s["q"].initialize([cfg[m]["file"] if m in cfg else f"/simfs/{m}.h5" for m in ms], vs, crs_of(t[4], ms)), t[1])
            s.update(init=r == "ok", models=ms, values=vs, crs=t[4]); P.check()
            if r == "ok" and not w: viol("silent-failure", f"'{op}' returns, but the native library reports an error")
            if r == "exc" and w and not f: viol("spurious-failure", f"'{op}' raises {x!r}, but the native library succeeds")
            if r == "exc": P.probe("init-raises")
        elif k in ("q", "top", "topo"):
            s = st[t[1]]
            if not s["models"]: continue
            pts = points(pick(s["models"], t[3]), s["crs"], int(t[2]), t[3], 3 if k == "q" else 2); arr, a = layout(pts, t[4])
            if isinstance(arr, np.ndarray): keep("points", arr)
            r, x, f = call(lambda: {"q": s["q"].query, "top": s["q"].query_top_elevation, "topo": s["q"].query_topobathy_elevation}[k](arr)); P.check(len(a))
            if not s["init"]:
                if k == "q" and len(a) and r == "ok": viol("silent-failure", f"'{op}' on an object that is not initialized returns {x!r}")
                continue
            if r == "exc":
                if not f: viol("spurious-failure", f"'{op}' raises {x!r} without a fault")
                if not str(x): viol("no-message", f"'{op}' raises {type(x).__name__} without a message")
                P.probe("query-raises"); continue
            if w is None: continue  # native object is not initialized (fault-free initialization of the Python object after a fault)
            if k == "q":
                v, e = x; ok = isinstance(v, np.ndarray) and v.dtype == np.float64 and isinstance(e, np.ndarray) and e.dtype.kind == "i"
                if not ok or v.shape != (len(a), len(s["values"])) or e.shape != (len(a),): viol("shape", f"'{op}' returns arrays {getattr(v, 'shape', None)} {getattr(e, 'shape', None)} for {len(a)} points and {len(s['values'])} values")
                if not np.array_equal(e, w[1]): i = int(np.argmax(e != w[1])); viol("status", f"'{op}': status of point {i} {a[i].tolist()} is {int(e[i])}, native {int(w[1][i])}")
                if not same(v, w[0]): i = int(np.argmax(np.any(~((v == w[0]) | (np.isnan(v) & np.isnan(w[0]))), axis=1))); viol("values", f"'{op}': point {i} {a[i].tolist()} gives {v[i].tolist()}, native {w[0][i].tolist()}")
                keep("values", v); keep("status", e); P.probe("query-warning" if np.any(e == 1) else "query-ok")
            else:
                if not isinstance(x, np.ndarray) or x.dtype != np.float64 or x.shape != (len(a),): viol("shape", f"'{op}' returns {getattr(x, 'shape', None)} for {len(a)} points")
                if not same(x, w): i = int(np.argmax(x != w)); viol("values", f"'{op}': elevation at point {i} {a[i].tolist()} is {x[i]!r}, native {w[i]!r}")
                keep("elevation", x); P.probe("elevation")
        elif k == "bad":
            q = st[t[1]]; o = q["q"] if "q" in q else q["obj"]; fn = getattr(o, t[2]); dim = 2 if "elevation" in t[2] else 3; arg = bad(t[3], int(t[4]), dim)
            r, x, f = call(lambda: fn(arg)); P.check()
            if r == "ok": viol("shape-accepted", f"{t[2]} accepts an array of shape {np.shape(arg)}")
            P.probe("bad-shape-refused")
        elif k == "squash": st[t[1]]["q"].set_squashing(getattr(G.Query, t[2]) if len(t) < 4 else getattr(G.Query.SquashingEnum, t[2]))
        elif k == "sqmin": st[t[1]]["q"].set_squash_min_elev(float(t[2]) if len(t) < 4 else int(float(t[2])))
        elif k == "fin":
            r, x, f = call(st[t[1]]["q"].finalize); st[t[1]]["init"] = False; hold.discard(t[1])
            if r == "exc" and not f: viol("spurious-failure", f"finalize raises {x!r}")
        elif k == "status":
            s = st[t[1]]; eh = s["q"].get_error_handler(); r, x, f = call(lambda: s["q"].query(np.ones((1, 3)))) if not s["init"] else ("", 0, 0); P.check()
            if not s["init"] and (r != "exc" or int(eh.get_status()) != int(G.ErrorHandler.ERROR)): viol("status", f"query on an object that is not initialized: {r}, status {int(eh.get_status())}")
            eh.reset_status()
            if int(eh.get_status()) != 0 or int(G.ErrorHandler.OK) != 0 or int(G.ErrorHandler.WARNING) != 1 or int(G.ErrorHandler.ERROR) != 2: viol("status", "status after reset is not OK")
        elif k == "del": s = st.pop(t[1]); eh = s["q"].get_error_handler(); del s; gc.collect(); int(eh.get_status()); hold.discard(t[1])
        elif k == "mopen":
            o = st.get(t[1], {}).get("obj") or G.Model(); c = cfg[t[2]]; st[t[1]] = s = dict(obj=o, m=t[2], crs="geo", meta=False, init=False, open=False)
            r, x, f = call(lambda: o.open(c["file"], G.Model.READ), t[1]); s["open"] = r == "ok"
            if r == "exc" and not f: viol("spurious-failure", f"'{op}' raises {x!r}")
            o.set_input_crs("EPSG:4326")
        elif k == "mload":
            s = st[t[1]]; r, x, f = call(s["obj"].load_metadata, t[1]); s["meta"] = r == "ok"; s["init"] = False; P.check()
            if r == "ok" and not s["open"]: viol("silent-failure", f"'{op}' of a model that is not open returns")
            if r == "exc" and s["open"] and not f: viol("spurious-failure", f"'{op}' raises {x!r}")
        elif k == "mcrs": st[t[1]]["crs"] = t[2]; st[t[1]]["obj"].set_input_crs(crs_of(t[2], [st[t[1]]["m"]]))
        elif k == "minit":
            s = st[t[1]]; r, x, f = call(s["obj"].initialize, t[1]); P.check(); s["init"] = r == "ok"
            if r == "ok" and not (s["open"] and s["meta"]): viol("silent-failure", f"'{op}' of a model that is not open or loaded returns")
            if r == "ok" and w is False: viol("silent-failure", f"'{op}' returns, but the native library reports an error")
            if r == "exc" and s["open"] and s["meta"] and w and not f: viol("spurious-failure", f"'{op}' raises {x!r}")
        elif k in ("mq", "mtop", "mtopo", "mcontains"):
            s = st[t[1]]; c = cfg[s["m"]]; o = s["obj"]
            if not s["init"]:
                r, x, f = call(lambda: o.query(np.zeros((1, 3)))); P.check()
                if r == "ok": viol("silent-failure", f"'{op}' of a model that is not initialized returns {x!r}")
                P.probe("model-not-ready-raises"); continue
            if w is None: continue
            pts = points(c, s["crs"], int(t[2]), t[3], 2 if k in ("mtop", "mtopo") else 3); arr, a = layout(pts, t[4])
            r, x, f = call(lambda: {"mq": o.query, "mtop": o.query_top_elevation, "mtopo": o.query_topobathy_elevation, "mcontains": o.contains}[k](arr)); P.check(len(a))
            inside = w[1] == 0 if k in ("mq", "mcontains") else w != NODATA
            if r == "exc":
                if not str(x): viol("no-message", f"'{op}' raises {type(x).__name__} without a message")
                if f or (k == "mq" and not inside.all()): P.probe("model-query-raises"); continue
                if k == "mtopo" and PC.surfaces(c) == []: continue
                viol("spurious-failure", f"'{op}' raises {x!r} without a fault")
            if k == "mq":
                if not inside.all(): viol("silent-failure", f"'{op}' with points outside of the model returns")
                if x.shape != (len(a), len(c["values"])): viol("shape", f"'{op}' returns {x.shape}")
                if not same(x, w[0]): i = int(np.argmax(np.any(x != w[0], axis=1))); viol("values", f"'{op}': point {i} {a[i].tolist()} gives {x[i].tolist()}, native {w[0][i].tolist()}")
                keep("model values", x); P.probe("model-query")
            elif k == "mcontains":
                if x.shape != (len(a),) or not np.array_equal(np.asarray(x, bool), inside): viol("values", f"'{op}' gives {x.tolist()}, native query finds {inside.tolist()}")
                P.probe("contains")
            else:
                if x.shape != (len(a),) or not same(x[inside], w[inside]): viol("values", f"'{op}' gives {x.tolist()}, native {w.tolist()}")
        elif k == "mmeta":
            s = st[t[1]]
            if s["meta"]: check_meta(s["obj"], cfg[s["m"]])
        elif k == "mclose":
            s = st[t[1]]; r, x, f = call(s["obj"].close); hold.discard(t[1]); s["init"] = s["meta"] = s["open"] = False
            if r == "exc" and not f: viol("spurious-failure", f"'{op}' raises {x!r}")
        elif k == "gc": gc.collect()
        else: raise RuntimeError("unknown " + op)
    for what, a, b in kept:
        if not np.array_equal(a, b, equal_nan=True): viol("result-changed", f"array returned or passed earlier ({what}) changed its content")
    if G.Query.NODATA_VALUE != NODATA or [int(getattr(G.Query, x)) for x in SQ] != [0, 1, 2]: viol("constants", "values of constants")
def check_meta(o, c):
    w = PC.ref_attrs(c); i = o.get_info(); P.check(30)
    for k, v in (("value_names", c["values"]), ("value_units", c["units"]), ("crs", c["crs"]), ("y_azimuth", c["az"])):
        if getattr(o, k) != v: viol("metadata", f"model attribute {k} is {getattr(o, k)!r}, stored {v!r}")
    if list(o.dims) != [c["dx"], c["dy"], c["dz"]] or list(o.origin) != [c["ox"], c["oy"]]: viol("metadata", f"dims {o.dims} origin {o.origin}, stored {[c['dx'], c['dy'], c['dz']]} {[c['ox'], c['oy']]}")
    if o.data_layout != G.Model.VERTEX: viol("metadata", f"layout {o.data_layout}")
    for k in ("title", "id", "description", "history", "comment", "version", "creator_name", "creator_institution", "creator_email", "acknowledgement", "repository_name", "repository_url", "repository_doi", "license", "keywords", "authors", "references"):
        v = getattr(i, k); v = list(v) if isinstance(w[k], list) else v
        if v != w[k]: viol("metadata", f"model information {k} is {v!r}, stored {w[k]!r}")
    if json.loads(i.auxiliary or "{}") != w["auxiliary"]: viol("metadata", f"auxiliary is {i.auxiliary!r}")
    P.probe("metadata")

PEND = []
def op_p(args, line): PEND.append(line.split(None, 1)[1])
def op_go(args, line):
    """go: runs the pending operations in one process of its own; expected results come from a native run on a good disk."""
    ops = PEND[:]; PEND.clear()
    if not ops: return
    valid = []; have = set()
    for o in ops:  # operations on objects that do not exist (minimised scenarios) are dropped
        t = o.split()
        if t[0] in ("new", "mopen"): have.add(t[1])
        if t[0] == "mopen" and t[2] not in P.W.cfgs: have.discard(t[1]); continue
        if t[0] == "init" and t[2].split(",")[0] not in P.W.cfgs: continue
        if t[0] not in ("fault", "heal", "gc") and t[1] not in have: continue
        if t[0] == "del": have.discard(t[1])
        valid.append(o)
    n = P.session(lambda: native(valid), arm=False)
    if n["status"] != "ok": raise RuntimeError(f"native run: {n.get('status')} {n.get('exc')} {n.get('msg')} {n.get('tb')}")
    r = P.session(lambda: python(valid, n["out"]))
    if r["status"] == "died": raise P.Violation("crash", f"interpreter dies: {r['msg']}")
    if r["status"] == "exc": raise RuntimeError(f"python run: {r['exc']} {r['msg']} {r['tb']}")
def finish(): op_go([], "")
OPS = {"mk": op_mk, "p": op_p, "go": op_go}

def gen18(r, mode):
    sd = lambda: str(r.randint(0, 10**9)); l = []; ms = ["a", "b"][:r.choice((1, 1, 2))]
    for m in ms: l.append(f"mk {m} {sd()}" + (" small=1" if r.random() < 0.5 else "") + r.choice(("", "", " surf=none", " surf=both")))
    lay = lambda: r.choice(LAYOUTS); npt = lambda: r.choice((0, 1, 1, 2, 3, 5, 8, 20, 60))
    vals = lambda: ",".join(r.sample(["Vp", "vs", "VS", "vp", "density", "zone_id"], r.choice((1, 1, 2, 3))) if r.random() < 0.3 else r.choice((["Vp"], ["vp"], ["Vp", "Vp"], ["VP"]))) if r.random() < 0.9 else "bogus,Vp"
    hs = ["h", "g"][:r.choice((1, 1, 2))]; mo = []
    if mode == "benign": l.append("p fault " + r.choice(("op=read from=0 n=-1 act=short:" + str(r.choice((1, 7, 511))), "op=read from=0 n=9 act=eintr", "op=any from=0 n=-1 act=delay:20")))
    def fault(): return "p fault " + r.choice((f"op=read from={r.choice((0, 0, 1, r.randint(0, 30)))} n={r.choice((1, 1, 2, -1))} act=eio", f"op=open file=.h5 from={r.choice((0, 0, 1, 2))} n={r.choice((1, -1))} act={r.choice(('emfile', 'eacces', 'enoent'))}", f"op=read file=.h5 from={r.randint(0, 10)} n=1 act=eio", f"op=fstat from={r.randint(0, 3)} n=1 act=eio"))
    for h in hs:
        l.append(f"p new {h}")
        if r.random() < 0.1: l += [f"p q {h} 3 {sd()} c", f"p status {h}"]
        l.append(f"p init {h} {','.join(r.sample(ms, len(ms)) if r.random() < 0.8 else ms[:1])} {vals()} {r.choice(('model', 'model', 'geo'))}")
    nops = r.randint(4, 16); faulty = False
    for _ in range(nops):
        h = r.choice(hs); k = r.random()
        if mode == "faults" and r.random() < 0.35: l.append("p heal" if faulty and r.random() < 0.6 else fault()); faulty = l[-1] != "p heal"
        if k < 0.30: l.append(f"p q {h} {npt()} {sd()} {lay()}")
        elif k < 0.38: l.append(f"p top {h} {npt()} {sd()} {lay()}")
        elif k < 0.46: l.append(f"p topo {h} {npt()} {sd()} {lay()}")
        elif k < 0.53: l.append(f"p squash {h} {r.choice(SQ)}" + (" enum" if r.random() < 0.5 else ""))
        elif k < 0.57: l.append(f"p sqmin {h} {r.choice((0.0, -100.0, -1000.0, 50.0, -1e5))}" + (" int" if r.random() < 0.4 else ""))
        elif k < 0.62: l.append(f"p bad {h} {r.choice(('query', 'query_top_elevation', 'query_topobathy_elevation'))} {r.choice(BAD)} {r.choice((1, 2, 3, 7))}")
        elif k < 0.66: l.append(f"p init {h} {','.join(r.sample(ms, r.randint(1, len(ms)))) if r.random() < 0.85 else 'a,nofile'} {vals()} {r.choice(('model', 'geo', 'geo', 'bad'))}")
        elif k < 0.68: l += [f"p fin {h}"] + ([f"p q {h} 2 {sd()} c"] if r.random() < 0.5 else []) + [f"p init {h} {ms[0]} {vals()} model"]
        elif k < 0.70: l.append(f"p status {h}")
        elif k < 0.71: l.append("p gc")
        elif not mo or k < 0.75:
            m = r.choice(("m", "m", "n")); mo.append(m); l.append(f"p mopen {m} {r.choice(ms)}")
            if r.random() < 0.08: l.append(f"p mq {m} 1 {sd()} c")
            l.append(f"p mload {m}"); l.append(f"p mmeta {m}") if r.random() < 0.6 else 0
            if r.random() < 0.7: l.append(f"p mcrs {m} {r.choice(('model', 'geo'))}")
            l.append(f"p minit {m}")
        else:
            m = r.choice(mo); z = r.random()
            if z < 0.35: l.append(f"p mq {m} {npt()} {sd()} {lay()}")
            elif z < 0.55: l.append(f"p mcontains {m} {npt()} {sd()} {lay()}")
            elif z < 0.65: l.append(f"p mtop {m} {npt()} {sd()} {lay()}")
            elif z < 0.75: l.append(f"p mtopo {m} {npt()} {sd()} {lay()}")
            elif z < 0.85: l.append(f"p mmeta {m}")
            elif z < 0.92: l.append(f"p bad {m} {r.choice(('query', 'query_top_elevation', 'query_topobathy_elevation', 'contains'))} {r.choice(BAD)} {r.choice((1, 2, 3, 7))}")
            else: l += [f"p mclose {m}", r.choice((f"p mq {m} 2 {sd()} c", f"p mopen {m} {r.choice(ms)}", f"p mload {m}"))]
    if mode == "faults": l += ["p heal"] + [f"p mclose {m}" for m in sorted(set(mo))] + [f"p fin {h}" for h in hs] + [x for h in hs for x in (f"p init {h} {ms[0]} {vals()} model", f"p q {h} 10 {sd()} c")]
    return l
GENS = {"C18": gen18}
