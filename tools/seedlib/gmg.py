"""Helpers for demonstrations: writes small models with h5py and calls the C API (ctypes) and the applications of the build in /repo."""
import ctypes, os, shutil, subprocess, sys, tempfile
import h5py, numpy as np
ROOT = os.getcwd()
NODATA = -1.0e+20
CRS = "EPSG:26910"
OX, OY = 500000.0, 4000000.0

def _coords(n, res): return np.asarray(res) if hasattr(res, "__len__") else np.arange(n) * res

def model(path, nx=6, ny=5, nz=4, dx=10.0, dy=10.0, dz=10.0, values=("Vp", "Vs"), units=None, fn=None, top=None, topo=None, ox=OX, oy=OY, az=0.0, crs=CRS, blocks=None,
          title="Demo", surf_res=None, dropattr=(), **opts):
    """fn(x, y, z, iValue) over logical coordinates; top/topo: functions of x, y; dx, dy, dz numbers or lists of coordinates (dz descending from 0)."""
    fn = fn or (lambda x, y, z, i: 1000.0*(i+1) + x + 2*y - 3*z)
    units = units or ["m/s"] * len(values)
    xs, ys = _coords(nx, dx), _coords(ny, dy)
    with h5py.File(path, "w") as f:
        s = h5py.string_dtype()
        a = dict(title=title, id="demo", description="d", history="h", comment="c", creator_name="n", creator_institution="i", creator_email="e", acknowledgement="a", repository_name="r",
                 repository_url="u", repository_doi="doi", version="1", license="CC0", auxiliary="{}", crs=crs, origin_x=ox, origin_y=oy, y_azimuth=az, dim_x=float(xs[-1]), dim_y=float(ys[-1]), data_layout="vertex")
        for k, v in a.items():
            if k not in dropattr: f.attrs[k] = v
        for k, v in dict(keywords=["k"], references=["r"], authors=["a"], data_values=list(values), data_units=list(units)).items():
            if k not in dropattr: f.attrs.create(k, v, dtype=s)
        blocks = blocks or [("block", nz, dz, 0.0)]
        zbot = 0.0
        for name, n, res, ztop in blocks:
            zs = np.asarray(res) if hasattr(res, "__len__") else ztop - np.arange(n)*res
            zbot = min(zbot, zs[-1])
            x, y, z = np.meshgrid(xs, ys, zs, indexing="ij")
            d = f.create_dataset("blocks/"+name, data=np.stack([np.vectorize(lambda p, q, r: fn(p, q, r, i))(x, y, z) for i in range(len(values))], axis=3).astype("f8"), **opts)
            for k, res_, n_ in (("x", dx, nx), ("y", dy, ny), ("z", res, n)):
                if hasattr(res_, "__len__"): d.attrs[k+"_coordinates"] = np.asarray(res_, dtype="f8")
                else: d.attrs[k+"_resolution"] = float(res_)
            if not hasattr(res, "__len__"): d.attrs["z_top"] = float(ztop)
        f.attrs["dim_z"] = -zbot
        sx, sy = surf_res or (dx, dy)
        for name, g in (("top_surface", top), ("topography_bathymetry", topo)):
            if g is None: continue
            X, Y = np.meshgrid(_coords(nx, sx), _coords(ny, sy), indexing="ij")
            d = f.create_dataset("surfaces/"+name, data=np.vectorize(g)(X, Y)[:, :, None].astype("f8"), **opts)
            for k, res_ in (("x", sx), ("y", sy)):
                d.attrs[k+("_coordinates" if hasattr(res_, "__len__") else "_resolution")] = np.asarray(res_, dtype="f8") if hasattr(res_, "__len__") else float(res_)

class Query:
    lib = None
    def __init__(self):
        if Query.lib is None:
            L = Query.lib = ctypes.CDLL(os.path.join(ROOT, "_build/libsrc/geomodelgrids/.libs/libgeomodelgrids.so"))
            V, D, S = ctypes.c_void_p, ctypes.c_double, ctypes.c_char_p
            L.geomodelgrids_squery_create.restype = V
            L.geomodelgrids_squery_getErrorHandler.restype = V; L.geomodelgrids_squery_getErrorHandler.argtypes = [V]
            L.geomodelgrids_squery_initialize.argtypes = [V, ctypes.POINTER(S), ctypes.c_int, ctypes.POINTER(S), ctypes.c_int, S]
            for n in ("queryTopElevation", "queryTopoBathyElevation"):
                getattr(L, "geomodelgrids_squery_"+n).argtypes = [V, D, D]; getattr(L, "geomodelgrids_squery_"+n).restype = D
            L.geomodelgrids_squery_query.argtypes = [V, ctypes.POINTER(D), D, D, D]
            L.geomodelgrids_squery_finalize.argtypes = [V]; L.geomodelgrids_squery_destroy.argtypes = [ctypes.POINTER(V)]
            L.geomodelgrids_squery_setSquashMinElev.argtypes = [V, D]; L.geomodelgrids_squery_setSquashing.argtypes = [V, ctypes.c_int]
            L.geomodelgrids_cerrorhandler_setLogFilename.argtypes = [V, S]; L.geomodelgrids_cerrorhandler_setLoggingOn.argtypes = [V, ctypes.c_int]
            L.geomodelgrids_cerrorhandler_resetStatus.argtypes = [V]; L.geomodelgrids_cerrorhandler_getStatus.argtypes = [V]
            L.geomodelgrids_cerrorhandler_getMessage.argtypes = [V]; L.geomodelgrids_cerrorhandler_getMessage.restype = S
        self.h = ctypes.c_void_p(self.lib.geomodelgrids_squery_create()); self.nv = 0
    def _a(self, l): return (ctypes.c_char_p * len(l))(*[x.encode() for x in l])
    def init(self, models, values, crs=CRS):
        self.nv = len(values)
        return self.lib.geomodelgrids_squery_initialize(self.h, self._a(models), len(models), self._a(values), len(values), crs.encode())
    def query(self, x, y, z):
        v = (ctypes.c_double * max(1, self.nv))(*([-999.0]*max(1, self.nv)))
        st = self.lib.geomodelgrids_squery_query(self.h, v, x, y, z); return st, list(v)[:self.nv]
    def top(self, x, y): return self.lib.geomodelgrids_squery_queryTopElevation(self.h, x, y)
    def topo(self, x, y): return self.lib.geomodelgrids_squery_queryTopoBathyElevation(self.h, x, y)
    def squash(self, k): return self.lib.geomodelgrids_squery_setSquashing(self.h, k)
    def squashmin(self, e): return self.lib.geomodelgrids_squery_setSquashMinElev(self.h, e)
    def fin(self): return self.lib.geomodelgrids_squery_finalize(self.h)
    def destroy(self): self.lib.geomodelgrids_squery_destroy(ctypes.byref(self.h))
    def eh(self): return self.lib.geomodelgrids_squery_getErrorHandler(self.h)
    def reset(self): self.lib.geomodelgrids_cerrorhandler_resetStatus(self.eh())
    def status(self): return self.lib.geomodelgrids_cerrorhandler_getStatus(self.eh())
    def message(self): return self.lib.geomodelgrids_cerrorhandler_getMessage(self.eh()).decode()
    def logfile(self, f): self.lib.geomodelgrids_cerrorhandler_setLogFilename(self.eh(), f.encode())
    def logging(self, on): self.lib.geomodelgrids_cerrorhandler_setLoggingOn(self.eh(), int(on))

def app(name, *args, env=None, **kw):
    e = dict(os.environ, **(env or {}))
    return subprocess.run([os.path.join(ROOT, "_build/bin/geomodelgrids_"+name), *args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=120, **kw)
def tiff(path):
    """Pixels of a GeoTiff as array [band, row, column]."""
    G = ctypes.CDLL("libgdal.so.34"); G.GDALOpen.restype = G.GDALGetRasterBand.restype = ctypes.c_void_p; G.GDALAllRegister()
    h = G.GDALOpen(path.encode(), 0); assert h; h = ctypes.c_void_p(h)
    nx, ny, nb = G.GDALGetRasterXSize(h), G.GDALGetRasterYSize(h), G.GDALGetRasterCount(h); a = np.zeros((nb, ny, nx), dtype="f4")
    for i in range(nb):
        assert 0 == G.GDALRasterIO(ctypes.c_void_p(G.GDALGetRasterBand(h, i+1)), 0, 0, 0, nx, ny, a[i].ctypes.data_as(ctypes.c_void_p), nx, ny, 6, 0, 0)
    G.GDALClose(h); return a
def rows(path): return [[float(t) for t in l.split()] for l in open(path) if l.strip() and not l.startswith("#")]
# ---- model creation (Python): data source with analytic values, small configurations
class Src:
    fail = None  # called with the number of the call of get_values
    calls = 0
    def __init__(self, config): self.config = config
    def initialize(self): pass
    def get_top_surface(self, p): return (100.0 + 0.001*p[..., 0] - 0.002*p[..., 1])[:, :, None]
    def get_topography_bathymetry(self, p): return self.get_top_surface(p) - 5.0
    def get_values(self, block, top_surface, topo_bathy, batch=None):
        Src.calls += 1
        if Src.fail: Src.fail(Src.calls)
        p = block.generate_points(top_surface, batch)
        return np.stack([1000.0 + 0.1*p[..., 0] + 0.01*p[..., 1] - 0.5*p[..., 2], 2.0*p[..., 2]], axis=3)
def config(path="m.cfg", **over):
    """section__key=value overrides; value None removes the key, section=None the section."""
    c = dict(geomodelgrids=dict(title="Demo", id="demo", description="d", keywords="[one, two]", history="h", comment="c", version="1.0", creator_name="n", creator_institution="i", creator_email="e",
      acknowledgement="a", authors="[A, B | C, D]", references="[r]", repository_name="r", repository_url="u", repository_doi="doi", license="CC0", filename="m.h5", data_source="gmg.Src"),
      coordsys=dict(crs="EPSG:26910", origin_x=1000.0, origin_y=2000.0, y_azimuth=0.0), data=dict(values="[Vp, Vs]", units="[m/s, m/s]", layout="vertex"),
      domain=dict(dim_x=60.0, dim_y=40.0, dim_z=30.0, blocks="[block]"), top_surface=dict(x_resolution=10.0, y_resolution=10.0, chunk_size="(4, 4, 1)"),
      block=dict(x_resolution=10.0, y_resolution=10.0, z_resolution=10.0, z_top=0.0, z_bot=-30.0, z_top_offset=0.0, chunk_size="(4, 4, 2, 2)"))
    for k, v in over.items():
        sec, _, key = k.partition("__")
        if not key:
            if v is None: del c[sec]
            else: c[sec] = dict(v)
        elif v is None: del c[sec][key]
        else: c.setdefault(sec, {})[key] = v
    with open(path, "w") as f:
        for sec, kv in c.items(): f.write("[%s]\n" % sec + "".join("%s = %s\n" % x for x in kv.items()) + "\n")
    return path
def create(cfg, *steps):
    """steps: domain, surfaces, blocks, update, all; the staged package of the build in /repo."""
    stage = os.path.join(ROOT, "_build/stage")
    if stage not in sys.path: sys.path.insert(0, stage)
    import gmg; Src.__module__ = "gmg"; sys.modules.setdefault("gmg", sys.modules[__name__])
    from geomodelgrids.create.apps.create_model import App
    kw = dict(domain="import_domain", surfaces="import_surfaces", blocks="import_blocks", update="update_metadata", all="all_steps")
    App(show_progress=False, log_filename="create.log").main(cfg, **{kw[s]: True for s in steps})
def package():
    stage = os.path.join(ROOT, "_build/stage")
    if stage not in sys.path: sys.path.insert(0, stage)
    import geomodelgrids; return geomodelgrids
def main(fn):
    d = tempfile.mkdtemp(prefix="demo")
    try:
        os.chdir(d); fn(); print("OK")
    finally:
        os.chdir(ROOT); shutil.rmtree(d)
def near(a, b, tol=1.0e-6): return abs(a-b) <= tol*max(1.0, abs(a), abs(b))
