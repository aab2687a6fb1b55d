L = "libsrc/geomodelgrids/"
EV = '\nPROG = """#!%s\nimport sys, math\ndef topo(x, y): return 300.0 + 0.5*x - 0.25*y\na = sys.argv[1:]; name = sys.argv[0].split("/")[-1]\nif name == "ev_facedump": print("Header\\\\nFault Block Names\\\\n[1] west block\\\\n[2] east\\\\n\\\\nZone Names\\\\n[1] soil\\\\n[2] rock\\\\n"); sys.exit(0)\nif name == "ev_fp":\n    import re\n    t = sys.stdin.read(); out = t.split("<elev>")[0]; inp = t.split(", ")[1].split("<x>")[0]\n    with open(out, "w") as f:\n        for l in open(inp):\n            if not l.startswith("#"): x, y = map(float, l.split()[:2]); f.write("%%.6f\\\\n" %% topo(x, y))\n    import os; sys.exit(int(os.environ.get("EXIT", "0")))\nout = a[a.index("-o")+1]\nwith open(out, "w") as f:\n    for l in open(a[-1]):\n        x, y, z = map(float, l.split()[:3]); f.write(\'%%r\\\\t%%r\\\\t%%r\\\\t"%%s"\\\\t"%%s"\\\\n\' %% (x, y, z, "west block" if x < 1.03 else "east", "soil" if z > 280.0 else "rock"))\n""" % sys.executable\ndef evconfig(path="m.cfg", exit="0", xy="km", elev="m", **over):\n    os.makedirs("bin", exist_ok=True); os.makedirs("ev", exist_ok=True)\n    for n in ("ev_facedump", "ev_label", "ev_fp"):\n        open("bin/"+n, "w").write(PROG); os.chmod("bin/"+n, 0o755)\n    open("rules.py", "w").write("def fn(block, zone): return lambda x, y, depth: (1000.0 + 0.5*depth, 10.0*depth + 0.1*(x-1000.0))\\n")\n    if os.getcwd() not in sys.path: sys.path.insert(0, os.getcwd())\n    d = os.path.join(os.getcwd(), "ev"); t = dict(x_resolution=10.0, y_resolution=10.0, chunk_size="(4, 4, 1)")\n    return config(path, geomodelgrids__data_source="geomodelgrids.create.data_srcs.earthvision.datasrc.RulesDataSrc", data=dict(values="[Vp, Vs, fault_block_id, zone_id]", units="[m/s, m/s, none, none]", layout="vertex"),\n      topography_bathymetry=t, block__chunk_size="(4, 4, 2, 4)", earthvision=dict(model_dir=d, geologic_model="m.seq", xy_units=xy, elev_units=elev, rules_fn="rules.fn", top_surface_2grd="[a.2grd]", topography_bathymetry_2grd="[a.2grd]"),\n      **{"earthvision.environment": dict(PATH=os.path.join(os.getcwd(), "bin"), EXIT=exit)}, **over)\n'
EMC = """
import types
class V(np.ndarray):
    def __getitem__(self, k): return np.asarray(self)[k]
def var(a, units, name): v = np.asarray(a).view(V); v.units, v.long_name = units, name; return v
class Dataset:
    def __init__(self, *a):
        d = self.variables = {}; c = dict(longitude=var(LON, "degrees_east", "lon"), latitude=var(LAT, "degrees_north", "lat"), depth=var(DEP, "km", "depth"))
        k, j, i = np.meshgrid(np.arange(len(DEP)), np.arange(len(LAT)), np.arange(len(LON)), indexing="ij")
        for n in ORDER: d[n] = c[n] if n in c else var((1000.0*(n == "vp") + 100*i + 10*j + k).astype("f4"), "m/s", n)
        self.geospatial_lon_min, self.geospatial_lon_max, self.geospatial_lat_min, self.geospatial_lat_max, self.geospatial_vertical_min, self.geospatial_vertical_max = LON[0], LON[-1], LAT[0], LAT[-1], DEP[0], DEP[-1]
        self.geospatial_lon_units, self.geospatial_lat_units, self.geospatial_vertical_units = "degrees_east", "degrees_north", "km"
        self.title = self.id = self.summary = self.keywords = self.history = self.author_name = self.reference = "t"
m = types.ModuleType("netCDF4"); m.Dataset = Dataset; sys.modules["netCDF4"] = m
LON, LAT, DEP = 10.0 + 0.5*np.arange(4), 40.0 + 0.25*np.arange(3), np.array([0.0, 5.0, 15.0, 20.0, 40.0]); ORDER = ["longitude", "latitude", "depth", "vs", "vp"]
def make(batch=None):
    c = config(geomodelgrids__data_source="geomodelgrids.create.data_srcs.iris_emc.datasrc.EMCNetCDF", top_surface=None, coordsys=None, data=None, block=dict(chunk_size="(2, 2, 2, 2)"), iris_emc=dict(filename="f.nc"), domain=dict(batch_size=batch) if batch else dict(dim_x=0.0))
    create(c, "all"); return h5py.File("m.h5")
"""
BUGS = [
dict(id="C01-nodata-bleed", property="C01", needs="a grid with NODATA in one value but not in the values listed after it, and a query in such a cell",
  breaks="Once one value at a cell corner is NODATA, the following values at the point are reported as NODATA although all of their corners hold data.",
  edits=[(L+"serial/Hyperslab.cc", """    for (hsize_t iValue = 0; iValue < numValues; ++iValue) {
        values[iValue] = 0;
        bool hasNoDataValue = false;
""", """    bool hasNoDataValue = false;
    for (hsize_t iValue = 0; iValue < numValues; ++iValue) {
        values[iValue] = 0;
""")],
  demo='''
def go():
    model("m.h5", fn=lambda x, y, z, i: NODATA if (i == 0 and x == 20.0 and y == 20.0) else 1000.0*(i+1) + x)
    q = Query(); assert q.init(["m.h5"], ["Vp", "Vs"]) == 0
    st, v = q.query(OX+15, OY+15, -12.0); print(st, v)
    assert st == 0 and v[0] == NODATA and near(v[1], 2015.0), v
main(go)
'''),
dict(id="C03-units-by-model-index", property="C03", needs="two models listing the same values in different orders, with units that differ between values",
  breaks="Units are compared by index in the model rather than by requested value, so consistent models with values in different orders are refused.",
  edits=[(L+"serial/Query.cc", "        if (valueUnits->count(iValue) == 0) {\n            (*valueUnits)[iValue] = modelUnits[indexModel];\n        } else if ((*valueUnits)[iValue] != modelUnits[indexModel]) {",
     "        if (valueUnits->count(indexModel) == 0) {\n            (*valueUnits)[indexModel] = modelUnits[indexModel];\n        } else if ((*valueUnits)[indexModel] != modelUnits[indexModel]) {")],
  demo='''
def go():
    model("a.h5", values=("Vp", "density"), units=("m/s", "kg/m**3"))
    model("b.h5", values=("density", "Vp"), units=("kg/m**3", "m/s"), ox=OX+40.0, nx=8)
    q = Query(); st = q.init(["a.h5", "b.h5"], ["density", "Vp"]); print(st, q.message())
    assert st == 0
    st, v = q.query(OX+100, OY+10, -5.0); assert st == 0, st
main(go)
'''),
dict(id="C05-fall-through-to-next-model", property="C05", needs="a read error in a model of higher priority where a model of lower priority also contains the point",
  breaks="A model that cannot be read is skipped, so a read error yields the value of another model (or a warning) instead of an error.",
  edits=[(L+"serial/Query.cc", "            const double* modelValues = _models[i]->query(x, y, zSquash);\n", """            const double* modelValues = nullptr;
            try {
                modelValues = _models[i]->query(x, y, zSquash);
            } catch (const std::runtime_error& err) {
                _errorHandler->logMessage(err.what());
                continue;
            } // try/catch
""")],
  demo='''
def go():
    model("a.h5", chunks=(6, 5, 4, 2), fletcher32=True); model("b.h5", fn=lambda x, y, z, i: 1.0)
    with h5py.File("a.h5") as f: off = f["blocks/block"].id.get_chunk_info(0).byte_offset
    d = bytearray(open("a.h5", "rb").read()); d[off+37] ^= 0x55; open("a.h5", "wb").write(d)
    q = Query(); assert q.init(["a.h5", "b.h5"], ["Vp"]) == 0
    st, v = q.query(OX+15, OY+15, -12.0); print(st, v)
    assert st == 2 and v[0] == NODATA, (st, v)
main(go)
'''),
dict(id="C06-coordinates-length", property="C06", needs="a block with more y coordinates than points along y",
  breaks="A file with inconsistent metadata (more y coordinates than grid points) is accepted, and points are interpolated in the wrong cells.",
  edits=[(L+"serial/Block.cc", "    if (_coordinatesY && (dims[1] != _dims[1])) {", "    if (_coordinatesY && (dims[1] < _dims[1])) {")],
  demo='''
def go():
    model("m.h5", ny=5, dy=[0.0, 10.0, 20.0, 35.0, 60.0])
    with h5py.File("m.h5", "a") as f:
        d = f["blocks/block"]; del d.attrs["y_coordinates"]; d.attrs["y_coordinates"] = np.array([0.0, 5.0, 10.0, 20.0, 35.0, 60.0])
    q = Query(); st = q.init(["m.h5"], ["Vp"]); print(st, q.message())
    assert st == 2
main(go)
'''),
dict(id="C08-close-library", property="C08", needs="a second open handle when another handle is destroyed",
  breaks="Destroying one query handle shuts the HDF5 library down, which invalidates the files of every other handle.",
  edits=[(L+"serial/Query.cc", """    for (size_t i = 0; i < _models.size(); ++i) {
        _models[i].reset();
    } // for
} // destructor""", """    for (size_t i = 0; i < _models.size(); ++i) {
        _models[i].reset();
    } // for
    if (!_models.empty()) {
        H5close(); // Release memory held by HDF5 library.
    } // if
} // destructor"""), (L+"serial/Query.cc", "#include <algorithm>", "#include <hdf5.h> // USES H5close()\n#include <algorithm>")],
  demo='''
def go():
    model("a.h5"); model("b.h5")
    p, q = Query(), Query(); assert p.init(["a.h5"], ["Vp"]) == 0 and q.init(["b.h5"], ["Vp"]) == 0
    p.query(OX+5, OY+5, -5.0); p.destroy()
    st, v = q.query(OX+5, OY+5, -5.0); print(st, v, q.message()); assert st == 0 and v[0] > 0
main(go)
'''),
dict(id="C09-squash-option-order", property="C09", needs="--squash-surface=topography_bathymetry given before --squash-min-elev, and surfaces that differ",
  breaks="The option for the floor elevation overrides a squashing surface given before it.",
  edits=[(L+"apps/Query.cc", "            if (geomodelgrids::serial::Query::SQUASH_NONE == _squash) {\n                _squash = geomodelgrids::serial::Query::SQUASH_TOP_SURFACE;\n            } // if\n            _squashMinElev = std::stod(optarg);",
      "            _squash = geomodelgrids::serial::Query::SQUASH_TOP_SURFACE;\n            _squashMinElev = std::stod(optarg);")],
  demo='''
def go():
    model("m.h5", nz=11, dz=100.0, top=lambda x, y: 0.0, topo=lambda x, y: -200.0, fn=lambda x, y, z, i: 5000.0 - z)
    open("pts.txt", "w").write("%f %f -100.0\\n" % (OX+15, OY+15))
    r = app("query", "--models=m.h5", "--values=Vp", "--points=pts.txt", "--output=o.txt", "--points-coordsys="+CRS, "--squash-surface=topography_bathymetry", "--squash-min-elev=-800.0")
    print(r.returncode, r.stdout); assert r.returncode == 0
    v = rows("o.txt"); print(v); z = -200.0 + -100.0*(-800.0+200.0)/-800.0
    assert len(v) == 1 and near(v[0][3], 5000.0 - z, 1e-5)
main(go)
'''),
dict(id="C11-stop-at-first-gap", property="C11", needs="a borehole deeper than the model, or with a gap between stacked models",
  breaks="The profile ends at the first depth that is in no model, so rows up to the maximum depth are missing although the application exits 0.",
  edits=[(L+"apps/Borehole.cc", "        query.query(&values[0], _location[0], _location[1], elevation);\n", """        const int status = query.query(&values[0], _location[0], _location[1], elevation);
        if ((iPt > 0) && (geomodelgrids::utils::ErrorHandler::WARNING == status)) {
            break; // Reached bottom of model.
        } // if
""")],
  demo='''
def go():
    model("m.h5")
    r = app("borehole", "--models=m.h5", "--values=Vp", "--location=%f,%f" % (OX+15, OY+15), "--output=o.txt", "--points-coordsys="+CRS, "--dz=10.0", "--max-depth=60.0")
    print(r.returncode, r.stdout); assert r.returncode == 0
    v = rows("o.txt"); print(v); assert len(v) == 7 and v[6][2] == NODATA
main(go)
'''),
dict(id="C12-stale-pixels", property="C12", needs="a raster extending beyond the model",
  breaks="Pixels outside the model keep the depth of the previous pixel rather than NODATA.",
  edits=[(L+"apps/Isosurface.cc", "            values[iValue] = geomodelgrids::NODATA_VALUE;\n        } // for\n        return;", "            _vbuffer[iValue] = geomodelgrids::NODATA_VALUE;\n        } // for\n        return;")],
  demo='''
def go():
    model("m.h5", nx=11, ny=11, nz=11, dx=100.0, dy=100.0, dz=100.0, values=("Vs",), fn=lambda x, y, z, i: 500.0 - 2*z)
    r = app("isosurface", "--models=m.h5", "--isosurface=Vs,1000", "--bbox=%f,%f,%f,%f" % (OX+500, OX+1500, OY+200, OY+600), "--hresolution=200", "--vresolution=1", "--max-depth=900", "--output=o.tif", "--bbox-coordsys="+CRS)
    print(r.returncode, r.stdout); assert r.returncode == 0
    a = tiff("o.tif"); print(a)
    for iy in range(a.shape[1]):
        for ix in range(a.shape[2]):
            x = OX + 600 + 200*ix
            assert (abs(a[0, iy, ix]/NODATA - 1) < 1e-3) if x > OX + 1000 else near(a[0, iy, ix], 250.0, 0.02), (ix, iy, a[0, iy, ix])
main(go)
'''),
dict(id="C02-topobathy-containment", property="C02", needs="a model whose topography/bathymetry lies at, or within roundoff of, its bottom or outside the model (above its top surface), or a lower-priority model below",
  breaks="The elevation of topography/bathymetry is checked for being in a model at the top surface rather than at the topography/bathymetry itself.",
  edits=[(L+"serial/Query.cc", """        const double elevationTmp = _models[i]->queryTopoBathyElevation(x, y);
        if (_models[i]->contains(x, y, elevationTmp+zOffset)) {""", """        const double elevationTmp = _models[i]->queryTopoBathyElevation(x, y);
        if (_models[i]->contains(x, y, zOffset)) {""")],
  demo="""
def go():
    model("m.h5", top=lambda x, y: -10.0 + 0.1*x, topo=lambda x, y: -12.0 + 0.1*x)
    q = Query(); assert q.init(["m.h5"], ["Vp"]) == 0
    e = q.topo(OX+15, OY+15); print(e); assert near(e, -10.5), e
main(go)
"""),
dict(id="C07-repeated-message", property="C07", needs="the same point queried outside the model twice in a row with the log enabled",
  breaks="A message identical to the previously logged message is not logged, so the log misses points.",
  edits=[(L+"utils/ErrorHandler.cc", "    (*_log) << msg;\n} // logMessage", "    if (_logged == msg) { return; } // Avoid flooding log.\n    _logged = msg;\n    (*_log) << msg;\n} // logMessage"),
   (L+"utils/ErrorHandler.hh", "    std::string _logFilename;", "    std::string _logged;\n    std::string _logFilename;")],
  demo="""
def go():
    model("m.h5")
    q = Query(); assert q.init(["m.h5"], ["Vp"]) == 0
    q.logfile("log.txt"); q.logging(True)
    for i in range(3): q.query(OX-1000, OY, -5.0)
    q.logging(False)
    t = open("log.txt").read(); print(t)
    assert t.count("WARNING") == 3
main(go)
"""),
dict(id="C13-surface-resolution", property="C13", needs="a surface with different resolution in x and y",
  breaks="The listing of the topography/bathymetry surface shows the x resolution for both axes.",
  edits=[(L+"apps/Info.cc", """<< ", y=" << surfaceTopoBathy->getResolutionY() << "\\n";
    } else {""", """<< ", y=" << surfaceTopoBathy->getResolutionX() << "\\n";
    } else {""")],
  demo="""
def go():
    model("m.h5", nx=6, ny=5, dx=10.0, dy=20.0, top=lambda x, y: 0.0, topo=lambda x, y: -1.0)
    r = app("info", "--models=m.h5", "--blocks"); print(r.stdout)
    l = [x for x in r.stdout.splitlines() if "Resolution:" in x]; assert len(l) == 3 and all("x=10" in x and "y=20" in x for x in l)
main(go)
"""),
dict(id="C04-squash-elevation-reused", property="C04", needs="the same point queried twice in a row at different elevations with a change of the squashing surface in between",
  breaks="The elevation of the squashing surface is remembered for the point, but not for which surface it was.",
  edits=[(L+"serial/Query.cc", "                const double topElev = _models[i]->queryTopElevation(x, y);\n", "                const double topElev = _squashElevation(i, x, y);\n"),
   (L+"serial/Query.cc", "                const double groundElev = _models[i]->queryTopoBathyElevation(x, y);\n", "                const double groundElev = _squashElevation(i, x, y);\n"),
   (L+"serial/Query.cc", "// ------------------------------------------------------------------------------------------------\n// Cleanup after querying.\n", """// ------------------------------------------------------------------------------------------------
// Get elevation of surface used in squashing.
double
geomodelgrids::serial::Query::_squashElevation(const size_t index,
                                               const double x,
                                               const double y) {
    if ((index != _squashIndex) || (x != _squashX) || (y != _squashY)) {
        _squashElev = (SQUASH_TOP_SURFACE == _squash) ? _models[index]->queryTopElevation(x, y) :
                      _models[index]->queryTopoBathyElevation(x, y);
        _squashIndex = index;
        _squashX = x;
        _squashY = y;
    } // if
    return _squashElev;
} // _squashElevation


// ------------------------------------------------------------------------------------------------
// Cleanup after querying.
"""),
   (L+"serial/Query.cc", "    _models.clear();\n    _valuesIndex.clear();\n    _valuesLowercase.clear();\n\n    for", "    _models.clear();\n    _valuesIndex.clear();\n    _valuesLowercase.clear();\n    _squashIndex = size_t(-1);\n\n    for"),
   (L+"serial/Query.hh", "    double _squashMinElev;\n", """    double _squashElevation(const size_t index,
                            const double x,
                            const double y);

    size_t _squashIndex = size_t(-1);
    double _squashX = 0.0;
    double _squashY = 0.0;
    double _squashElev = 0.0;
    double _squashMinElev;
""")],
  demo="""
def go():
    model("m.h5", nz=11, dz=100.0, top=lambda x, y: 0.0, topo=lambda x, y: -200.0, fn=lambda x, y, z, i: 5000.0 - z)
    q = Query(); assert q.init(["m.h5"], ["Vp"]) == 0
    q.squashmin(-800.0)
    for k in (1, 2, 1):
        q.squash(k); e = 0.0 if k == 1 else -200.0
        st, v = q.query(OX+15, OY+15, -100.0); z = e + -100.0*(-800.0-e)/-800.0
        print(k, st, v, z); assert st == 0 and near(v[0], 5000.0 - z), v
main(go)
"""),
dict(id="C10-nearby-points-reused", property="C10", needs="geographic coordinates and consecutive points that are less than 0.001 degrees apart",
  breaks="The elevation of the previous point is reused for points that are considered the same; the tolerance is about 100 m for geographic coordinates.",
  edits=[(L+"apps/QueryElev.cc", "        const double elev = (_useTopoBathy) ? query.queryTopoBathyElevation(srcX, srcY) : query.queryTopElevation(srcX, srcY);\n", """        const double tolerance = 1.0e-3;
        if ((fabs(srcX - prevX) > tolerance) || (fabs(srcY - prevY) > tolerance)) { // Reuse elevation for repeated points.
            elev = (_useTopoBathy) ? query.queryTopoBathyElevation(srcX, srcY) : query.queryTopElevation(srcX, srcY);
            prevX = srcX;
            prevY = srcY;
        } // if
"""), (L+"apps/QueryElev.cc", "    sout << _createOutputHeader(argc, argv);\n", "    double prevX = -1.0e+20;\n    double prevY = -1.0e+20;\n    double elev = 0.0;\n    sout << _createOutputHeader(argc, argv);\n"),
   (L+"apps/QueryElev.cc", "#include <cassert>", "#include <cmath> // USES fabs()\n#include <cassert>")],
  demo="""
def go():
    model("m.h5", top=lambda x, y: 100.0 + 10.0*x)
    pts = [(36.144800, -122.999900), (36.144800, -122.999600), (36.144900, -122.999750)]
    open("pts.txt", "w").write("\\n".join("%f %f" % p for p in pts) + "\\n")
    r = app("queryelev", "--models=m.h5", "--points=pts.txt", "--output=o.txt"); print(r.returncode, r.stdout); assert r.returncode == 0
    q = Query(); assert q.init(["m.h5"], ["Vp"], "EPSG:4326") == 0
    v = rows("o.txt"); e = [q.top(*p) for p in pts]; print(v, e)
    assert all(x > -1e10 for x in e) and len(set(e)) == 3 and all(near(w[2], x, 1e-5) for w, x in zip(v, e))
main(go)
"""),
dict(id="C13-surface-mismatch-one-axis", property="C13", needs="a top surface and topography/bathymetry whose resolutions differ along one axis only",
  breaks="Verification reports OK for surfaces whose resolutions differ along one axis only.",
  edits=[(L+"apps/Info.cc", "        if ((fabs(1.0 - topoResolutionX/topResolutionX) > 1.0e-4) ||", "        if ((fabs(1.0 - topoResolutionX/topResolutionX) > 1.0e-4) &&")],
  demo="""
def go():
    model("m.h5", top=lambda x, y: 0.0, topo=lambda x, y: -1.0)
    with h5py.File("m.h5", "a") as f:
        s = f["surfaces"]; d = s["topography_bathymetry"]; a = dict(d.attrs); v = d[()]; del s["topography_bathymetry"]
        n = s.create_dataset("topography_bathymetry", data=np.repeat(v, 2, axis=1)[:, :-1, :])
        for k, x in a.items(): n.attrs[k] = x/2 if k == "y_resolution" else x
    r = app("info", "--models=m.h5", "--verify"); print(r.stdout)
    l = [x for x in r.stdout.splitlines() if "matches resolution" in x]; assert l and "FAIL" in l[0]
main(go)
"""),

dict(id="C14-last-partial-batch", property="C14", needs="batches that leave a remainder of less than half a batch along z",
  breaks="The last, partial batch of points along z is skipped, and these points of the block keep the fill value.",
  edits=[("geomodelgrids/create/utils/batch.py", "        self.nbatch_z = round(math.ceil(num_z / self.bnum_z))\n", "        self.nbatch_z = max(1, round(num_z / self.bnum_z))\n")],
  demo="""
def go():
    create(config(), "all"); a = h5py.File("m.h5")["blocks/block"][:]
    for size in (3, 7, 27, 30, 50, 100):
        create(config(domain__batch_size=size), "all"); b = h5py.File("m.h5")["blocks/block"][:]; print(size, np.abs(a-b).max()); assert np.array_equal(a, b)
main(go)
"""),
dict(id="C14-surface-y-from-x-range", property="C14", needs="surfaces with y_coordinates imported in batches that differ along x and y",
  breaks="Points of batches of surfaces with variable resolution along y use the range of the batch along x to get the y coordinates.",
  edits=[("geomodelgrids/create/core/model.py", """            y1 = self.y_coordinates[y_start:y_end]
        x, y = numpy.meshgrid(x1, y1, indexing="ij")
""", """            y1 = self.y_coordinates[x_start:x_start + (y_end - y_start)]
        x, y = numpy.meshgrid(x1, y1, indexing="ij")
""")],
  demo="""
def go():
    y = "(0.0, 5.0, 10.0, 20.0, 40.0)"
    kw = dict(top_surface__y_resolution=None, top_surface__y_coordinates=y, block__y_resolution=None, block__y_coordinates=y)
    create(config(**kw), "all"); a = h5py.File("m.h5")["surfaces/top_surface"][:]
    create(config(domain__batch_size=4, **kw), "all"); b = h5py.File("m.h5")["surfaces/top_surface"][:]; print(np.abs(a-b).max()); assert np.array_equal(a, b)
main(go)
"""),
dict(id="C15-unreadable-surface-is-flat", property="C15", needs="an error in reading the top surface from the model while importing blocks",
  breaks="If the surface stored in the model cannot be read, points of the block are generated for a flat top surface and creation reports success.",
  edits=[("geomodelgrids/create/core/model.py", "        elevation = surface.storage.load_surface(surface, surface_batch)\n", """        try:
            elevation = surface.storage.load_surface(surface, surface_batch)
        except OSError:
            logging.getLogger(__name__).warning("Could not load surface '%s'. Assuming surface is flat.", surface.name)
            elevation = numpy.zeros((numpy.max(x_indices) + 1, numpy.max(y_indices) + 1, 1))
""")],
  demo="""
def go():
    create(config(), "domain", "surfaces")
    import h5py as H; F = H.File
    class Bad(F):
        def __init__(self, name, mode="r", *a, **k):
            if mode == "r": raise OSError(5, "Input/output error")
            F.__init__(self, name, mode, *a, **k)
    H.File = Bad
    try: create("m.cfg", "blocks"); ok = True
    except OSError as e: print("raises", e); ok = False
    H.File = F
    assert not ok
main(go)
"""),
dict(id="C15-failed-batch-skipped", property="C15", needs="an I/O error while one of several batches of a block is imported",
  breaks="A batch of a block that fails with an I/O error is skipped, and creation reports success with a block that is incomplete.",
  edits=[("geomodelgrids/create/apps/create_model.py", """                        values = datasrc.get_values(block, model.top_surface, topo_depth, batch)
                        model.save_block(block, values, batch)
""", """                        try:
                            values = datasrc.get_values(block, model.top_surface, topo_depth, batch)
                            model.save_block(block, values, batch)
                        except OSError as err:
                            logging.getLogger(__name__).error("Skipping %s of block '%s': %s", batch, block.name, err)
""")],
  demo="""
def go():
    def fail(n):
        if n == 2: raise OSError(5, "Input/output error")
    Src.fail = fail; import gmg; gmg.Src.fail = fail
    try: create(config(domain__batch_size=40), "all"); ok = True
    except OSError as e: print("raises", e); ok = False
    assert not ok
main(go)
"""),
dict(id="C16-one-surface-updated", property="C16", needs="a model with both surfaces and a change of the metadata of the topography/bathymetry surface",
  breaks="Updating the metadata of a model with a top surface leaves the metadata of topography/bathymetry unchanged.",
  edits=[("geomodelgrids/create/core/model.py", """            self.storage.save_surface_metadata(self.top_surface)
        if self.topo_bathy:
            self.storage.save_surface_metadata""", """            self.storage.save_surface_metadata(self.top_surface)
        elif self.topo_bathy:
            self.storage.save_surface_metadata""")],
  demo="""
def go():
    t = dict(x_resolution=10.0, y_resolution=10.0, chunk_size="(4, 4, 1)"); create(config(topography_bathymetry=t), "all")
    t = dict(t, x_resolution=12.0); create(config(topography_bathymetry=t, top_surface__x_resolution=12.0, block__x_resolution=12.0, domain__dim_x=72.0), "update")
    with h5py.File("m.h5") as f:
        for n in ("surfaces/top_surface", "surfaces/topography_bathymetry", "blocks/block"): print(n, f[n].attrs["x_resolution"]); assert f[n].attrs["x_resolution"] == 12.0
main(go)
"""),
dict(id="C17-points-stretched-to-domain", property="C17", needs="a domain that is not a multiple of the block resolution",
  breaks="The points of a block span the whole domain although the resolution that is stored does not, so that values are queried back at other locations than those of the data source.",
  edits=[("geomodelgrids/create/core/model.py", """            y1 = self.y_coordinates[y_start:y_end]
        if self.z_resolution:
""", """            y1 = self.y_coordinates[y_start:y_end]
        if self.x_resolution:
            x1 = numpy.linspace(0.0, self.model_metadata.dim_x, num_x)[x_start:x_end]
        if self.z_resolution:
""")],
  demo="""
def go():
    create(config(domain__dim_x=67.0, top_surface=None), "all")
    q = Query(); assert q.init(["m.h5"], ["Vp"], "EPSG:26910") == 0
    for x in (10.0, 30.0, 60.0):
        st, v = q.query(1000.0+x, 2010.0, -10.0); e = 1000.0 + 0.1*(1000.0+x) + 0.01*2010.0 + 5.0; print(x, st, v, e); assert st == 0 and near(v[0], e, 1e-4)
main(go)
"""),
dict(id="C18-status-array-reused", property="C18", needs="two queries for the same number of points on one object, and a look at the status of the first after the second",
  breaks="The array with the status of the points is reused by the next query for the same number of points, so that a result the caller holds changes.",
  edits=[("modulesrc/Query_wrap.cc", "        py::array_t<int> errorArray(numPoints);\n", """        if (static_cast<size_t>(_errors.size()) != numPoints) { // Avoid allocation for repeated queries.
            _errors = py::array_t<int>(numPoints);
        }
        py::array_t<int>& errorArray = _errors;
"""), ("modulesrc/Query_wrap.cc", "        return std::make_tuple(resultArray, errorArray);\n    }\n\n};", "        return std::make_tuple(resultArray, errorArray);\n    }\n\nprivate:\n\n    py::array_t<int> _errors;\n\n};")],
  demo="""
def go():
    G = package(); model("m.h5"); q = G.Query(); q.initialize(["m.h5"], ["Vp"], CRS)
    v, a = q.query(np.array([[OX+5, OY+5, -5.0], [OX-500, OY, -5.0]])); b = a.copy()
    v, c = q.query(np.array([[OX-500, OY+5, -5.0], [OX+5, OY+5, -5.0]])); print(a, b, c)
    assert list(b) == [0, 1] and list(c) == [1, 0] and list(a) == list(b)
main(go)
"""),
dict(id="C18-model-points-layout", property="C18", needs="points in an array that is not C-contiguous passed to Model.contains()",
  breaks="Model.contains() reads arrays that are not C-contiguous (Fortran order, slices) in the wrong order.",
  edits=[("modulesrc/Model_wrap.cc", "    py::array_t<double> contains(py::array_t<double, py::array::c_style | py::array::forcecast> pointsArray) {", "    py::array_t<double> contains(py::array_t<double> pointsArray) {")],
  demo="""
def go():
    G = package(); model("m.h5"); m = G.Model(); m.open("m.h5", G.Model.READ); m.load_metadata(); m.set_input_crs(CRS); m.initialize()
    p = np.array([[OX+5, OY+5, -5.0], [OX-500, OY, -5.0], [OX+20, OY+10, -10.0]]); a = np.asarray(m.contains(p)); b = np.asarray(m.contains(np.asfortranarray(p))); c = np.asarray(m.contains(np.hstack([p, p])[:, :3])); print(a, b, c)
    assert np.array_equal(a, [1, 0, 1]) and np.array_equal(a, b) and np.array_equal(a, c)
main(go)
"""),
dict(id="C19-elevation-of-other-batch", property="C19", needs="several batches of points with the same number of points along x and y in a block",
  breaks="The ground surface used for the depth of points is that of an earlier batch of the same shape, so the rules function gets wrong depths.",
  edits=[("geomodelgrids/create/data_srcs/earthvision/datasrc.py", "        topo_bathy_elev = block.get_surface(topo_bathy, batch)\n", """        # Same surface for batches at different depths; avoid loading it again.
        key = (block.name, points.shape[0:2])
        if key not in self.elev_cache:
            self.elev_cache[key] = block.get_surface(topo_bathy, batch)
        topo_bathy_elev = self.elev_cache[key]
"""), ("geomodelgrids/create/data_srcs/earthvision/datasrc.py", "        self.zone_ids = {}\n        super", "        self.zone_ids = {}\n        self.elev_cache = {}\n        super")],
  demo=EV + """
def go():
    create(evconfig(), "all"); a = h5py.File("m.h5")["blocks/block"][:]
    create(evconfig(domain__batch_size=12), "all"); b = h5py.File("m.h5")["blocks/block"][:]; print(a[0, 0], np.abs(a-b).max()); assert np.allclose(a, b, atol=0.05)
main(go)
"""),
dict(id="C19-elevation-in-horizontal-units", property="C19", needs="topography/bathymetry with different units for horizontal coordinates and elevations",
  breaks="Elevations of topography/bathymetry from EarthVision are scaled with the units of the horizontal coordinates.",
  edits=[("geomodelgrids/create/data_srcs/earthvision/datasrc.py", """        for grd_filename in string_to_list(self.config["earthvision"]["topography_bathymetry_2grd"]):
            formula = "{filename_out}<elev> = bakint({ev2grd}, {filename_in}<x>, {filename_in}<y>);".format(
                filename_in=POINTS_FILENAME, filename_out=ELEV_FILENAME, ev2grd=grd_filename)
            elev_grd = self.api.ev_fp(formula, elev_abspath).reshape(points.shape[0:2])
            elev_grd *= units.length_scale(self.config["earthvision"]["elev_units"])
""", """        for grd_filename in string_to_list(self.config["earthvision"]["topography_bathymetry_2grd"]):
            formula = "{filename_out}<elev> = bakint({ev2grd}, {filename_in}<x>, {filename_in}<y>);".format(
                filename_in=POINTS_FILENAME, filename_out=ELEV_FILENAME, ev2grd=grd_filename)
            elev_grd = self.api.ev_fp(formula, elev_abspath).reshape(points.shape[0:2])
            elev_grd *= scale
""")],
  demo=EV + """
def go():
    create(evconfig(), "domain", "surfaces"); f = h5py.File("m.h5"); a, b = f["surfaces/top_surface"][:], f["surfaces/topography_bathymetry"][:]; print(a[0, 0], b[0, 0]); assert np.allclose(a, b) and np.allclose(a[0, 0, 0], 300.0 + 0.5*1.0 - 0.25*2.0)
main(go)
"""),
dict(id="C19-ev-fp-status-ignored", property="C19", needs="ev_fp failing after it wrote elevations",
  breaks="A failure of ev_fp is not reported, so creation carries on with whatever it wrote.",
  edits=[("geomodelgrids/create/data_srcs/earthvision/api.py", """            "utf-8"), cwd=self.model_dir, env=self.env, stdout=subprocess.PIPE, check=True)
""", """            "utf-8"), cwd=self.model_dir, env=self.env, stdout=subprocess.PIPE)
        if result.returncode:
            logger.warning("EarthVision command 'ev_fp' returned %d.", result.returncode)
""")],
  demo=EV + """
def go():
    create(evconfig(), "domain", "surfaces")
    try: create(evconfig(exit="3"), "domain", "surfaces"); ok = True
    except subprocess.CalledProcessError as e: print("raises", e); ok = False
    assert not ok
main(go)
"""),
dict(id="C20-columns-in-file-order", property="C20", needs="columns of values that are not in the order of the values in the model",
  breaks="Values are stored in the order of their columns in the CSV file rather than in the order of the values of the model.",
  edits=[("geomodelgrids/create/data_srcs/csv/datasrc.py", """        value_columns = [int(self.config["csv.columns"][value]) for value in value_names]
""", """        value_columns = sorted([int(column) for name, column in self.config["csv.columns"].items() if name in value_names])
""")],
  demo="""
def go():
    with open("p.csv", "w") as f:
        for x in range(7):
            for y in range(5):
                for z in range(4): f.write(f"{1000+10*x} {2000+10*y} {-10*z} {x+1} {100*y+z}\\n")
    kw = dict(geomodelgrids__data_source="geomodelgrids.create.data_srcs.csv.datasrc.CSVFile", top_surface=None, csv=dict(filename="p.csv", crs="EPSG:26910"))
    for cols in ((3, 4), (4, 3)):
        create(config(**kw, **{"csv.columns": dict(x=0, y=1, z=2, Vp=cols[0], Vs=cols[1])}), "all"); v = h5py.File("m.h5")["blocks/block"][2, 3, 1]; print(cols, v); assert list(v[[cols[0]-3, cols[1]-3]]) == [3.0, 301.0] or list(v) == [[3.0, 301.0][c-3] for c in cols]
main(go)
"""),
dict(id="C20-axis-order", property="C20", needs="a CSV file in a geographic coordinate system with latitude first, or a model in a coordinate system with northing first",
  breaks="Coordinates are transformed with the axis order of the coordinate systems instead of x (longitude, easting) and y.",
  edits=[("geomodelgrids/create/data_srcs/csv/datasrc.py", """            crs_to=self.config["coordsys"]["crs"], crs_from=self.config["csv"]["crs"], always_xy=True)
""", """            crs_to=self.config["coordsys"]["crs"], crs_from=self.config["csv"]["crs"])
""")],
  demo="""
def go():
    import pyproj
    t = pyproj.Transformer.from_crs("EPSG:26910", "EPSG:4326", always_xy=True)
    with open("p.csv", "w") as f:
        for x in range(7):
            for y in range(5):
                for z in range(4): p = t.transform(500000.0+10*x, 4000000.0+10*y); f.write(f"{p[0]:.9f} {p[1]:.9f} {-10*z} {x+1} {100*y+z}\\n")
    kw = dict(geomodelgrids__data_source="geomodelgrids.create.data_srcs.csv.datasrc.CSVFile", top_surface=None, coordsys__origin_x=500000.0, coordsys__origin_y=4000000.0, csv=dict(filename="p.csv", crs="EPSG:4326"))
    create(config(**kw, **{"csv.columns": dict(x=0, y=1, z=2, Vp=3, Vs=4)}), "all"); v = h5py.File("m.h5")["blocks/block"][2, 3, 1]; print(v); assert list(v) == [3.0, 301.0]
main(go)
"""),
dict(id="C23-batch-cache", property="C23", needs="batches that differ in their range of x or y but have the same range of depths",
  breaks="Values read for one batch are used for other batches with the same range of depths.",
  edits=[("geomodelgrids/create/data_srcs/iris_emc/datasrc.py", """        self._read_model_metadata()
        self._read_domain_metadata()
""", """        self._layers = {}
        self._read_model_metadata()
        self._read_domain_metadata()
"""), ("geomodelgrids/create/data_srcs/iris_emc/datasrc.py", """                values_batch = self.emc.variables[name][z_start:z_end, y_start:y_end, x_start:x_end]
""", """                key = (name, z_start, z_end, y_end - y_start, x_end - x_start)
                if key not in self._layers:
                    self._layers[key] = self.emc.variables[name][z_start:z_end, y_start:y_end, x_start:x_end]
                values_batch = self._layers[key]
""")],
  demo=EMC+"""
def go():
    with make(20) as f: v = f["blocks/block"][:]; print(v[..., 0])
    i, j, k = np.meshgrid(np.arange(4), np.arange(3), np.arange(5), indexing="ij"); assert (v[..., 0] == 100*i + 10*j + k).all() and (v[..., 1] == 1000 + 100*i + 10*j + k).all()
main(go)
"""),
dict(id="C23-nearly-uniform-depths", property="C23", needs="depths with spacings that differ by a few percent",
  breaks="Depths with slightly different spacings are treated as uniform, so values are stored at other depths than those in the file.",
  edits=[("geomodelgrids/create/data_srcs/iris_emc/datasrc.py", """            return numpy.std(numpy.diff(z)) < 0.001
""", """            dz = numpy.diff(z)
            return numpy.std(dz) < 0.1 * numpy.mean(dz)
""")],
  demo=EMC+"""
def go():
    global DEP; DEP = np.array([0.0, 10.0, 20.5, 30.0, 40.0])
    with make() as f: a = dict(f["blocks/block"].attrs); print(a); assert "z_coordinates" in a and list(a["z_coordinates"]) == list(-1000.0*DEP)
main(go)
"""),
dict(id="C23-coordinates-first", property="C23", needs="a file in which the coordinate variables are not the first variables",
  breaks="The first three variables of the file are taken for the coordinates whatever they are.",
  edits=[("geomodelgrids/create/data_srcs/iris_emc/datasrc.py", """        values = list(self.emc.variables.keys())
        for ignore in ("longitude", "latitude", "depth"):
            values.remove(ignore)
""", """        values = list(self.emc.variables.keys())[3:]
""")],
  demo=EMC+"""
def go():
    global ORDER; ORDER = ["vs", "depth", "latitude", "longitude", "vp"]
    with make() as f: print(f.attrs["data_values"]); assert [x.decode() if isinstance(x, bytes) else str(x) for x in f.attrs["data_values"]] == ["vs", "vp"]
main(go)
"""),
]
