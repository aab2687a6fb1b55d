"""What each check runs: engine, modes with their share of the time budget, components, assumptions."""
M3 = {"clean": 0.4, "benign": 0.1, "faults": 0.5}
REAL_LIB = ["libsrc/geomodelgrids/serial (Query, Model, Block, Surface, HDF5, Hyperslab, ModelInfo)", "libsrc/geomodelgrids/utils (CRSTransformer, Indexing, ErrorHandler, ...)", "libhdf5", "libproj", "libstdc++"]
REAL_APPS = REAL_LIB + ["libsrc/geomodelgrids/apps", "bin/*.cc main()", "libtiff/GDAL"]
STUB = ["disk and file system below /simfs/ (sim/simio.cc at the libc boundary)", "operator new of the code under test (fault point)", "client sessions and their interleaving (scenario)"]
ASSUME = ["Faults are those of the seam: failing or short libc calls, failing allocations in code of /repo, process crash with torn last write; memory corruption inside third-party libraries is not simulated.",
  "The oracle tolerates a perturbation of 2e-5 (model units) of a query point, so that roundoff at cell and block boundaries is not reported.",
  "A sampled search: it does not enumerate all histories."]
def c(engine="gsim", modes=M3, real=REAL_LIB, stub=STUB, assume=ASSUME, quick=60, thorough=600):
    return dict(engine=engine, modes=modes, real=real, stub=stub, assume=assume, quick=quick, thorough=thorough)
CHECKS = {f"C{i:02d}": c() for i in range(1, 9)}
CHECKS.update({f"C{i:02d}": c(real=REAL_APPS) for i in range(9, 14)})
FAULTY = {"clean": 0.15, "benign": 0.05, "faults": 0.8}
CALM = {"clean": 0.75, "benign": 0.15, "faults": 0.10}
for k in ("C05", "C06"): CHECKS[k]["modes"] = FAULTY
for k in ("C01", "C02", "C03", "C04"): CHECKS[k]["modes"] = CALM
REAL_CREATE = ["geomodelgrids/create (apps/create_model, core, utils, io)", "h5py", "numpy", "configparser", "libhdf5"]
STUB_CREATE = ["disk and file system below /simfs/ (sim/simio.cc preloaded at the libc boundary)", "data source (analytic functions of the physical location, can fail at any call)", "operating-system processes (every run of the application is a process of its own; only the disk survives it)"]
ASSUME_CREATE = ["Faults are those of the seam: failing or short libc calls, full disk, process crash with torn last write, exceptions of the data source; crashes of libhdf5 while it cleans up after the application has reported its outcome are not attributed to the application.",
  "A write that the operating system accepted is durable (HDF5 is not crash-consistent by itself: after a crash during a write the property only promises that the rerun reports the damage or is right, and that starting over converges).", "A sampled search: it does not enumerate all configurations and histories."]
for k in ("C14", "C15", "C16"): CHECKS[k] = c(engine="psim", real=REAL_CREATE, stub=STUB_CREATE, assume=ASSUME_CREATE)
CHECKS["C17"] = c(engine="psim", real=REAL_CREATE + ["modulesrc (Query, Model, ModelInfo bindings)"] + REAL_LIB, stub=STUB_CREATE, assume=ASSUME_CREATE)
CHECKS["C14"]["modes"] = {"clean": 0.6, "benign": 0.1, "faults": 0.3}
CHECKS["C15"]["modes"] = CHECKS["C16"]["modes"] = {"clean": 0.2, "benign": 0.1, "faults": 0.7}
CHECKS["C17"]["modes"] = {"clean": 0.6, "benign": 0.1, "faults": 0.3}
CHECKS["C18"] = c(engine="psim", modes={"clean": 0.45, "benign": 0.1, "faults": 0.45}, real=["modulesrc (Query, Model, ModelInfo, ErrorHandler bindings)", "geomodelgrids/__init__.py"] + REAL_LIB,
  stub=["disk and file system below /simfs/ (sim/simio.cc preloaded at the libc boundary)", "calling program (sequence of calls and arrays from the scenario)", "model files written by sim/psim_bind.py"],
  assume=["Expected results come from the C API of the same library, called point by point on a good disk (C01-C07 decide that one).", "Failures of opening a file that another object holds open after a read fault are not attributed to the bindings (libhdf5 caches partially read object headers).", "A sampled search: it does not enumerate all histories."])
CHECKS["C19"] = c(engine="psim", modes={"clean": 0.25, "benign": 0.1, "faults": 0.65}, real=REAL_CREATE + ["geomodelgrids/create/data_srcs/earthvision"], assume=ASSUME_CREATE,
  stub=STUB_CREATE[:1] + ["EarthVision programs ev_facedump, ev_label, ev_fp (analytic geology, output files on the simulated disk, failures at any invocation)", "subprocess.Popen"] + STUB_CREATE[2:])
CHECKS["C20"] = c(engine="psim", modes={"clean": 0.5, "benign": 0.1, "faults": 0.4}, real=REAL_CREATE + ["geomodelgrids/create/data_srcs/csv", "pyproj"], assume=ASSUME_CREATE,
  stub=STUB_CREATE[:1] + ["clock (datetime.now)", "CSV files written by the scenario"] + STUB_CREATE[2:])
CHECKS["C23"] = c(engine="psim", modes={"clean": 0.4, "benign": 0.1, "faults": 0.5}, real=REAL_CREATE + ["geomodelgrids/create/data_srcs/iris_emc", "geomodelgrids.Query", "pyproj", "PROJ"], assume=ASSUME_CREATE,
  stub=STUB_CREATE[:1] + ["netCDF4 module (reads a simple file format from the simulated disk, masked arrays, errors like those of the C library)", "clock (datetime.now)", "NetCDF files written by the scenario"] + STUB_CREATE[2:])
CHECKS["C24"] = c(engine="psim", modes={"clean": 0.35, "benign": 0.1, "faults": 0.55}, real=["examples/python-api/station_profiles.py", "modulesrc (Query bindings)", "geomodelgrids/__init__.py"] + REAL_LIB,
  stub=["disk and file system below /simfs/ (sim/simio.cc preloaded at the libc boundary)", "operating-system processes (every run of the application is a process of its own; only the disk survives it)", "model files and files of stations written by the scenario"],
  assume=["Expected values come from the C API of the same library, called point by point on a good disk (C01-C07 decide that one); the oracle tolerates 1e-4 m in elevation.", "A sampled search: it does not enumerate all histories."])
for k in CHECKS:
    if CHECKS[k]["engine"] == "psim": CHECKS[k]["quick"] = 80  # processes of Python: fewer runs per second
