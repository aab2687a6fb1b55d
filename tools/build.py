"""Builds the simulators from /repo's current working tree (content-hash cached in /verif/build)."""
import glob, hashlib, os, subprocess, sys, sysconfig, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, "build")
CXX = "g++"
PROJ_SEAM = ["-Dproj_create_crs_to_crs=gsim_proj_create_crs_to_crs", "-Dproj_create=gsim_proj_create"]  # see sim/geomemo.hh
BASE = ["-std=c++17", "-g", "-O1", "-w", "-DWITH_GDAL", "-I", f"{V}/sim/stub", "-I", f"{R}/libsrc", "-I", f"{V}/sim"]

def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: raise RuntimeError(" ".join(cmd) + "\n" + p.stdout[-6000:])
    return p.stdout
def includes():
    r = []
    for d in ("/usr/include/hdf5/serial", "/usr/include/gdal"):
        if os.path.isdir(d): r += ["-I", d]
    return r
def libs():
    l = []
    for d in ("/usr/lib/x86_64-linux-gnu/hdf5/serial",):
        if os.path.isdir(d): l += ["-L", d, "-Wl,-rpath," + d]
    return l + ["-lhdf5", "-lproj", "-lgdal", "-ldl", "-lpthread"]
def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(os.path.relpath(f, "/").encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:24]
def headers():
    hs = []
    for root, _, fs in os.walk(f"{R}/libsrc"):
        hs += [os.path.join(root, f) for f in fs if f.endswith((".hh", ".h", ".icc", ".hpp"))]
    return hs
def repo_sources():
    s = []
    for d in ("serial", "utils", "apps"): s += sorted(glob.glob(f"{R}/libsrc/geomodelgrids/{d}/*.cc"))
    return s
def obj(src, flags, hd):
    os.makedirs(f"{B}/obj", exist_ok=True)
    key = digest([src], hd + " ".join(flags)); out = f"{B}/obj/{key}.o"
    if not os.path.exists(out):
        tmp = f"{out}.{os.getpid()}.tmp"
        sh([CXX, *flags, "-c", src, "-o", tmp]); os.replace(tmp, out)
    return out
def link(objs, name, args):
    os.makedirs(f"{B}/bin", exist_ok=True)
    key = hashlib.sha256((" ".join(sorted(objs)) + " ".join(args)).encode()).hexdigest()[:20]
    base, ext = os.path.splitext(name); out = f"{B}/bin/{base}-{key}{ext}"
    if not os.path.exists(out):
        tmp = f"{out}.{os.getpid()}.tmp"; sh([CXX, *objs, "-o", tmp, *args]); os.replace(tmp, out)
    return out
def gsim():
    hd = digest(headers()); sh_hd = digest(glob.glob(f"{V}/sim/*.h") + glob.glob(f"{V}/sim/*.hh"), hd)
    jobs = []
    flags = BASE + includes(); rflags = flags + PROJ_SEAM
    for s in repo_sources(): jobs.append((s, rflags, hd))
    for a in ("query", "queryelev", "borehole", "isosurface", "info"): jobs.append((f"{R}/bin/{a}.cc", rflags + [f"-Dmain={a}_main"], hd))
    jobs.append((f"{V}/sim/gsim.cc", flags, sh_hd)); jobs.append((f"{V}/sim/simio.cc", flags + ["-DSIMIO_ALLOC"], sh_hd))
    with cf.ThreadPoolExecutor(8) as ex: 
        jobs.sort(key=lambda j: "gsim.cc" not in j[0]); objs = list(ex.map(lambda j: obj(*j), jobs))
    objs_of = {os.path.basename(j[0]): o for j, o in zip(jobs, objs)}
    # export only the seam (libc and operator new/delete replacements): template instances of the code under test must not
    # replace the ones inside PROJ/GDAL, or injected allocation failures would hit third-party code
    syms = sorted({l.split()[-1] for l in sh(["nm", "--defined-only", objs_of["simio.cc"]]).splitlines() if l.split()[-2] in "TW"})
    vs = f"{B}/obj/seam-{hashlib.sha256(' '.join(syms).encode()).hexdigest()[:16]}.map"
    open(vs, "w").write("{ global: " + "; ".join(x for x in syms if not x.startswith("_ZN") and not x.startswith("_ZSt")) + "; local: *; };\n")
    return link(objs, "gsim", ["-rdynamic", f"-Wl,--version-script={vs}"] + libs())
def pysim():
    """libsimio.so (LD_PRELOAD) and the Python extension; returns (preload, package dir)."""
    hd = digest(headers()); sh_hd = digest(glob.glob(f"{V}/sim/*.h"), "")
    flags = BASE + includes() + ["-fPIC"]
    so = link([obj(f"{V}/sim/simio.cc", flags, sh_hd)], "libsimio.so", ["-shared", "-ldl"])
    sflags = flags; flags = flags + PROJ_SEAM
    pyf = flags + ["-I", sysconfig.get_paths()["include"], "-I", f"{R}/modulesrc"]
    srcs = repo_sources(); jobs = [(s, flags, hd) for s in srcs] + [(s, pyf, hd + digest(glob.glob(f"{R}/modulesrc/*.hh") + glob.glob(f"{R}/modulesrc/*.h"))) for s in sorted(glob.glob(f"{R}/modulesrc/*.cc"))]
    jobs.append((f"{V}/sim/geomemo.cc", sflags, digest(glob.glob(f"{V}/sim/geomemo.hh"))))
    with cf.ThreadPoolExecutor(8) as ex: objs = list(ex.map(lambda j: obj(*j), jobs))
    ext = link(objs, "_geomodelgrids.so", ["-shared", "-fPIC"] + libs())
    py = sorted(glob.glob(f"{R}/geomodelgrids/**/*.py", recursive=True) + glob.glob(f"{R}/examples/python-api/*.py"))
    key = digest(py, ext); pkg = f"{B}/py/{key}"
    if not os.path.exists(pkg + "/.done"):
        for f in py:
            d = os.path.join(pkg, os.path.relpath(f, R)); os.makedirs(os.path.dirname(d), exist_ok=True)
            t = f"{d}.{os.getpid()}"; open(t, "wb").write(open(f, "rb").read()); os.replace(t, d)
        l = f"{pkg}/geomodelgrids/_geomodelgrids.so"
        t = f"{l}.{os.getpid()}"; os.symlink(ext, t); os.replace(t, l)
        open(pkg + "/.done", "w").close()
    return so, pkg
if __name__ == "__main__":
    import time; t = time.time()
    what = sys.argv[1:] or ["gsim", "pysim"]
    for w in what: print(globals()[w]())
    print("%.1fs" % (time.time()-t), file=sys.stderr)
