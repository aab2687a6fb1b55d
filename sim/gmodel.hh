// Deterministic model generator, HDF5 writer, and the executable reference model (the oracle).
// Nothing here uses code of the system under test.
#pragma once
#include <hdf5.h>
#include <proj.h>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

static const double ND = -1.0e+20;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed*0x9E3779B97F4A7C15ULL + 0x1234567ULL) {}
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z>>30))*0xBF58476D1CE4E5B9ULL; z = (z ^ (z>>27))*0x94D049BB133111EBULL; return z ^ (z>>31); }
    double u() { return (next() >> 11) * (1.0/9007199254740992.0); }
    double u(double a, double b) { return a + (b-a)*u(); }
    int i(int a, int b) { return a + int(next() % uint64_t(b-a+1)); } // inclusive
    bool p(double x) { return u() < x; }
    template<typename T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
};
static inline uint64_t hmix(uint64_t a, uint64_t b) { Rng r(a ^ (b*0xD6E8FEB86659FD93ULL)); r.next(); return r.next(); }

typedef std::map<std::string, std::string> KV;
static inline KV parseKV(const std::vector<std::string>& t, size_t from) {
    KV kv; for (size_t i = from; i < t.size(); ++i) { size_t e = t[i].find('='); if (e != std::string::npos) { kv[t[i].substr(0, e)] = t[i].substr(e+1); } } return kv;
}
static inline std::vector<std::string> split(const std::string& s, char d) { std::vector<std::string> r; std::string t; std::istringstream in(s); while (std::getline(in, t, d)) { r.push_back(t); } return r; }
static inline std::string lower(std::string s) { for (auto& c : s) { c = (char)tolower((unsigned char)c); } return s; }

struct Axis {
    int n = 2; double res = 1.0; std::vector<double> c; bool var = false; // c: coordinates from 0 (x,y) or descending elevation offsets
    double at(int i) const { return var ? c[i] : i*res; }
    double len() const { return at(n-1); }
};
struct SurfSpec {
    bool present = false; Axis x, y; std::vector<double> v; int dtype = 0;
    double node(int i, int j) const { return v[size_t(i)*y.n + j]; }
};
struct BlockSpec {
    std::string name; Axis x, y; int nz = 2; double dz = 1.0; bool zvar = false; std::vector<double> zc; // zc absolute, descending
    double ztop = 0; std::vector<double> v; int nv = 1; int dtype = 0;
    double z(int k) const { return zvar ? zc[k] : ztop - k*dz; }
    double node(int i, int j, int k, int m) const { return v[((size_t(i)*y.n + j)*nz + k)*nv + m]; }
};
struct ModelSpec {
    std::string name; // file is /simfs/<name>.h5
    std::string crs; double ox = 0, oy = 0, az = 0, dx = 0, dy = 0, dz = 0;
    std::vector<std::string> values, units; size_t numUnits = 99; // numUnits: units stored in the file
    std::map<std::string, std::string> info; std::vector<std::string> keywords, authors, references; std::string auxiliary;
    SurfSpec top, topo; std::vector<BlockSpec> blocks; // ordered by ztop descending
    bool vlenStrings = true; uint64_t seed = 0;
    std::vector<std::string> drop; // attributes left out ("path:name") => invalid model
    std::vector<std::string> bads; // malformed metadata ("kind:path:what") => invalid model
    bool bad(const std::string& k) const { return std::find(bads.begin(), bads.end(), k) != bads.end(); }
    bool zshifted = false;
    double sliver = 0; // blocks separated by less than the tolerance of the library (truncated decimals in the file)
    bool badLong = false; std::string dropGroup; std::string badDims, badLayout, badRank, badCrs;
    bool chunked = false, deflate = false, fletcher = false;
    bool valid() const { return bads.empty() && drop.empty() && dropGroup.empty() && badDims.empty() && badLayout.empty() && badRank.empty() && badCrs.empty(); }
    std::string path() const { return "/simfs/" + name + ".h5"; }
};

// ------------------------------------------------------------------ generation
static inline double asStored(double v, int dtype) { // what a reader gets back
    switch (dtype % 5) { case 0: case 2: return (double)(float)v; case 4: return v <= -1e19 ? v : std::floor(v); default: return v; }
}
static Axis genAxis(Rng& r, double len, int n, bool var) {
    Axis a; a.n = n; a.var = var && n > 2; a.res = len/(n-1);
    if (a.var) { a.c.resize(n); double s = 0; std::vector<double> w(n-1); for (auto& q : w) { q = r.u(0.3, 2.0); s += q; } a.c[0] = 0; for (int i = 1; i < n; ++i) { a.c[i] = a.c[i-1] + w[i-1]/s*len; } a.c[n-1] = len; }
    return a;
}
struct ModelCRS { const char* crs; double x, y; };
static const ModelCRS MODEL_CRSS[5] = { {"EPSG:26910", 550000.0, 4150000.0}, {"EPSG:3311", -120000.0, -40000.0}, {"EPSG:32611", 480000.0, 3750000.0}, {"EPSG:2227", 6060000.0, 2110000.0}, {"+proj=tmerc +lat_0=37.5 +lon_0=-122 +k=0.9996 +datum=WGS84 +units=m +no_defs +type=crs", 20000.0, -15000.0} };
static ModelSpec genModel(const std::string& name, uint64_t seed, const KV& o) {
    auto get = [&](const char* k, const std::string& d) { auto it = o.find(k); return it == o.end() ? d : it->second; };
    auto geti = [&](const char* k, int d) { auto it = o.find(k); return it == o.end() ? d : atoi(it->second.c_str()); };
    Rng r(seed);
    ModelSpec m; m.name = name; m.seed = seed;
    const ModelCRS& c = MODEL_CRSS[geti("crs", r.p(0.75) ? r.i(0, 2) : r.i(3, 4))];
    m.crs = c.crs; m.ox = c.x + std::floor(r.u(-3e4, 3e4)); m.oy = c.y + std::floor(r.u(-3e4, 3e4));
    { int q = r.i(0, 3); m.az = q == 0 ? 0.0 : q == 1 ? 330.0 : q == 2 ? 90.0 : std::floor(r.u(0, 360)*10)/10; }
    if (o.count("ox")) { m.ox = atof(get("ox", "0").c_str()); }
    if (o.count("oy")) { m.oy = atof(get("oy", "0").c_str()); }
    if (o.count("az")) { m.az = atof(get("az", "0").c_str()); }
    const int big = geti("big", 0);
    auto genN = [&]() { return big ? r.i(66, 150) : r.i(2, 9); };
    auto niceLen = [&]() { int q = r.i(0, 2); double l = r.u(2e3, 6e4); return q == 0 ? std::floor(l/100)*100 : q == 1 ? std::floor(l) : l; };
    m.dx = niceLen(); m.dy = niceLen();
    if (o.count("dx")) { m.dx = atof(get("dx", "0").c_str()); }
    if (o.count("dy")) { m.dy = atof(get("dy", "0").c_str()); }
    static const std::vector<std::string> names = {"density", "Vp", "Vs", "Qp", "Qs", "fault_block_id", "zone_id"};
    static const std::map<std::string, std::string> un = {{"density", "kg/m**3"}, {"Vp", "m/s"}, {"Vs", "m/s"}, {"Qp", "none"}, {"Qs", "none"}, {"fault_block_id", "none"}, {"zone_id", "none"}};
    int nv = geti("nv", big ? r.i(1, 2) : r.i(1, 4));
    std::vector<std::string> pool = names; 
    for (size_t i = pool.size()-1; i > 0; --i) { std::swap(pool[i], pool[r.next() % (i+1)]); }
    if (o.count("values")) { m.values = split(get("values", ""), ','); nv = m.values.size(); } else { m.values.assign(pool.begin(), pool.begin()+nv); }
    for (auto& v : m.values) { std::string u = "m/s"; for (auto& kv : un) { if (lower(kv.first) == lower(v)) { u = kv.second; } } m.units.push_back(u); }
    if (o.count("shortunits")) { m.numUnits = std::max(1, atoi(get("shortunits", "1").c_str())); }
    if (o.count("unit0")) { m.units[0] = get("unit0", ""); }
    const double pnd = o.count("nodata") ? atof(get("nodata", "0").c_str()) : (r.p(0.5) ? 0.0 : r.u(0.02, 0.3));
    const int nb = geti("nb", big ? r.i(1, 2) : r.p(0.08) ? r.i(4, 7) : r.i(1, 3));
    const int vx = geti("vx", r.p(0.3) ? 1 : 0), vz = geti("vz", r.p(0.3) ? 1 : 0), vs = geti("vs", r.p(0.25) ? 1 : 0);
    const int mono = geti("mono", 0);
    int dt = geti("dtype", r.i(0, 3)); if (geti("dtype", -1) < 0 && r.p(0.1)) { dt = 4; }
    static const std::vector<std::string> bn = {"top", "middle", "bottom", "aa", "zz", "b1", "b0"};
    std::vector<std::string> bpool = bn; for (size_t i = bpool.size()-1; i > 0; --i) { std::swap(bpool[i], bpool[r.next() % (i+1)]); }
    double z = 0.0;
    for (int b = 0; b < nb; ++b) {
        BlockSpec k; k.name = bpool[b]; k.nv = nv; k.dtype = dt;
        int nx = genN(), ny = big ? r.i(40, 90) : genN();
        k.x = genAxis(r, m.dx, nx, vx && r.p(0.7)); k.y = genAxis(r, m.dy, ny, vx && r.p(0.7));
        k.nz = big ? r.i(2, 3) : r.p(0.12) ? r.i(7, 24) : r.i(2, 6);
        double depth = std::floor(r.u(300, 9000)/10)*10; if (r.p(0.3)) { depth = r.u(300, 9000); }
        k.ztop = z; k.dz = depth/(k.nz-1); k.zvar = vz && k.nz > 2 && r.p(0.7);
        if (k.zvar) { Axis a = genAxis(r, depth, k.nz, true); k.zc.resize(k.nz); for (int i = 0; i < k.nz; ++i) { k.zc[i] = z - a.c[i]; } k.zc[0] = z; }
        z = k.zvar ? k.zc[k.nz-1] : k.ztop - k.dz*(k.nz-1);
        m.blocks.push_back(k);
    }
    m.dz = -z;
    const std::string surf = get("surf", std::vector<std::string>{"none", "top", "both", "both", "topo"}[r.i(0, 4)]);
    auto genSurf = [&](SurfSpec& s, double lo, double hi) {
        s.present = true; s.dtype = r.i(0, 3);
        int nx = big ? r.i(130, 180) : r.i(2, 10), ny = big ? r.i(3, 12) : r.i(2, 10);
        s.x = genAxis(r, m.dx, nx, vs && r.p(0.7)); s.y = genAxis(r, m.dy, ny, vs && r.p(0.7));
        s.v.resize(size_t(nx)*ny); for (auto& e : s.v) { e = asStored(std::floor(r.u(lo, hi)*8)/8, s.dtype); }
    };
    const double elev = std::min(2500.0, m.dz*0.4);
    double base = r.p(0.5) ? 0.0 : r.u(0, elev*0.3);
    if (surf == "top" || surf == "both") { genSurf(m.top, base - 0.1*elev, base + (r.p(0.5) ? 0.05 : 0.7)*elev); if (r.p(0.1)) { std::fill(m.top.v.begin(), m.top.v.end(), 0.0); } }
    if (surf == "topo" || surf == "both") { genSurf(m.topo, base - 0.2*elev, base + 0.05*elev); }
    for (size_t b = 0; b < m.blocks.size(); ++b) {
        BlockSpec& k = m.blocks[b];
        k.v.resize(size_t(k.x.n)*k.y.n*k.nz*nv);
        Rng q(hmix(seed, 77 + b)); size_t id = 0;
        for (int i = 0; i < k.x.n; ++i) { for (int j = 0; j < k.y.n; ++j) { double acc = 0; (void)acc; for (int kk = 0; kk < k.nz; ++kk) { for (int v = 0; v < nv; ++v) {
            double val;
            if (mono) { val = 500.0*(v+1) - 4000.0*k.z(kk)/m.dz + 300.0*(k.x.at(i)/m.dx + k.y.at(j)/m.dy); } // linear, so equal on both sides of a block boundary
            else { val = std::floor(q.u(1000.0*(v+1), 1000.0*(v+1)+8000.0)*4)/4; if (q.p(pnd)) { val = ND; } }
            k.v[id++] = asStored(val, k.dtype);
        } } } }
    }
    if (pnd > 0 && dt == 4) { for (auto& k : m.blocks) { k.dtype = 1; } }
    m.vlenStrings = geti("vlen", r.p(0.6) ? 1 : 0);
    m.chunked = geti("chunk", r.p(0.6) ? 1 : 0); m.deflate = m.chunked && geti("deflate", r.p(0.4) ? 1 : 0); m.fletcher = m.chunked && r.p(0.2);
    static const char* attrs[] = {"title", "id", "description", "history", "comment", "creator_name", "creator_email", "creator_institution", "acknowledgement", "repository_name", "repository_url", "repository_doi", "license", "version"};
    for (auto a : attrs) { m.info[a] = std::string(a) + " of " + name + " #" + std::to_string(r.i(0, 999)); }
    for (int i = 0, n = r.i(1, 3); i < n; ++i) { m.keywords.push_back("key" + std::to_string(r.i(0, 99)) + (i ? "" : " word")); }
    for (int i = 0, n = r.i(1, 3); i < n; ++i) { m.authors.push_back("Author, A" + std::to_string(r.i(0, 99))); }
    for (int i = 0, n = r.i(1, 2); i < n; ++i) { m.references.push_back("Ref (20" + std::to_string(r.i(10, 24)) + "), doi:10/" + std::to_string(r.i(0, 999))); }
    if (r.p(0.5)) { m.auxiliary = "{\"k\": " + std::to_string(r.i(0, 99)) + "}"; }
    if (o.count("drop")) { m.drop = split(get("drop", ""), ','); }
    if (o.count("bad")) { m.bads = split(get("bad", ""), ','); }
    m.dropGroup = get("dropgroup", ""); m.badDims = get("baddims", ""); m.badLayout = get("badlayout", ""); m.badRank = get("badrank", ""); m.badCrs = get("badcrs", "");
    m.badLong = geti("badlong", 0);
    if (o.count("zshift") && nb > 1) { m.zshifted = true; }
    if (o.count("zshift")) { double d = atof(get("zshift", "0").c_str()); for (size_t b = 1; b < m.blocks.size() && b < 2; ++b) { m.blocks[b].ztop += d; for (auto& c : m.blocks[b].zc) { c += d; } } } // gap or overlap below the top block
    if (o.count("sliver")) { const double d = atof(get("sliver", "0").c_str()); for (size_t b = 1; b < m.blocks.size(); ++b) { m.blocks[b].ztop -= d; for (auto& c : m.blocks[b].zc) { c -= d; } } if (geti("slivbot", 0)) { m.dz += d*(nb > 1 ? 1.9 : 0.9); } m.sliver = d; }
    if (o.count("sametopo") && m.top.present && m.topo.present) { m.topo.x = m.top.x; m.topo.y = m.top.y; m.topo.v = m.top.v; }
    auto factor = [&](const char* k, Axis& a) { if (o.count(k) && !a.var) { a.res *= atof(get(k, "1").c_str()); } };
    factor("toporx", m.topo.x); factor("topory", m.topo.y); factor("toprx", m.top.x); factor("topry", m.top.y); factor("bresx", m.blocks[nb-1].x); factor("bresy", m.blocks[nb-1].y); // grids that do not match (information application only)
    if (o.count("deeper")) { m.dz *= atof(get("deeper", "1").c_str()); m.zshifted = true; }
    if (o.count("scaledx")) { double f = atof(get("scaledx", "1").c_str()); m.dx *= f; m.dy *= f; m.dz *= f; } // domain differs from grid by round-off in the configuration
    return m;
}

// ------------------------------------------------------------------ HDF5 writer
static std::vector<double> damaged(const std::vector<double>& c, bool longer) { std::vector<double> r(c.begin(), c.end() - (longer ? 0 : 1)); if (longer) { r.insert(r.begin()+1, 0.5*(c[0]+c[1])); } return r; }
static void h5attr(hid_t o, const ModelSpec& m, const std::string& where, const char* name, double v) {
    for (auto& d : m.drop) { if (d == where + ":" + name) { return; } }
    const std::string w = ":" + where + ":" + name;
    if (m.bad("str" + w)) { hid_t t = H5Tcopy(H5T_C_S1); H5Tset_size(t, 8); hid_t s = H5Screate(H5S_SCALAR); hid_t a = H5Acreate2(o, name, t, s, H5P_DEFAULT, H5P_DEFAULT); H5Awrite(a, t, "abcdefgh"); H5Aclose(a); H5Sclose(s); H5Tclose(t); return; }
    if (m.bad("arr" + w)) { std::vector<double> x(100, v); hsize_t n = x.size(); hid_t s = H5Screate_simple(1, &n, nullptr); hid_t a = H5Acreate2(o, name, H5T_IEEE_F64LE, s, H5P_DEFAULT, H5P_DEFAULT); H5Awrite(a, H5T_NATIVE_DOUBLE, x.data()); H5Aclose(a); H5Sclose(s); return; }
    if (m.bad("zero" + w)) { v = 0.0; } if (m.bad("neg" + w)) { v = -v; } if (m.bad("nan" + w)) { v = NAN; }
    hid_t s = H5Screate(H5S_SCALAR); hid_t a = H5Acreate2(o, name, H5T_IEEE_F64LE, s, H5P_DEFAULT, H5P_DEFAULT); H5Awrite(a, H5T_NATIVE_DOUBLE, &v); H5Aclose(a); H5Sclose(s);
}
static void h5attr(hid_t o, const ModelSpec& m, const std::string& where, const char* name, std::vector<double> v) {
    for (auto& d : m.drop) { if (d == where + ":" + name) { return; } }
    const std::string w = ":" + where + ":" + name; if (m.bad("nan" + w)) { v[v.size()/2] = NAN; } if (m.bad("arr" + w)) { v.resize(1); }
    if (m.bad("scal" + w)) { std::vector<std::string> keep; h5attr(o, m, "", name, v[0]); return; }
    hsize_t n = v.size(); hid_t s = H5Screate_simple(1, &n, nullptr); hid_t a = H5Acreate2(o, name, H5T_IEEE_F64LE, s, H5P_DEFAULT, H5P_DEFAULT); H5Awrite(a, H5T_NATIVE_DOUBLE, v.data()); H5Aclose(a); H5Sclose(s);
}
static void h5attr(hid_t o, const ModelSpec& m, const std::string& where, const char* name, std::vector<std::string> v);
static void h5attr(hid_t o, const ModelSpec& m, const std::string& where, const char* name, const std::string& v) {
    for (auto& d : m.drop) { if (d == where + ":" + name) { return; } }
    if (m.bad("num:" + where + ":" + name)) { h5attr(o, m, "", name, 3.0); return; }
    if (m.bad("arr:" + where + ":" + name)) { h5attr(o, m, "", name, std::vector<std::string>{v, "extra", ""}); return; }
    hid_t t = H5Tcopy(H5T_C_S1); H5Tset_size(t, m.vlenStrings ? H5T_VARIABLE : std::max<size_t>(1, v.size())); H5Tset_cset(t, H5T_CSET_UTF8);
    hid_t s = H5Screate(H5S_SCALAR); hid_t a = H5Acreate2(o, name, t, s, H5P_DEFAULT, H5P_DEFAULT);
    const char* p = v.c_str(); if (m.vlenStrings) { H5Awrite(a, t, &p); } else { H5Awrite(a, t, p); }
    H5Aclose(a); H5Sclose(s); H5Tclose(t);
}
static void h5attr(hid_t o, const ModelSpec& m, const std::string& where, const char* name, std::vector<std::string> v) {
    for (auto& d : m.drop) { if (d == where + ":" + name) { return; } }
    if (m.bad("num:" + where + ":" + name)) { h5attr(o, m, "", name, std::vector<double>(v.size(), 3.0)); return; }
    if (m.bad("scal:" + where + ":" + name)) { h5attr(o, m, "", name, v[0]); return; }
    if (m.bad("extra:/:data_values") && (std::string(name) == "data_values" || std::string(name) == "data_units")) { v.push_back("extra"); }
    size_t w = 1; for (auto& s : v) { w = std::max(w, s.size()); }
    hid_t t = H5Tcopy(H5T_C_S1); H5Tset_size(t, m.vlenStrings ? H5T_VARIABLE : w); H5Tset_cset(t, H5T_CSET_UTF8);
    hsize_t n = v.size(); hid_t s = H5Screate_simple(1, &n, nullptr); hid_t a = H5Acreate2(o, name, t, s, H5P_DEFAULT, H5P_DEFAULT);
    if (m.vlenStrings) { std::vector<const char*> p; for (auto& x : v) { p.push_back(x.c_str()); } H5Awrite(a, t, p.data()); }
    else { std::string b(w*n, '\0'); for (size_t i = 0; i < n; ++i) { memcpy(&b[i*w], v[i].data(), v[i].size()); } H5Awrite(a, t, b.data()); }
    H5Aclose(a); H5Sclose(s); H5Tclose(t);
}
static void h5data(hid_t f, const ModelSpec& m, const char* path, std::vector<hsize_t> dims, const std::vector<double>& v, int dtype, uint64_t salt) {
    hid_t types[5] = { H5T_IEEE_F32LE, H5T_IEEE_F64LE, H5T_IEEE_F32BE, H5T_IEEE_F64BE, H5T_STD_I32LE };
    if (m.badRank == path) { dims.push_back(1); }
    bool empty = false; for (int i = 0; i < 3; ++i) { std::string w = std::string(":") + path + ":" + "xyz"[i]; if (m.bad("one" + w)) { dims[i] = 1; } if (m.bad("none" + w)) { dims[i] = 0; empty = true; } }
    hid_t s = H5Screate_simple(dims.size(), dims.data(), nullptr); hid_t pl = H5Pcreate(H5P_DATASET_CREATE);
    if (m.chunked && !empty) {
        Rng r(hmix(m.seed, salt)); std::vector<hsize_t> c; for (auto d : dims) { c.push_back(d > 40 ? r.i(8, (int)d) : r.i(1, (int)d)); }
        hsize_t tot = 1; for (auto x : c) { tot *= x; } hsize_t all = 1; for (auto d : dims) { all *= d; } if (all/tot > 400) { c = dims; }
        H5Pset_chunk(pl, c.size(), c.data()); if (m.deflate) { H5Pset_deflate(pl, 1); } if (m.fletcher) { H5Pset_fletcher32(pl); }
    }
    hid_t d = H5Dcreate2(f, path, types[dtype], s, H5P_DEFAULT, pl, H5P_DEFAULT);
    H5Dwrite(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
    H5Dclose(d); H5Sclose(s); H5Pclose(pl);
}
static void axisAttr(hid_t o, const ModelSpec& m, const std::string& w, const char* ax, const Axis& a) {
    std::string n(ax);
    if (a.var) { h5attr(o, m, w, (n+"_coordinates").c_str(), m.badDims == w + ":" + ax ? damaged(a.c, m.badLong) : a.c); } else { h5attr(o, m, w, (n+"_resolution").c_str(), a.res); }
}
static bool writeModel(const ModelSpec& m, const char* altPath = nullptr) {
    hid_t f = H5Fcreate(altPath ? altPath : m.path().c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); if (f < 0) { return false; }
    hid_t root = H5Gopen2(f, "/", H5P_DEFAULT);
    for (auto& kv : m.info) { h5attr(root, m, "/", kv.first.c_str(), kv.second); }
    h5attr(root, m, "/", "keywords", m.keywords); h5attr(root, m, "/", "authors", m.authors); h5attr(root, m, "/", "references", m.references);
    if (!m.auxiliary.empty()) { h5attr(root, m, "/", "auxiliary", m.auxiliary); }
    h5attr(root, m, "/", "data_values", m.values); h5attr(root, m, "/", "data_units", std::vector<std::string>(m.units.begin(), m.units.begin() + std::min(m.numUnits, m.units.size()))); h5attr(root, m, "/", "data_layout", m.badLayout.empty() ? std::string("vertex") : m.badLayout);
    h5attr(root, m, "/", "crs", m.badCrs.empty() ? m.crs : m.badCrs); h5attr(root, m, "/", "origin_x", m.ox); h5attr(root, m, "/", "origin_y", m.oy); h5attr(root, m, "/", "y_azimuth", m.az);
    h5attr(root, m, "/", "dim_x", m.dx); h5attr(root, m, "/", "dim_y", m.dy); h5attr(root, m, "/", "dim_z", m.dz);
    H5Gclose(root);
    if (m.top.present || m.topo.present) {
        hid_t g = H5Gcreate2(f, "surfaces", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); H5Gclose(g);
        const SurfSpec* ss[2] = { &m.top, &m.topo }; const char* nn[2] = { "surfaces/top_surface", "surfaces/topography_bathymetry" };
        for (int i = 0; i < 2; ++i) { if (ss[i]->present) {
            h5data(f, m, nn[i], {(hsize_t)ss[i]->x.n, (hsize_t)ss[i]->y.n, 1}, ss[i]->v, ss[i]->dtype, 5+i);
            hid_t d = H5Dopen2(f, nn[i], H5P_DEFAULT); axisAttr(d, m, nn[i], "x", ss[i]->x); axisAttr(d, m, nn[i], "y", ss[i]->y); H5Dclose(d);
        } }
    }
    if (m.dropGroup != "blocks") {
        hid_t g = H5Gcreate2(f, "blocks", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); H5Gclose(g);
        std::vector<const BlockSpec*> order; for (auto& b : m.blocks) { order.push_back(&b); }
        std::sort(order.begin(), order.end(), [](const BlockSpec* a, const BlockSpec* b) { return a->name < b->name; });
        int i = 0;
        for (auto b : order) {
            std::string p = "blocks/" + b->name;
            h5data(f, m, p.c_str(), {(hsize_t)b->x.n, (hsize_t)b->y.n, (hsize_t)b->nz, (hsize_t)b->nv}, b->v, b->dtype, 50 + i++);
            hid_t d = H5Dopen2(f, p.c_str(), H5P_DEFAULT); axisAttr(d, m, p, "x", b->x); axisAttr(d, m, p, "y", b->y);
            if (b->zvar) { h5attr(d, m, p, "z_coordinates", m.badDims == p + ":z" ? damaged(b->zc, m.badLong) : b->zc); } else { h5attr(d, m, p, "z_resolution", b->dz); }
            h5attr(d, m, p, "z_top", b->ztop);
            H5Dclose(d);
        }
    }
    return H5Fclose(f) >= 0;
}

// ------------------------------------------------------------------ reference semantics
struct Geo { // input CRS -> model CRS, built independently of the code under test
    static PJ* get(const std::string& src, const std::string& dst) {
        static std::map<std::string, PJ*> cache; std::string k = src + ">" + dst;
        auto it = cache.find(k); if (it != cache.end()) { return it->second; }
        PJ* p = gsim_proj_create_crs_to_crs(PJ_DEFAULT_CTX, src.c_str(), dst.c_str(), nullptr);
        cache[k] = p; return p;
    }
    static void fwd(const std::string& src, const std::string& dst, double& x, double& y, double& z) { PJ_COORD c = proj_trans(get(src, dst), PJ_FWD, proj_coord(x, y, z, HUGE_VAL)); x = c.xyzt.x; y = c.xyzt.y; z = c.xyzt.z; }
    static void inv(const std::string& src, const std::string& dst, double& x, double& y, double& z) { PJ_COORD c = proj_trans(get(src, dst), PJ_INV, proj_coord(x, y, z, HUGE_VAL)); x = c.xyzt.x; y = c.xyzt.y; z = c.xyzt.z; }
};
static const std::map<std::string, std::string> NAMED_CRSS = { {"geo", "EPSG:4326"}, {"geo3", "EPSG:4979"}, {"nad", "EPSG:4269"}, {"xy", "OGC:CRS84"}, {"pj", "+proj=longlat +datum=WGS84 +no_defs +type=crs"}, {"utm", "EPSG:32611"}, {"ft", "EPSG:2227"}, {"vft", "+proj=utm +zone=10 +datum=NAD83 +units=us-ft +vunits=us-ft +type=crs"}, {"bad", "no such crs"} };
// names of coordinate systems in scenarios; "model": that of the first model
static std::string crsString(const std::string& k, const std::string& model) {
    if (k == "wkt") { static std::string w; if (w.empty()) { PJ* p = gsim_proj_create(PJ_DEFAULT_CTX, "EPSG:26910"); w = proj_as_wkt(PJ_DEFAULT_CTX, p, PJ_WKT2_2019, nullptr); proj_destroy(p); } return w; }
    auto it = NAMED_CRSS.find(k); return it != NAMED_CRSS.end() ? it->second : model.empty() ? "EPSG:4326" : model;
}
static bool crsDegrees(const std::string& k) { return k == "geo" || k == "geo3" || k == "nad" || k == "xy" || k == "pj"; }
static bool crsLatFirst(const std::string& k) { return k == "geo" || k == "geo3" || k == "nad"; }
// cell and weight along an axis; pos clamped into the axis
static void locate(const Axis& a, double x, int& i, double& w) {
    if (!a.var) { double f = x/a.res; i = (int)std::floor(f); if (i < 0) { i = 0; } if (i > a.n-2) { i = a.n-2; } w = f - i; }
    else { i = 0; while (i < a.n-2 && x >= a.c[i+1]) { ++i; } w = (x - a.c[i])/(a.c[i+1]-a.c[i]); }
    w = std::min(1.0, std::max(0.0, w));
}
static void locateZ(const BlockSpec& b, double z, int& k, double& w) {
    if (!b.zvar) { double f = (b.ztop - z)/b.dz; k = (int)std::floor(f); if (k < 0) { k = 0; } if (k > b.nz-2) { k = b.nz-2; } w = f - k; }
    else { k = 0; while (k < b.nz-2 && z <= b.zc[k+1]) { ++k; } w = (b.zc[k] - z)/(b.zc[k]-b.zc[k+1]); }
    w = std::min(1.0, std::max(0.0, w));
}
static double refSurf(const SurfSpec& s, double x, double y) {
    int i, j; double u, v; locate(s.x, x, i, u); locate(s.y, y, j, v);
    return (1-u)*(1-v)*s.node(i, j) + (1-u)*v*s.node(i, j+1) + u*(1-v)*s.node(i+1, j) + u*v*s.node(i+1, j+1);
}
static void toModelXY(const ModelSpec& m, double X, double Y, double& x, double& y) { double a = m.az*M_PI/180, xr = X-m.ox, yr = Y-m.oy; x = xr*cos(a)-yr*sin(a); y = xr*sin(a)+yr*cos(a); }
static void fromModelXY(const ModelSpec& m, double x, double y, double& X, double& Y) { double a = m.az*M_PI/180; X = x*cos(a)+y*sin(a)+m.ox; Y = -x*sin(a)+y*cos(a)+m.oy; }
struct Pert { double x, y, z; };
static bool inXY(const ModelSpec& m, double x, double y) { return x >= 0 && x <= m.dx && y >= 0 && y <= m.dy; }
// point in input CRS -> model coordinates (x,y) and elevation in model CRS
static void refToModel(const ModelSpec& m, const std::string& crs, double X, double Y, double Z, const Pert& p, double& x, double& y, double& zc) {
    double a = X, b = Y, c = Z; Geo::fwd(crs, m.crs, a, b, c); toModelXY(m, a, b, x, y); x += p.x; y += p.y; zc = c;
}
static double refLogicalZ(const ModelSpec& m, double x, double y, double zc) {
    double g = m.top.present ? refSurf(m.top, x, y) : 0.0; double zb = -m.dz;
    return zb*(g - zc)/(g - zb);
}
static bool refContains(const ModelSpec& m, const std::string& crs, double X, double Y, double Z, const Pert& p, double& x, double& y, double& z) {
    double zc; refToModel(m, crs, X, Y, Z, p, x, y, zc);
    if (!std::isfinite(x) || !std::isfinite(y) || !std::isfinite(zc)) { return false; }
    if (!inXY(m, x, y)) { return false; }
    z = refLogicalZ(m, x - p.x, y - p.y, zc) + p.z;
    if (z > 0 && z < 1e-4) { z = 0; }
    return z <= 0 && z >= -m.dz;
}
static void refValues(const ModelSpec& m, double x, double y, double z, std::vector<double>& out) {
    const BlockSpec* b = &m.blocks.back(); double best = 1e300; // the block with the point, else the closest one
    for (auto& k : m.blocks) { const double d = std::max(0.0, std::max(z - k.ztop, k.z(k.nz-1) - z)); if (d < best) { b = &k; best = d; } }
    int i, j, k; double u, v, w; locate(b->x, x, i, u); locate(b->y, y, j, v); locateZ(*b, z, k, w);
    out.assign(b->nv, 0.0);
    for (int q = 0; q < b->nv; ++q) {
        double s = 0; bool nd = false;
        for (int a = 0; a < 2; ++a) { for (int c = 0; c < 2; ++c) { for (int d = 0; d < 2; ++d) {
            double val = b->node(i+a, j+c, k+d, q); if (fabs(1.0 - val/ND) < 1e-3) { nd = true; }
            s += (a ? u : 1-u)*(c ? v : 1-v)*(d ? w : 1-w)*val;
        } } }
        out[q] = nd ? ND : s;
    }
}
// elevation of a surface in the input CRS; outside the domain -> ND
static double refModelElev(const ModelSpec& m, const std::string& crs, double X, double Y, bool topo, const Pert& p, bool& inside) {
    double x, y, zc; refToModel(m, crs, X, Y, 0.0, p, x, y, zc);
    // some horizontal datum shifts depend on elevation (EPSG:3311: ~6 mm over 20 km), so membership at z=0 is ambiguous by more than roundoff
    inside = std::isfinite(x) && std::isfinite(y) && inXY(m, x + 999*p.x, y + 999*p.y);
    const SurfSpec* s = topo ? (m.topo.present ? &m.topo : m.top.present ? &m.top : nullptr) : (m.top.present ? &m.top : nullptr);
    if (!s) { return 0.0; }
    if (!inside) { return ND; }
    x -= p.x; y -= p.y; // the perturbation only decides membership; refSurf clamps to the surface
    double e = refSurf(*s, x, y); double a, b; fromModelXY(m, x, y, a, b); Geo::inv(crs, m.crs, a, b, e); return e;
}
typedef std::vector<const ModelSpec*> Models;
static double refElev(const Models& ms, const std::string& crs, double X, double Y, bool topo, const Pert& p) {
    for (auto m : ms) { bool in; double e = refModelElev(*m, crs, X, Y, topo, p, in); double x, y, z; if (in && refContains(*m, crs, X, Y, e - 1e-3, p, x, y, z)) { return e; } }
    return ND;
}
// distance of a point in the domain from the closest block (0 inside a block); overlap: in more than one block, away from a common boundary
static double refGap(const ModelSpec& m, double z, bool& overlap) {
    double g = 1e300; int n = 0; for (auto& b : m.blocks) { double t = b.ztop, q = b.z(b.nz-1); g = std::min(g, std::max(0.0, std::max(z - t, q - z))); if (z < t + 1e-3 && z > q - 1e-3) { ++n; } }
    overlap = n > 1; return g;
}
struct RefAns { bool found = false; double gap = 0; bool overlap = false; int model = -1; std::vector<double> v; };
static RefAns refQuery(const Models& ms, const std::string& crs, const std::vector<std::string>& names, double X, double Y, double Z, int squash, double floorZ, const Pert& p) {
    RefAns a; a.v.assign(names.size(), ND);
    for (size_t im = 0; im < ms.size(); ++im) {
        const ModelSpec& m = *ms[im]; double z = Z; bool in = true;
        if (squash && Z > floorZ) { double e = refModelElev(m, crs, X, Y, squash == 2, p, in); if (e != ND) { z = e + Z*(floorZ - e)/floorZ; } else { continue; } }
        double x, y, zm; if (!refContains(m, crs, X, Y, z, p, x, y, zm)) { continue; }
        a.gap = refGap(m, zm, a.overlap);
        std::vector<double> all; refValues(m, x, y, zm, all);
        for (size_t i = 0; i < names.size(); ++i) { for (size_t j = 0; j < m.values.size(); ++j) { if (lower(m.values[j]) == lower(names[i])) { a.v[i] = all[j]; break; } } }
        a.found = true; a.model = im; return a;
    }
    return a;
}
static bool closeTo(double a, double b, double rel = 1e-6, double abs = 1e-6) {
    if (a == b) { return true; }
    if (!std::isfinite(a) || !std::isfinite(b)) { return false; }
    return fabs(a-b) <= abs + rel*std::max(fabs(a), fabs(b));
}
// perturbations of several sizes: small ones keep the value (steep cells) while choosing another cell, the largest covers datum-shift roundoff
static const double PERTS[3] = { 1e-8, 5e-7, 2e-5 };
static double g_zslack = 0; // models with slivers between blocks: either neighbour is right
template<typename F> static bool anyPert(F f) {
    if (f(Pert{0, 0, 0})) { return true; }
    if (g_zslack > 0) { for (double z : { g_zslack, -g_zslack }) { for (double e : { 0.0, 1e-8, 5e-7, 2e-5 }) { for (int i = -1; i <= 1; ++i) { for (int j = -1; j <= 1; ++j) { if (f(Pert{i*e, j*e, z})) { return true; } } } } } }
    for (double e : PERTS) { for (int i = -1; i <= 1; ++i) { for (int j = -1; j <= 1; ++j) { for (int k = -1; k <= 1; ++k) { if (f(Pert{i*e, j*e, k*e})) { return true; } } } } }
    return false;
}
