// Deterministic simulator for the C++ side (library, C API, applications).
// A scenario is a text file; its execution is a pure function of that text and the code under test.
//   gsim gen  <PROP> <mode> <seed>              print scenario
//   gsim run  <file>                            execute one scenario, print the report
//   gsim batch <PROP> <mode> <seed0> <count> <seconds>   generate+execute, one report line each
#include "simio.h"
#include "geomemo.hh"
#include "gmodel.hh"
#include "geomodelgrids/serial/Query.hh"
#include "geomodelgrids/serial/Model.hh"
#include "geomodelgrids/serial/ModelInfo.hh"
#include "geomodelgrids/serial/Block.hh"
#include "geomodelgrids/serial/Surface.hh"
#include "geomodelgrids/utils/ErrorHandler.hh"
extern "C" {
#include "geomodelgrids/serial/cquery.h"
#include "geomodelgrids/utils/cerrorhandler.h"
}
#include <gdal.h>
#include <cpl_error.h>
#include <getopt.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <set>

int query_main(int, char**);
int queryelev_main(int, char**);
int borehole_main(int, char**);
int isosurface_main(int, char**);
int info_main(int, char**);

// ------------------------------------------------------------------ reporting
struct Shared { int opIndex; char op[512]; char why[1024]; long counts[64]; };
static Shared* g_sh = nullptr;
static int g_out = 1;
static long g_nq = 0, g_nwarn = 0, g_nfaulted = 0, g_checked = 0;
static std::set<std::string> g_probes;
static void probe(const std::string& p) { g_probes.insert(p); }
// behaviour recorded as a known finding: reported, decided by the driver against the known-findings file
static std::set<std::string> g_findings;
static void finding(const std::string& key) { g_findings.insert(key); }
static std::string oneline(std::string s) { for (auto& c : s) { if (c == '\n' || c == '\r') { c = ' '; } } if (s.size() > 400) { s.resize(400); } return s; }
static void emit(const std::string& status, const std::string& cls, const std::string& msg) {
    char fc[4096]; simio_fault_counts(fc, sizeof(fc));
    std::string pr; for (auto& p : g_probes) { pr += p + ","; }
    char head[2048];
    snprintf(head, sizeof(head), "%s|%016llx|ops=%ld|hard=%ld|benign=%ld|vtime=%.6f|q=%ld|warn=%ld|faulted=%ld|checks=%ld|", status.c_str(), (unsigned long long)simio_hash(), simio_ops(), simio_fired_total(), simio_benign_total(), simio_vtime(), g_nq, g_nwarn, g_nfaulted, g_checked);
    std::string fi; for (auto& k : g_findings) { fi += k + ","; }
    std::string line = std::string(head) + "faults=" + fc + "|probes=" + pr + "|findings=" + fi + "|class=" + cls + "|msg=" + oneline(msg) + "\n";
    syscall(SYS_write, g_out, line.data(), line.size());
}
[[noreturn]] static void violation(const std::string& cls, const std::string& msg) {
    simio_arm(0);
    emit("VIOLATION", cls, std::string("op ") + std::to_string(g_sh->opIndex) + " [" + g_sh->op + "]: " + msg);
    _exit(3);
}
extern "C" void __assert_fail(const char* expr, const char* file, unsigned line, const char* fn) {
    std::string f(file); size_t s = f.rfind('/'); if (s != std::string::npos) { f = f.substr(s+1); }
    (void)line; (void)fn;
    violation("abort", std::string("process aborts: assertion ") + expr + " in " + f);
}
static void onSignal(int sig) {
    const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGALRM ? "hang" : sig == SIGFPE ? "SIGFPE" : "signal";
    simio_arm(0);
    emit("VIOLATION", sig == SIGALRM ? "hang" : "abort", std::string("op ") + std::to_string(g_sh->opIndex) + " [" + g_sh->op + "]: process dies: " + n);
    _exit(3);
}

// ------------------------------------------------------------------ world
struct Ev { std::string kind; std::string coord; };
struct Hd {
    std::string api; geomodelgrids::serial::Query* q = nullptr; void* c = nullptr; geomodelgrids::serial::Model* m = nullptr;
    bool inited = false, failed = false, finalized = false; Models models; std::vector<std::string> names; bool named = true; std::string crs;
    int squash = 0; double floorZ = 0.0;
    std::string lastKind = "ok", maxKind = "ok"; std::string lastCoord; // status model
    bool logging = false; std::string logFile; std::vector<Ev> logged; bool logFaulty = false;
    std::vector<size_t> window;
};
struct World {
    std::map<std::string, std::unique_ptr<ModelSpec> > models;
    std::map<std::string, bool> openable; // file intact on disk
    std::map<std::string, Hd> h;
    std::map<std::string, std::vector<Ev> > logs; // expected content per log file (since truncation)
};
static World W;

static double num(const std::string& s) { return strtod(s.c_str(), nullptr); }
static std::string fmt(double v) { char b[64]; snprintf(b, sizeof(b), "%.17g", v); return b; }
static std::string sci(double v) { char b[64]; snprintf(b, sizeof(b), "%.6e", v); return b; }
static std::string readFile(const std::string& p) { long n = simio_size(p.c_str()); if (n < 0) { return ""; } std::string s(n, 0); if (n) { simio_get(p.c_str(), &s[0], n); } return s; }

struct Arm { Arm() { simio_arm(1); } ~Arm() { simio_arm(0); } };
struct Outcome { bool threw = false; std::string what; int ret = 0; double d = 0; bool faulted = false; };
template<typename F> static Outcome call(F f) {
    Outcome o; long h0 = simio_fired_file(".h5") + simio_fired_file("heap");
    alarm(20);
    try { Arm a; f(o); }
    catch (const std::exception& e) { simio_arm(0); o.threw = true; o.what = e.what(); }
    catch (...) { simio_arm(0); violation("foreign-exception", "call raised something that is not a std::exception"); }
    alarm(0);
    o.faulted = simio_fired_file(".h5") + simio_fired_file("heap") > h0;
    if (o.faulted) { ++g_nfaulted; }
    if (simio_fired_file(".log") > 0) { for (auto& kv : W.h) { kv.second.logFaulty = true; } }
    char b[256]; snprintf(b, sizeof(b), "ret %d %d %.17g", o.threw, o.ret, o.d); simio_note(b);
    return o;
}
// "model": coordinate system of the first model; "@a": that of model a
static std::string crsOf(const std::string& k, const Models& ms) {
    if (!k.empty() && k[0] == '@') { auto it = W.models.find(k.substr(1)); return it == W.models.end() ? "EPSG:4326" : it->second->crs; }
    return crsString(k, ms.empty() ? "" : ms[0]->crs);
}

// point: <model> <xm> <ym> L <logical z> | E <elevation>
struct Pt { double x, y, z; };
static Pt point(const Hd& h, const std::string& mn, double xm, double ym, const std::string& kind, double zv) {
    auto it = W.models.find(mn); if (it == W.models.end()) { return Pt{0, 0, 0}; }
    const ModelSpec& m = *it->second; double X, Y, z = zv;
    if (kind == "L") { double cx = std::min(m.dx, std::max(0.0, xm)), cy = std::min(m.dy, std::max(0.0, ym)); double g = m.top.present ? refSurf(m.top, cx, cy) : 0.0; z = g - zv*(g + m.dz)/(-m.dz); }
    fromModelXY(m, xm, ym, X, Y); double zz = z;
    if (!h.crs.empty()) { Geo::inv(h.crs, m.crs, X, Y, zz); }
    return Pt{X, Y, kind == "L" ? zz : z};
}
static std::string vstr(const std::vector<double>& v) { std::string s; for (auto d : v) { s += fmt(d) + " "; } return s; }
static int rank(const std::string& k) { return k == "ok" ? 0 : k == "warning" ? 1 : 2; }

static void cEvent(Hd& h, const char* kind, const std::string& coord, bool log = true) {
    h.lastKind = kind; if (rank(kind) > rank(h.maxKind)) { h.maxKind = kind; } h.lastCoord = coord;
    if (log && h.logging && !h.logFile.empty()) { W.logs[h.logFile].push_back(Ev{kind, coord}); }
}
static void checkStatus(Hd& h, const std::string& what, int ret, bool haveRet) {
    if (h.api != "c") { return; }
    void* e = geomodelgrids_squery_getErrorHandler(h.c);
    int st = geomodelgrids_cerrorhandler_getStatus(e); std::string msg = geomodelgrids_cerrorhandler_getMessage(e);
    int a = rank(h.lastKind), b = rank(h.maxKind); ++g_checked;
    if (haveRet && ret != st) { violation("c-status", what + ": returned " + std::to_string(ret) + " but status is " + std::to_string(st)); }
    if (st != a && st != b) { violation("c-status", what + ": status " + std::to_string(st) + ", expected " + h.lastKind); }
    if (h.maxKind == "ok" && !msg.empty()) { violation("c-message", what + ": status OK but message '" + msg + "'"); }
    if (h.lastKind != "ok" && !h.lastCoord.empty() && msg.find(h.lastCoord) == std::string::npos) { violation("c-message", what + ": message does not name the point (" + h.lastCoord + "): '" + msg + "'"); }
    if (h.lastKind != "ok" && msg.empty()) { violation("c-message", what + ": " + h.lastKind + " with an empty message"); }
}
static void checkLog(const std::string& file, const std::string& when) {
    std::string s = readFile(file); const std::vector<Ev>& ev = W.logs[file]; ++g_checked;
    size_t pos = 0, n = 0;
    while (true) {
        size_t w = s.find("WARNING", pos), e = s.find("ERROR", pos), p = std::min(w, e);
        if (p == std::string::npos) { break; }
        const char* kind = p == w ? "warning" : "error";
        if (n >= ev.size()) { violation("c-log", when + ": log " + file + " has more events than occurred (" + std::to_string(ev.size()) + ")"); }
        size_t nw = s.find("WARNING", p+5), ne = s.find("ERROR", p+5), q = std::min(nw, ne); std::string body = s.substr(p, q == std::string::npos ? q : q-p);
        if (ev[n].kind != kind || body.find(ev[n].coord) == std::string::npos) { violation("c-log", when + ": log event " + std::to_string(n) + " is '" + body + "', expected " + ev[n].kind + " at (" + ev[n].coord + ")"); }
        ++n; pos = p + 5;
    }
    if (n != ev.size()) { violation("c-log", when + ": log " + file + " has " + std::to_string(n) + " events, " + std::to_string(ev.size()) + " occurred"); }
}
static bool usable(const Hd& h) { return h.inited && !h.finalized; }

// ---- queries
static void doQuery(const std::string& hn, Hd& h, const Pt& p) {
    if (!usable(h) && h.api == "m") { return; }
    if (usable(h) && h.names.empty() && h.api != "m") { return; } // opened for elevations only
    ++g_nq;
    const size_t n = h.api == "m" ? h.names.size() : h.names.size();
    std::vector<double> v(n + 2, 12345.678); // guard cells
    Outcome o;
    const std::string coord = sci(p.x) + ", " + sci(p.y) + ", " + sci(p.z);
    if (h.api == "m") {
        if (!usable(h)) { return; }
        o = call([&](Outcome& r) { bool in = h.m->contains(p.x, p.y, p.z); r.ret = in ? 0 : 1; if (in) { const double* x = h.m->query(p.x, p.y, p.z); for (size_t i = 0; i < n; ++i) { v[i] = x[i]; } } else { for (size_t i = 0; i < n; ++i) { v[i] = ND; } } });
        // model level: every value in file order
    } else if (h.api == "cpp") { o = call([&](Outcome& r) { r.ret = h.q->query(v.data(), p.x, p.y, p.z); }); }
    else { o = call([&](Outcome& r) { r.ret = geomodelgrids_squery_query(h.c, v.data(), p.x, p.y, p.z); }); }
    for (size_t i = 0; i < n && i < 8; ++i) { simio_note(fmt(v[i]).c_str()); }
    const std::string what = hn + " query (" + fmt(p.x) + ", " + fmt(p.y) + ", " + fmt(p.z) + ")";
    if (v[n] != 12345.678 || v[n+1] != 12345.678) { violation("overrun", what + ": wrote past the requested values"); }
    ++g_checked;
    if (!usable(h)) { // never initialized, failed initialization or finalized: must report an error
        probe(h.finalized ? "query-after-finalize" : h.failed ? "query-after-failed-init" : "query-before-init");
        if (h.api == "c") { if (o.threw || o.ret != 2) { violation("uninit-query", what + ": query on a handle that is not initialized returned " + std::to_string(o.ret)); } h.lastKind = "error"; h.maxKind = "error"; h.lastCoord = ""; h.logFaulty = true; void* e = geomodelgrids_squery_getErrorHandler(h.c); if (geomodelgrids_cerrorhandler_getStatus(e) != 2) { violation("uninit-query", what + ": status not ERROR"); } }
        else if (!o.threw && o.ret != 2) { violation("uninit-query", what + ": query on a handle that is not initialized returned " + std::to_string(o.ret)); }
        return;
    }
    if (n == 0) { return; }
    struct Slack { ~Slack() { g_zslack = 0; } } slack; for (auto m : h.models) { g_zslack = std::max(g_zslack, m->sliver); }
    bool uncovered = false; for (auto m : h.models) { if (m->zshifted) { uncovered = true; } }
    if (uncovered) { // domain not covered by blocks: outside the blocks only an error or no data are acceptable
        RefAns a = refQuery(h.models, h.crs, h.names, p.x, p.y, p.z, h.squash, h.floorZ, Pert{0,0,0});
        if (a.found && (a.gap > 0 || a.overlap)) {
            const bool sure = a.gap > 1e-3; probe(sure ? "query-in-gap" : "query-at-overlap");
            bool nd = true; for (size_t i = 0; i < n; ++i) { if (v[i] != ND) { nd = false; } }
            if (h.api == "c") { if (o.threw) { violation("c-exception", what + ": exception crossed the C API: " + o.what); } geomodelgrids_cerrorhandler_resetStatus(geomodelgrids_squery_getErrorHandler(h.c)); h.lastKind = h.maxKind = "ok"; h.lastCoord = ""; h.logFaulty = true; }
            if (sure && !o.threw && !nd) { violation("wrong-value", what + ": values " + vstr(std::vector<double>(v.begin(), v.begin()+n)) + " at a point that is in no block"); }
            return;
        }
    }
    if (g_zslack > 0) { RefAns a = refQuery(h.models, h.crs, h.names, p.x, p.y, p.z, h.squash, h.floorZ, Pert{0,0,0}); if (a.found && a.gap > 0) { probe("query-in-sliver"); } }
    auto matches = [&](const Pert& pt, bool& found) {
        RefAns a = refQuery(h.models, h.crs, h.names, p.x, p.y, p.z, h.squash, h.floorZ, pt); found = a.found;
        for (size_t i = 0; i < n; ++i) { if (!closeTo(v[i], a.v[i])) { return false; } }
        return true;
    };
    bool rawFail = o.threw || (h.api == "c" && o.faulted && o.ret == 2);
    if (o.threw && h.api == "c") { violation("c-exception", what + ": exception crossed the C API: " + o.what); }
    if (rawFail && !o.faulted) { violation("spurious-failure", what + ": failed without any fault: " + o.what); }
    if (h.api == "c") {
        void* e = geomodelgrids_squery_getErrorHandler(h.c); std::string msg = geomodelgrids_cerrorhandler_getMessage(e); int st = geomodelgrids_cerrorhandler_getStatus(e);
        bool allND = true; for (size_t i = 0; i < n; ++i) { if (v[i] != ND) { allND = false; } }
        if (o.faulted && st == 2 && msg.find("ERROR") != std::string::npos && msg.find(coord) != std::string::npos && allND) { cEvent(h, "error", coord); checkStatus(h, what, o.ret, true); probe("c-error-reported"); return; }
        if (!o.faulted && st == 2 && h.lastKind != "error" && h.maxKind != "error") { violation("spurious-failure", what + ": ERROR without a fault: " + msg); }
        // (a) success/warning path
        bool ok = false, found = false;
        ok = anyPert([&](const Pert& pt) { bool f; if (!matches(pt, f)) { return false; } found = f; return true; });
        if (!ok) { RefAns a = refQuery(h.models, h.crs, h.names, p.x, p.y, p.z, h.squash, h.floorZ, Pert{0,0,0}); violation("wrong-value", what + ": got " + vstr(std::vector<double>(v.begin(), v.begin()+n)) + " expected " + vstr(a.v) + (o.faulted ? " (read fault during call, failure not reported)" : "")); }
        // NODATA values of a containing model look like "not found": use the status to disambiguate only when both readings are possible
        bool couldF = false, couldN = false; anyPert([&](const Pert& pt) { bool f; if (matches(pt, f)) { (f ? couldF : couldN) = true; } return couldF && couldN; });
        bool isWarn = couldN && !couldF ? true : couldF && !couldN ? false : (msg.find("WARNING") != std::string::npos && msg.find(coord) != std::string::npos);
        if (isWarn) { ++g_nwarn; cEvent(h, "warning", coord); }
        checkStatus(h, what, o.ret, true);
        return;
    }
    if (o.threw) { probe("exception-reported"); return; }
    bool found = false, statusOk = false;
    bool ok = anyPert([&](const Pert& pt) { bool f; if (!matches(pt, f)) { return false; } found = f; if (o.ret == (f ? 0 : 1)) { statusOk = true; return true; } return false; });
    if ((!ok || !statusOk) && getenv("GSIM_DEBUG")) { double x, y, z; const ModelSpec& mm = *h.models[0]; if (refContains(mm, h.crs, p.x, p.y, p.z, Pert{0,0,0}, x, y, z)) { for (auto& b : mm.blocks) { int i, j, k; double u, v2, w; locate(b.x, x, i, u); locate(b.y, y, j, v2); locateZ(b, z, k, w); fprintf(stderr, " block ztop %.9f zbot %.9f n %d %d %d cell %d %d %d w %.12g %.12g %.12g zvar %d\n", b.ztop, b.z(b.nz-1), b.x.n, b.y.n, b.nz, i, j, k, u, v2, w, b.zvar); for (int a=-1;a<=2;++a) for (int c=-1;c<=2;++c) for (int d=-1;d<=2;++d) if (i+a>=0&&j+c>=0&&k+d>=0&&i+a<b.x.n&&j+c<b.y.n&&k+d<b.nz) fprintf(stderr, "    %d %d %d: %g\n", a, c, d, b.node(i+a,j+c,k+d,0)); } }
    anyPert([&](const Pert& pt) { RefAns a = refQuery(h.models, h.crs, h.names, p.x, p.y, p.z, h.squash, h.floorZ, pt); fprintf(stderr, " pert %g %g %g found %d %s\n", pt.x, pt.y, pt.z, a.found, vstr(a.v).c_str()); return false; }); for (auto mm : h.models) { double x, y, z; bool in = refContains(*mm, h.crs, p.x, p.y, p.z, Pert{0,0,0}, x, y, z); fprintf(stderr, "  %s: in %d model %.9f %.9f %.9f dims %.9f %.9f %.9f squash %d floor %g\n", mm->name.c_str(), in, x, y, z, mm->dx, mm->dy, mm->dz, h.squash, h.floorZ); } }
    if (!ok || !statusOk) {
        RefAns a = refQuery(h.models, h.crs, h.names, p.x, p.y, p.z, h.squash, h.floorZ, Pert{0,0,0});
        violation("wrong-value", what + ": got status " + std::to_string(o.ret) + " values " + vstr(std::vector<double>(v.begin(), v.begin()+n)) + " expected " + (a.found ? "OK " : "WARNING ") + vstr(a.v) + (o.faulted ? " (read fault during call, failure not reported)" : ""));
    }
    if (!found) { ++g_nwarn; }
}
static void doElev(const std::string& hn, Hd& h, const Pt& p, bool topo) {
    if (!usable(h) && h.api == "m") { return; }
    ++g_nq;
    Outcome o;
    const std::string coord = sci(p.x) + ", " + sci(p.y);
    if (h.api == "m") { if (!usable(h)) { return; } o = call([&](Outcome& r) { r.d = topo ? h.m->queryTopoBathyElevation(p.x, p.y) : h.m->queryTopElevation(p.x, p.y); }); }
    else if (h.api == "cpp") { o = call([&](Outcome& r) { r.d = topo ? h.q->queryTopoBathyElevation(p.x, p.y) : h.q->queryTopElevation(p.x, p.y); }); }
    else { o = call([&](Outcome& r) { r.d = topo ? geomodelgrids_squery_queryTopoBathyElevation(h.c, p.x, p.y) : geomodelgrids_squery_queryTopElevation(h.c, p.x, p.y); }); }
    const std::string what = hn + (topo ? " topo" : " top") + " elevation (" + fmt(p.x) + ", " + fmt(p.y) + ")";
    ++g_checked;
    if (!usable(h)) {
        if (!o.threw && o.d != ND) { violation("uninit-query", what + ": elevation " + fmt(o.d) + " from a handle that is not initialized"); }
        if (h.api == "c") { void* e = geomodelgrids_squery_getErrorHandler(h.c); int st = geomodelgrids_cerrorhandler_getStatus(e); if (st == 0) { violation("uninit-query", what + ": status OK on a handle that is not initialized"); } h.lastKind = st == 2 ? "error" : "warning"; if (rank(h.maxKind) < st) { h.maxKind = h.lastKind; } h.lastCoord = ""; h.logFaulty = true; }
        return;
    }
    auto refE = [&](const Pert& pt) {
        if (h.api == "m") { bool in; double e = refModelElev(*h.models[0], h.crs, p.x, p.y, topo, pt, in); return e; }
        return refElev(h.models, h.crs, p.x, p.y, topo, pt);
    };
    if (o.threw) { if (h.api == "c") { violation("c-exception", what + ": exception crossed the C API"); } if (!o.faulted) { violation("spurious-failure", what + ": failed without any fault: " + o.what); } return; }
    if (h.api == "c") {
        void* e = geomodelgrids_squery_getErrorHandler(h.c); std::string msg = geomodelgrids_cerrorhandler_getMessage(e); int st = geomodelgrids_cerrorhandler_getStatus(e);
        if (o.faulted && st == 2 && msg.find("ERROR") != std::string::npos && msg.find(coord) != std::string::npos && o.d == ND) { cEvent(h, "error", coord); checkStatus(h, what, 0, false); probe("c-error-reported"); return; }
    }
    bool ok = anyPert([&](const Pert& pt) { return closeTo(o.d, refE(pt), 1e-7, 1e-5); });
    if (!ok && getenv("GSIM_DEBUG")) { anyPert([&](const Pert& pt) { fprintf(stderr, "  pert %g %g %g -> %.10f\n", pt.x, pt.y, pt.z, refE(pt)); return false; }); double x, y, z; refToModel(*h.models[0], h.crs, p.x, p.y, 0, Pert{0,0,0}, x, y, z); fprintf(stderr, "  model x %.9f y %.9f dx %.9f dy %.9f\n", x, y, h.models[0]->dx, h.models[0]->dy); }
    if (!ok) { violation("wrong-elevation", what + ": got " + fmt(o.d) + " expected " + fmt(refE(Pert{0,0,0})) + (o.faulted ? " (read fault during call, failure not reported)" : "")); }
    if (h.api == "c") { if (o.d == ND) { ++g_nwarn; cEvent(h, "warning", coord); } checkStatus(h, what, 0, false); }
}
// ---- initialization
static std::string g_initWhat;
static void doInit(const std::string& hn, Hd& h, const std::vector<std::string>& t) {
    KV kv = parseKV(t, 2);
    std::vector<std::string> mn = split(kv["models"], ','), vals = kv["values"] == "-" ? std::vector<std::string>() : split(kv["values"], ',');
    std::string geo = kv["crs"];
    Models ms; bool valid = true; std::string why; std::vector<std::string> files;
    for (auto& n : mn) {
        auto it = W.models.find(n);
        files.push_back(it == W.models.end() ? "/simfs/" + n + ".h5" : it->second->path());
        if (it == W.models.end() || !W.openable[n]) { valid = false; why = "no such file " + n; continue; }
        if (!it->second->valid()) { valid = false; why = "bad metadata in " + n; }
        ms.push_back(it->second.get());
    }
    std::map<std::string, std::string> un;
    for (auto m : ms) { for (auto& v : vals) {
        bool f = false; for (size_t j = 0; j < m->values.size(); ++j) { if (lower(m->values[j]) == lower(v)) { f = true; if (j >= m->numUnits) { valid = false; why = "units missing"; } if (un.count(lower(v)) && un[lower(v)] != lower(m->units[j])) { valid = false; why = "inconsistent units"; } un[lower(v)] = lower(m->units[j]); break; } }
        if (!f) { valid = false; why = "value " + v + " not in model"; }
    } }
    std::string crs = crsOf(geo, ms);
    if (geo == "bad") { valid = false; why = "bad CRS"; }
    if (h.api == "m" && ms.size() != 1) { return; }
    h.inited = h.failed = false;
    Outcome o;
    if (h.api == "cpp") { o = call([&](Outcome&) { h.q->initialize(files, vals, crs); }); }
    else if (h.api == "m") {
        std::vector<std::string> w = kv.count("window") ? split(kv["window"], 'x') : std::vector<std::string>();
        delete h.m; h.m = new geomodelgrids::serial::Model();
        o = call([&](Outcome&) {
            h.m->setInputCRS(crs); h.m->open(files[0].c_str(), geomodelgrids::serial::Model::READ); h.m->loadMetadata();
            if (w.size() == 3) { size_t d[3] = { (size_t)atoi(w[0].c_str()), (size_t)atoi(w[1].c_str()), (size_t)atoi(w[2].c_str()) }; for (auto& b : h.m->getBlocks()) { b->setHyperslabDims(d, 3); } size_t d2[2] = { d[0], d[1] }; if (h.m->getTopSurface()) { h.m->getTopSurface()->setHyperslabDims(d2, 2); } if (h.m->getTopoBathy()) { h.m->getTopoBathy()->setHyperslabDims(d2, 2); } }
            h.m->initialize();
        });
        vals = ms[0]->values;
    } else {
        std::vector<const char*> f, v; for (auto& s : files) { f.push_back(s.c_str()); } for (auto& s : vals) { v.push_back(s.c_str()); }
        o = call([&](Outcome& r) { r.ret = geomodelgrids_squery_initialize(h.c, f.data(), f.size(), v.data(), v.size(), crs.c_str()); });
        if (o.threw) { violation("c-exception", hn + " initialize: exception crossed the C API: " + o.what); }
    }
    ++g_checked;
    bool err = o.threw;
    if (h.api == "c") {
        // status is sticky: an error shows as ERROR with a message that was not there before
        void* e = geomodelgrids_squery_getErrorHandler(h.c); int st = geomodelgrids_cerrorhandler_getStatus(e);
        err = st == 2 && (h.lastKind != "error" && h.maxKind != "error" ? true : false);
        if (h.lastKind == "error" || h.maxKind == "error") { err = !valid || o.faulted; } // cannot tell without a reset; generator resets first
        if (err) { h.lastKind = "error"; h.maxKind = "error"; h.lastCoord = ""; }
        if (o.ret != st) { violation("c-status", hn + " initialize returned " + std::to_string(o.ret) + " but status is " + std::to_string(st)); }
    }
    if (err && valid && !o.faulted) { violation("init-spurious-failure", hn + " initialize failed on valid models without a fault: " + o.what); }
    if (!err && !valid) { violation("init-accepts-bad", hn + " initialize succeeded although " + why); }
    if (err) { h.failed = true; probe("init-failed"); }
    else { h.inited = true; h.finalized = false; h.models = ms; h.names = vals; h.crs = crs; }
    if (err) { h.finalized = false; }
}
static bool anyUses(const std::string& path) { for (auto& kv : W.h) { if (kv.second.inited && !kv.second.finalized) { for (auto m : kv.second.models) { if (m->path() == path) { return true; } } } } return false; }
static bool anyFailed() { for (auto& kv : W.h) { if (kv.second.failed && kv.second.api == "m") { return true; } } return false; }
static void checkOpenFiles(const std::string& when) {
    if (anyFailed()) { return; }
    ++g_checked;
    for (auto& kv : W.models) { int n = simio_open_count((kv.second->name + ".h5").c_str()); if (n > 0 && !anyUses(kv.second->path())) { violation("file-left-open", when + ": " + kv.second->path() + " still open (" + std::to_string(n) + " descriptors)"); } }
}
static void doDelete(const std::string& hn, Hd& h) {
    call([&](Outcome&) { if (h.q) { delete h.q; h.q = nullptr; } if (h.m) { delete h.m; h.m = nullptr; } if (h.c) { geomodelgrids_squery_destroy(&h.c); if (h.c) { violation("destroy", "destroy did not clear the handle"); } } });
    std::string lf = h.logging && !h.logFaulty ? h.logFile : "";
    W.h.erase(hn); // reference dies with it
    if (!lf.empty()) { bool shared = false; for (auto& kv : W.h) { if (kv.second.logFile == lf) { shared = true; } } if (!shared) { checkLog(lf, "after destroy"); } }
    checkOpenFiles("after destroying " + hn);
}

// ------------------------------------------------------------------ applications
static std::string g_stdout;
static int runApp(const std::string& app, const std::vector<std::string>& args, bool& aborted) {
    std::vector<std::string> a; a.push_back("geomodelgrids_" + app); a.insert(a.end(), args.begin(), args.end());
    std::vector<char*> v; for (auto& s : a) { v.push_back(&s[0]); } v.push_back(nullptr);
    std::ostringstream out, err; std::streambuf* o0 = std::cout.rdbuf(out.rdbuf()); std::streambuf* e0 = std::cerr.rdbuf(err.rdbuf());
    optind = 0; opterr = 0; int rc = 99; aborted = false;
    alarm(30);
    long h0 = simio_fired_total();
    try { Arm arm;
      if (app == "query") { rc = query_main(a.size(), v.data()); } else if (app == "queryelev") { rc = queryelev_main(a.size(), v.data()); }
      else if (app == "borehole") { rc = borehole_main(a.size(), v.data()); } else if (app == "isosurface") { rc = isosurface_main(a.size(), v.data()); } else { rc = info_main(a.size(), v.data()); } }
    catch (...) { // an exception that leaves main() ends the process with a nonzero status
        simio_arm(0); if (simio_fired_total() == h0) { violation("abort", app + " ends by an uncaught exception without any fault"); } rc = 134; aborted = true; }
    alarm(0);
    std::cout.rdbuf(o0); std::cerr.rdbuf(e0); std::cout.clear(); std::cerr.clear(); std::cout.unsetf(std::ios::floatfield); std::cout << std::setprecision(6);
    g_stdout = out.str();
    char b[64]; snprintf(b, sizeof(b), "rc %d", rc); simio_note(b); simio_note(g_stdout.c_str());
    return rc;
}
#include "gapps.hh"

// ------------------------------------------------------------------ interpreter
static void execLine(const std::string& line) {
    std::vector<std::string> t; { std::istringstream in(line); std::string s; while (in >> s) { t.push_back(s); } }
    if (t.empty() || t[0][0] == '#') { return; }
    snprintf(g_sh->op, sizeof(g_sh->op), "%s", line.c_str()); g_sh->opIndex++;
    simio_note(line.c_str());
    const std::string& op = t[0];
    auto H = [&](size_t i) -> Hd* { if (t.size() <= i) { return nullptr; } auto it = W.h.find(t[i]); return it == W.h.end() ? nullptr : &it->second; };
    if (op == "scenario") { return; }
    if (op == "model" && t.size() >= 3) {
        if (anyUses("/simfs/" + t[1] + ".h5")) { return; }
        auto m = std::make_unique<ModelSpec>(genModel(t[1], strtoull(t[2].c_str(), nullptr, 10), parseKV(t, 3)));
        if (!writeModel(*m)) { violation("harness", "cannot write model"); }
        W.openable[t[1]] = true; W.models[t[1]] = std::move(m);
    } else if (op == "truncate" && t.size() >= 3) { // keep a fraction of the file
        auto it = W.models.find(t[1]); if (it == W.models.end() || anyUses(it->second->path())) { return; }
        std::string s = readFile(it->second->path()); if (s.empty()) { return; } size_t k = size_t(s.size()*num(t[2])); if (k >= s.size()) { k = s.size()-1; } simio_put(it->second->path().c_str(), s.data(), k); W.openable[t[1]] = false;
    } else if (op == "garbage" && t.size() >= 2) { auto it = W.models.find(t[1]); if (it == W.models.end() || anyUses(it->second->path())) { return; } std::string s(3000, 'g'); simio_put(it->second->path().c_str(), s.data(), s.size()); W.openable[t[1]] = false; }
    else if (op == "unlink" && t.size() >= 2) { auto it = W.models.find(t[1]); if (it == W.models.end() || anyUses(it->second->path())) { return; } simio_remove(it->second->path().c_str()); W.openable[t[1]] = false; }
    else if (op == "restore" && t.size() >= 2) { auto it = W.models.find(t[1]); if (it == W.models.end() || anyUses(it->second->path()) || anyFailed()) { return; } writeModel(*it->second); W.openable[t[1]] = true; }
    else if (op == "fault") { std::string r = line.substr(line.find("fault")+6); if (simio_rule(r.c_str()) < 0) { violation("harness", "bad rule " + r); } }
    else if (op == "heal") { simio_heal(); }
    else if (op == "new" && t.size() >= 3) {
        if (W.h.count(t[1])) { return; }
        Hd h; h.api = t[2]; if (t[2] == "cpp") { h.q = new geomodelgrids::serial::Query(); } else if (t[2] == "c") { h.c = geomodelgrids_squery_create(); } else { h.m = new geomodelgrids::serial::Model(); }
        W.h[t[1]] = h;
    } else if (op == "init") { if (Hd* h = H(1)) { doInit(t[1], *h, t); } }
    else if (op == "q" && t.size() >= 7) { if (Hd* h = H(1)) { doQuery(t[1], *h, point(*h, t[2], num(t[3]), num(t[4]), t[5], num(t[6]))); } }
    else if (op == "scan" && t.size() >= 5) { // many points in a deterministic order
        if (Hd* h = H(1)) { if (!usable(*h)) { return; } auto it = W.models.find(t[2]); if (it == W.models.end()) { return; } const ModelSpec& m = *it->second; Rng r(strtoull(t[3].c_str(), nullptr, 10)); int n = atoi(t[4].c_str());
            for (int i = 0; i < n; ++i) { double x = r.u(0, m.dx), y = r.u(0, m.dy), z = -r.u(0, m.dz); if (r.p(0.1)) { doElev(t[1], *h, point(*h, t[2], x, y, "E", 0), r.p(0.5)); } else { doQuery(t[1], *h, point(*h, t[2], x, y, "L", z)); } } } }
    else if ((op == "top" || op == "topo") && t.size() >= 5) { if (Hd* h = H(1)) { doElev(t[1], *h, point(*h, t[2], num(t[3]), num(t[4]), "E", 0), op == "topo"); } }
    else if (op == "squash" && t.size() >= 3) { if (Hd* h = H(1)) { int v = atoi(t[2].c_str()); if (h->api == "m") { return; } h->squash = v; if (h->q) { h->q->setSquashing((geomodelgrids::serial::Query::SquashingEnum)v); } else { int r = geomodelgrids_squery_setSquashing(h->c, v); checkStatus(*h, "setSquashing", r, true); } } }
    else if (op == "squashmin" && t.size() >= 3) { if (Hd* h = H(1)) { double v = num(t[2]); if (h->api == "m") { return; } h->floorZ = v; if (h->squash == 0) { h->squash = 1; } if (h->q) { h->q->setSquashMinElev(v); } else { int r = geomodelgrids_squery_setSquashMinElev(h->c, v); checkStatus(*h, "setSquashMinElev", r, true); } } }
    else if (op == "fin") { if (Hd* h = H(1)) { Outcome o = call([&](Outcome& r) { if (h->q) { h->q->finalize(); } else if (h->c) { r.ret = geomodelgrids_squery_finalize(h->c); } else { h->m->close(); } }); if (o.threw && !o.faulted) { violation("finalize", "finalize raised " + o.what); } h->finalized = true; if (h->inited) { h->failed = false; } h->inited = false; checkOpenFiles("after finalize"); } }
    else if (op == "del") { if (Hd* h = H(1)) { doDelete(t[1], *h); } }
    else if (op == "reset") { if (Hd* h = H(1)) { if (!h->c) { return; } void* e = geomodelgrids_squery_getErrorHandler(h->c); geomodelgrids_cerrorhandler_resetStatus(e); h->lastKind = h->maxKind = "ok"; h->lastCoord = ""; checkStatus(*h, "after reset", 0, false); } }
    else if (op == "status") { if (Hd* h = H(1)) { checkStatus(*h, "status", 0, false); } }
    else if (op == "logfile" && t.size() >= 3) { if (Hd* h = H(1)) { if (!h->c) { return; }
        for (auto& kv : W.h) { if (&kv.second != h && kv.second.logFile == "/simfs/" + t[2]) { return; } }
        void* e = geomodelgrids_squery_getErrorHandler(h->c); std::string old = h->logging && !h->logFaulty ? h->logFile : ""; long h0 = simio_fired_total();
        call([&](Outcome&) { geomodelgrids_cerrorhandler_setLogFilename(e, ("/simfs/" + t[2]).c_str()); geomodelgrids_cerrorhandler_setLoggingOn(e, 1); });
        if (!old.empty() && old != "/simfs/" + t[2]) { checkLog(old, "after switching the log file"); }
        h->logFile = "/simfs/" + t[2]; h->logging = true; h->logFaulty = simio_fired_total() > h0; W.logs[h->logFile].clear();
        if (std::string(geomodelgrids_cerrorhandler_getLogFilename(e)) != h->logFile) { violation("c-log", "log filename not reported back"); } } }
    else if (op == "logging" && t.size() >= 3) { if (Hd* h = H(1)) { if (!h->c || h->logFile.empty()) { return; } void* e = geomodelgrids_squery_getErrorHandler(h->c); long h0 = simio_fired_total(); call([&](Outcome&) { geomodelgrids_cerrorhandler_setLoggingOn(e, atoi(t[2].c_str())); }); if (simio_fired_total() > h0) { h->logFaulty = true; } h->logging = atoi(t[2].c_str()); if (!h->logFaulty) { checkLog(h->logFile, "after setLoggingOn"); } } }
    else if (op == "app") { doApp(t, line); }
    else if (op == "points" || op == "badpoints") { doPoints(t, line); }
    else { violation("harness", "unknown op " + line); }
}
static int runScenario(const std::string& text) {
    simio_reset(); g_sh->opIndex = 0; g_nq = g_nwarn = g_nfaulted = g_checked = 0; g_probes.clear();
    std::istringstream in(text); std::string line;
    while (std::getline(in, line)) { execLine(line); }
    // settle: no faults, everything is released
    simio_heal(); snprintf(g_sh->op, sizeof(g_sh->op), "end of scenario");
    for (auto& kv : W.h) { if (kv.second.logFaulty) { kv.second.logFaulty = true; } }
    std::vector<std::string> names; for (auto& kv : W.h) { names.push_back(kv.first); }
    for (auto& n : names) { doDelete(n, W.h[n]); }
    if (simio_open_count("") > 0) { violation("file-left-open", std::to_string(simio_open_count("")) + " descriptors still open at the end"); }
    emit("OK", "", "");
    return 0;
}

#include "ggen.hh"

// ------------------------------------------------------------------ driver
static std::string slurp(const char* p) { FILE* f = fopen(p, "r"); if (!f) { return ""; } std::string s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof(b), f)) > 0) { s.append(b, n); } fclose(f); return s; }
static std::string forkRun(const std::string& text) {
    int pfd[2]; if (pipe(pfd)) { return "HARNESS pipe"; }
    pid_t pid = fork();
    if (pid == 0) {
        ::close(pfd[0]); g_out = pfd[1];
        signal(SIGSEGV, onSignal); signal(SIGABRT, onSignal); signal(SIGALRM, onSignal); signal(SIGFPE, onSignal); signal(SIGBUS, onSignal);
        int rc = 1; GeoMemo::the().on = std::hash<std::string>()(text) % 16 != 0;
        try { rc = runScenario(text); } catch (const std::exception& e) { emit("VIOLATION", "harness", e.what()); }
        _exit(rc);
    }
    ::close(pfd[1]);
    std::string out; char b[4096]; ssize_t n; while ((n = ::read(pfd[0], b, sizeof(b))) > 0) { out.append(b, n); }
    ::close(pfd[0]); int st = 0; waitpid(pid, &st, 0);
    size_t nl = out.find('\n'); std::string first = nl == std::string::npos ? out : out.substr(0, nl);
    if (first.empty()) { char m[256]; snprintf(m, sizeof(m), "VIOLATION|0|ops=0|hard=0|benign=0|vtime=0|q=0|warn=0|faulted=0|checks=0|faults=|probes=|findings=|class=abort|msg=op %d [%s]: process ended with status %d", g_sh->opIndex, g_sh->op, st); first = m; }
    return first;
}
int main(int argc, char** argv) {
    setenv("PROJ_NETWORK", "OFF", 1);
    g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    H5open(); H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    CPLSetErrorHandler(CPLQuietErrorHandler);
    std::string cmd = argc > 1 ? argv[1] : "";
    if (cmd == "gen" && argc >= 5) { fputs(generate(argv[2], argv[3], strtoull(argv[4], nullptr, 10)).c_str(), stdout); return 0; }
    for (auto c : {"EPSG:26910", "EPSG:3311", "EPSG:32611", "EPSG:2227"}) { double x = 0, y = 0, z = 0; Geo::fwd("EPSG:4326", c, x, y, z); x = y = z = 0; Geo::inv("EPSG:4326", c, x, y, z); x = 5e5; y = 4e6; Geo::inv(c, c, x, y, z); } // warm PROJ before forking
    if (getenv("GSIM_TRACE")) { simio_trace(1); }
    if (cmd == "batch" || cmd == "warmrun") { // every transformation scenarios use
        std::vector<std::string> src, dst; for (auto& c : MODEL_CRSS) { dst.push_back(c.crs); src.push_back(c.crs); } for (auto& n : NAMED_CRSS) { if (n.first != "bad" && n.first != "utm" && n.first != "ft") { src.push_back(n.second); } } src.push_back(crsString("wkt", ""));
        GeoMemo::the().warm(src, dst);
    }
    if ((cmd == "run" || cmd == "warmrun") && argc >= 3) { if (argc > 3) { simio_trace(1); } std::string r = forkRun(slurp(argv[2])); printf("%s\n", r.c_str()); return r.compare(0, 2, "OK") == 0 ? 0 : 3; }
    if (cmd == "batch" && argc >= 7) {
        uint64_t s0 = strtoull(argv[4], nullptr, 10); long n = atol(argv[5]); double secs = atof(argv[6]);
        struct timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a); int bad = 0;
        for (long i = 0; i < n; ++i) {
            clock_gettime(CLOCK_MONOTONIC, &b); if ((b.tv_sec-a.tv_sec) + (b.tv_nsec-a.tv_nsec)*1e-9 > secs) { break; }
            std::string r = forkRun(generate(argv[2], argv[3], s0+i));
            printf("%llu|%s\n", (unsigned long long)(s0+i), r.c_str()); fflush(stdout);
            if (r.compare(0, 2, "OK") != 0 && r.find("class=harness") == std::string::npos && ++bad >= 3) { break; }
        }
        fflush(stdout); return 0;
    }
    fprintf(stderr, "usage\n"); return 2;
}
