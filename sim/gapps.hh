// Applications run in-process against the simulated disk (included by gsim.cc).
struct PtsFile { std::vector<std::vector<double> > rows; bool ok = true; std::string why; };
static std::map<std::string, PtsFile> g_points;
static std::map<std::string, int> g_tifPixels;

// points <file> <model> <seed> <n> cols=2|3 crs=model|geo trail=0|1 style=.. [bad=word|short|empty]
static void doPoints(const std::vector<std::string>& t, const std::string&) {
    if (t.size() < 5) { return; }
    auto it = W.models.find(t[2]); if (it == W.models.end()) { return; }
    const ModelSpec& m = *it->second; KV kv = parseKV(t, 5); Rng r(strtoull(t[3].c_str(), nullptr, 10)); const int n = atoi(t[4].c_str()); const int cols = kv["cols"] == "2" ? 2 : 3;
    PtsFile pf; std::string text; Hd h; h.crs = crsOf(kv["crs"], Models{&m}); const bool deg = crsDegrees(kv["crs"]);
    const int style = atoi(kv["style"].c_str());
    int badRow = kv.count("bad") ? r.i(0, std::max(0, n-1)) : -1;
    for (int i = 0; i < n; ++i) {
        double x, y, z; int c = r.i(0, 9);
        x = r.u(0, m.dx); y = r.u(0, m.dy); z = -r.u(0, m.dz);
        if (c == 0) { x = r.u(-0.5*m.dx, 1.5*m.dx); } else if (c == 1) { z = r.u(-1.4*m.dz, 0.2*m.dz); } else if (c == 2) { const BlockSpec& b = m.blocks[r.next() % m.blocks.size()]; x = b.x.at(r.i(0, b.x.n-1)); y = b.y.at(r.i(0, b.y.n-1)); }
        Pt p = point(h, t[2], x, y, "L", z);
        char b[256]; const char* f = deg ? "%.9f" : (style == 2 ? "%.8e" : "%.4f");
        std::vector<double> row; std::string line; double cc[3] = { p.x, p.y, p.z };
        for (int k = 0; k < cols; ++k) { snprintf(b, sizeof(b), f, cc[k]); if (k) { line += style == 1 ? "   \t" : " "; } else if (style == 1) { line += "  "; } line += b; row.push_back(strtod(b, nullptr)); }
        if (i == badRow) {
            const std::string& k = kv["bad"];
            if (k == "word") { line = "abc " + line; pf.ok = false; pf.why = "not a number"; }
            if (k == "nan") { size_t s = line.rfind(' '); line = line.substr(0, s == std::string::npos ? 0 : s) + " 12x34"; pf.ok = false; pf.why = "malformed number"; }
            if (k == "short" && i == n-1) { size_t s = line.rfind(' '); if (s != std::string::npos) { line = line.substr(0, s); pf.ok = false; pf.why = "last point incomplete"; } }
        }
        pf.rows.push_back(row); text += line;
        if (i < n-1 || kv["trail"] != "0") { text += "\n"; if (style == 1 && r.p(0.2)) { text += "\n"; } }
    }
    if (kv["trail"] == "0") { probe("no-trailing-newline"); }
    std::string path = "/simfs/" + t[1]; simio_put(path.c_str(), text.data(), text.size()); g_points[path] = pf;
}
static std::vector<std::string> lines(const std::string& s) { std::vector<std::string> r; std::istringstream in(s); std::string l; while (std::getline(in, l)) { r.push_back(l); } return r; }
static std::vector<std::string> toks(const std::string& s) { std::vector<std::string> r; std::istringstream in(s); std::string l; while (in >> l) { r.push_back(l); } return r; }
static std::vector<double> nums(const std::string& s, bool& ok) { std::vector<double> r; ok = true; for (auto& x : toks(s)) { char* e; r.push_back(strtod(x.c_str(), &e)); if (*e) { ok = false; } } return r; }

struct AppCtx { KV kv; Models ms; bool valid = true, maybe = false; std::string why, crs, out; std::vector<std::string> values; };
static void appModels(AppCtx& c, bool names) {
    c.values = c.kv.count("values") ? split(c.kv["values"], ',') : std::vector<std::string>();
    for (auto& n : split(c.kv["models"], ',')) { auto it = W.models.find(n); if (it == W.models.end() || !W.openable[n]) { c.valid = false; c.why = "unreadable model " + n; continue; } if (!it->second->valid()) { c.valid = false; c.why = "bad metadata in " + n; } c.ms.push_back(it->second.get()); }
    if (c.ms.empty()) { c.valid = false; c.why = "no model"; }
    c.crs = crsOf(c.kv["crs"], c.ms);
    if (names) { std::map<std::string, std::string> un; for (auto m : c.ms) { for (auto& v : c.values) { bool f = false; for (size_t j = 0; j < m->values.size(); ++j) { if (lower(m->values[j]) == lower(v)) { f = true; if (j >= m->numUnits) { c.valid = false; c.why = "units missing"; } if (un.count(lower(v)) && un[lower(v)] != lower(m->units[j])) { c.valid = false; c.why = "inconsistent units"; } un[lower(v)] = lower(m->units[j]); break; } } if (!f) { c.valid = false; c.why = "value not in model"; } } } }
}
static std::string modelArg(const KV& kv) { std::string s; for (auto& n : split(kv.at("models"), ',')) { if (!s.empty()) { s += ","; } s += "/simfs/" + n + ".h5"; } return s; }
// complete and right? returns "" or the problem
static std::string checkTable(const std::string& text, size_t rows, size_t cols, const std::vector<std::string>& headNames, std::function<std::string(size_t, const std::vector<double>&)> rowCheck) {
    if (text.empty() || text.back() != '\n') { return "output is truncated (does not end with a newline, " + std::to_string(text.size()) + " bytes)"; }
    std::vector<std::string> l = lines(text); size_t h = 0; while (h < l.size() && !l[h].empty() && l[h][0] == '#') { ++h; }
    if (h < 1) { return "no header"; }
    { std::string hd; for (size_t i = 0; i < h; ++i) { hd += l[i] + " "; } std::vector<std::string> ht = toks(l[h-1]); size_t k = 0; for (auto& x : ht) { if (k < headNames.size() && x == headNames[k]) { ++k; } } if (k != headNames.size()) { return "header does not name the columns: '" + l[h-1] + "'"; } }
    if (l.size() - h != rows) { return "output has " + std::to_string(l.size()-h) + " rows, expected " + std::to_string(rows); }
    for (size_t i = 0; i < rows; ++i) { bool ok; std::vector<double> v = nums(l[h+i], ok); if (!ok || v.size() != cols) { return "row " + std::to_string(i) + " is malformed: '" + l[h+i] + "'"; } std::string e = rowCheck(i, v); if (!e.empty()) { return "row " + std::to_string(i) + " '" + l[h+i] + "': " + e; } ++g_checked; }
    return "";
}
static std::string checkTif(AppCtx& c, const std::string& path);
static std::string checkInfo(AppCtx& c, const std::string& out, bool faulted, int rc);

static void doApp(const std::vector<std::string>& t, const std::string&) {
    const std::string app = t[1]; AppCtx c; c.kv = parseKV(t, 2); KV& kv = c.kv;
    appModels(c, app == "query" || app == "borehole");
    std::vector<std::string> args; std::function<std::string()> complete; // "" if output complete and right
    std::string out = kv.count("out") ? "/simfs/" + kv["out"] : ""; c.out = out;
    args.push_back("--models=" + modelArg(kv));
    if (app != "info" && app != "isosurface") { args.push_back("--points-coordsys=" + c.crs); }
    if (!out.empty()) { args.push_back("--output=" + out); }
    if (kv.count("log")) { args.push_back("--log=/simfs/" + kv["log"]); }
    std::string pts = kv.count("points") ? "/simfs/" + kv["points"] : "";
    if (app == "query" || app == "queryelev") {
        args.push_back("--points=" + pts);
        if (!g_points.count(pts)) { c.valid = false; c.why = "no points file"; } else if (!g_points[pts].ok) { c.valid = false; c.why = "points: " + g_points[pts].why; }
    }
    if (app == "query") {
        args.push_back("--values=" + kv["values"]);
        int sq = 0; double fl = -10.0e3;
        if (kv.count("squash")) { args.push_back("--squash-surface=" + kv["squash"]); sq = kv["squash"] == "top_surface" ? 1 : kv["squash"] == "topography_bathymetry" ? 2 : 0; }
        if (kv.count("floor")) { args.push_back("--squash-min-elev=" + kv["floor"]); fl = num(kv["floor"]); if (!sq) { sq = 1; } }
        complete = [&c, &kv, pts, sq, fl, out]() {
            PtsFile& pf = g_points[pts]; std::vector<std::string> hn = {"x0", "x1", "x2"}; for (auto& v : c.values) { hn.push_back(v); }
            return checkTable(readFile(out), pf.rows.size(), 3 + c.values.size(), hn, [&](size_t i, const std::vector<double>& v) -> std::string {
                auto& p = pf.rows[i]; for (int k = 0; k < 3; ++k) { if (!closeTo(v[k], p[k], 1e-6, 1e-9)) { return "coordinates do not match the input point"; } }
                RefAns a0; bool ok = anyPert([&](const Pert& pt) { RefAns a = refQuery(c.ms, c.crs, c.values, p[0], p[1], p[2], sq, fl, pt); for (size_t q = 0; q < a.v.size(); ++q) { if (!closeTo(v[3+q], a.v[q], 2e-6, 1e-6)) { return false; } } return true; });
                if (ok) { return ""; }
                return "expected " + vstr(refQuery(c.ms, c.crs, c.values, p[0], p[1], p[2], sq, fl, Pert{0,0,0}).v); });
        };
    } else if (app == "queryelev") {
        bool topo = kv["surface"] == "topography_bathymetry"; if (kv.count("surface")) { args.push_back("--surface=" + kv["surface"]); }
        complete = [&c, pts, topo, out]() {
            PtsFile& pf = g_points[pts];
            return checkTable(readFile(out), pf.rows.size(), 3, {"x0", "x1", "elevation"}, [&](size_t i, const std::vector<double>& v) -> std::string {
                auto& p = pf.rows[i]; for (int k = 0; k < 2; ++k) { if (!closeTo(v[k], p[k], 1e-6, 1e-9)) { return "coordinates do not match the input point"; } }
                bool ok = anyPert([&](const Pert& pt) { return closeTo(v[2], refElev(c.ms, c.crs, p[0], p[1], topo, pt), 1e-6, 1e-5); });
                return ok ? "" : "expected " + fmt(refElev(c.ms, c.crs, p[0], p[1], topo, Pert{0,0,0})); });
        };
    } else if (app == "borehole") {
        std::vector<std::string> at = split(kv["at"], ':'); Hd h; h.crs = c.crs; Pt p = at.size() == 3 ? point(h, at[0], num(at[1]), num(at[2]), "E", 0) : Pt{0,0,0};
        char b[128]; snprintf(b, sizeof(b), "--location=%.9f,%.9f", p.x, p.y); args.push_back(b); sscanf(b, "--location=%lf,%lf", &p.x, &p.y);
        args.push_back("--values=" + kv["values"]); double md = num(kv["maxdepth"]), dz = num(kv["dz"]); args.push_back("--max-depth=" + kv["maxdepth"]); args.push_back("--dz=" + kv["dz"]);
        if (c.valid) { bool nd = true, some = false; anyPert([&](const Pert& pt) { if (refElev(c.ms, c.crs, p.x, p.y, false, pt) == ND) { some = true; } else { nd = false; } return false; }); if (nd) { c.valid = false; c.why = "location outside the models"; } else if (some) { return; } }
        complete = [&c, p, md, dz, out]() {
            double f = md/dz; size_t rows = size_t(1 + f); std::string text = readFile(out);
            if (fabs(f - std::round(f)) < 1e-9) { rows = size_t(1 + std::round(f)); }
            double g = refElev(c.ms, c.crs, p.x, p.y, false, Pert{0,0,0}); std::vector<std::string> hn = {"Elevation", "Depth"}; for (auto& v : c.values) { hn.push_back(v); }
            std::vector<double> gs; anyPert([&](const Pert& pt) { double e = refElev(c.ms, c.crs, p.x, p.y, false, pt); if (e != ND && std::find(gs.begin(), gs.end(), e) == gs.end()) { gs.push_back(e); } return false; }); // more than one only on the edge of a model
            return checkTable(text, rows, 2 + c.values.size(), hn, [&](size_t i, const std::vector<double>& v) -> std::string {
                double d = dz*i; if (!closeTo(v[1], d, 1e-6, 1e-6)) { return "depth should be " + fmt(d); }
                bool eOk = false; for (double e : gs) { if (closeTo(v[0], e - d, 2e-6, 2e-3)) { eOk = true; } } if (!eOk) { return "elevation should be " + fmt(g-d); }
                bool ok = anyPert([&](const Pert& pt) { for (double gg : gs) for (double off : {0.0, -1e-6}) { if (!closeTo(v[0], gg - d, 2e-6, 2e-3)) { continue; } RefAns a = refQuery(c.ms, c.crs, c.values, p.x, p.y, gg + off - d, 0, 0, pt); bool same = true; for (size_t q = 0; q < a.v.size(); ++q) { if (!closeTo(v[2+q], a.v[q], 3e-6, 1e-4)) { same = false; } } if (same) { return true; } } return false; });
                return ok ? "" : "expected " + vstr(refQuery(c.ms, c.crs, c.values, p.x, p.y, g - (g != 0 ? 1e-6 : 0) - d, 0, 0, Pert{0,0,0}).v); });
        };
    } else if (app == "isosurface") {
        std::vector<std::string> bb = split(kv["bbox"], ':'); // xmin:xmax:ymin:ymax in the bbox CRS
        if (num(bb[1]) < num(bb[0]) || num(bb[3]) < num(bb[2])) { c.valid = false; c.why = "invalid bounding box"; }
        args.push_back("--bbox=" + bb[0] + "," + bb[1] + "," + bb[2] + "," + bb[3]); args.push_back("--hresolution=" + kv["hres"]); args.push_back("--vresolution=" + kv["vres"]); args.push_back("--max-depth=" + kv["maxdepth"]);
        args.push_back("--bbox-coordsys=" + c.crs); if (kv.count("nsearch")) { args.push_back("--num-search-points=" + kv["nsearch"]); c.maybe = atoi(kv["nsearch"].c_str()) < 3; } if (kv["deep"] == "1") { args.push_back("--prefer-deep"); } if (kv.count("ref")) { args.push_back("--depth-reference=" + kv["ref"]); }
        for (auto& s : split(kv["iso"], ';')) { auto q = split(s, ':'); args.push_back("--isosurface=" + q[0] + "," + q[1]); for (auto m : c.ms) { bool f = false; for (auto& v : m->values) { if (lower(v) == lower(q[0])) { f = true; } } if (!f) { c.valid = false; c.why = "value not in model"; } } }
        complete = [&c, out]() { return checkTif(c, out); };
    } else if (app == "info") {
        for (auto& f : split(kv["flags"], ',')) { args.push_back("--" + f); }
    }
    ++g_nq; bool ab; long h0 = simio_fired_total();
    int rc = runApp(app, args, ab); bool faulted = simio_fired_total() > h0; ++g_checked; if (faulted) { ++g_nfaulted; }
    if (simio_crashed()) { // the process died at that write; what it did afterwards never happened
        simio_heal(); simio_thaw(); probe("crash-rerun");
        if (c.valid && !c.maybe && app != "info") { int rc2 = runApp(app, args, ab); std::string e = complete(); if (rc2 != 0) { violation("rerun-fails", app + " fails when rerun after a crash (exit " + std::to_string(rc2) + ")"); } if (!e.empty()) { violation("rerun-wrong", app + " rerun after a crash: " + e); } }
        return;
    }
    if (app == "info") { std::string e = checkInfo(c, g_stdout, faulted, rc); if (!e.empty()) { violation("info", e); } return; }
    if (rc == 0) {
        if (!c.valid) { violation("exit-0-on-bad-input", app + " exits 0 although " + c.why); }
        bool logOnly = faulted && simio_fired_total() - h0 == simio_fired_file(".log");
        std::string e = complete();
        if (!e.empty()) { violation(faulted && !logOnly ? "silent-loss" : "wrong-output", app + " exits 0 but " + e + (faulted ? " (faults fired)" : "")); }
        probe(faulted ? "exit0-under-fault" : "exit0");
    } else {
        if (c.valid && !faulted && !c.maybe) { violation("spurious-failure", app + " exits " + std::to_string(rc) + " on valid input without a fault: " + oneline(g_stdout)); }
        probe("exit-nonzero");
        if (c.valid && !c.maybe) { simio_heal(); int rc2 = runApp(app, args, ab); std::string e = rc2 ? "" : complete(); if (rc2) { violation("rerun-fails", app + " fails when rerun without faults (exit " + std::to_string(rc2) + ")"); } if (!e.empty()) { violation("rerun-wrong", app + " rerun after a failure: " + e); } probe("rerun-ok"); }
    }
    if (simio_open_count("") > 0) { violation("file-left-open", app + " left " + std::to_string(simio_open_count("")) + " descriptors open"); }
}

// ------------------------------------------------------------------ isosurface raster
static std::string checkTif(AppCtx& c, const std::string& path) {
    KV& kv = c.kv; double md = num(kv["maxdepth"]), vres = num(kv["vres"]), hres = num(kv["hres"]); int ns = kv.count("nsearch") ? atoi(kv["nsearch"].c_str()) : 10; bool deep = kv["deep"] == "1"; bool topoRef = kv["ref"] != "top_surface";
    std::vector<std::pair<std::string, double> > iso; for (auto& s : split(kv["iso"], ';')) { auto q = split(s, ':'); iso.push_back({q[0], num(q[1])}); }
    GDALAllRegister(); GDALDatasetH ds = GDALOpen(path.c_str(), GA_ReadOnly); if (!ds) { return "raster cannot be opened"; }
    int nx = GDALGetRasterXSize(ds), ny = GDALGetRasterYSize(ds), nb = GDALGetRasterCount(ds); double g[6]; std::string err;
    if (GDALGetGeoTransform(ds, g) != CE_None) { err = "raster has no georeferencing"; }
    if (nb != (int)iso.size()) { err = "raster has " + std::to_string(nb) + " bands"; }
    auto bb = split(kv["bbox"], ':'); double b0 = num(bb[0]), b1 = num(bb[1]), b2 = num(bb[2]), b3 = num(bb[3]); if (crsLatFirst(kv["crs"])) { std::swap(b0, b2); std::swap(b1, b3); }
    int ex = (int)((b1-b0)/hres + 0.5), ey = (int)((b3-b2)/hres + 0.5);
    if (err.empty() && (abs(nx-ex) > 0 || abs(ny-ey) > 0)) { err = "raster is " + std::to_string(nx) + "x" + std::to_string(ny) + ", expected " + std::to_string(ex) + "x" + std::to_string(ey); }
    if (err.empty() && (fabs(g[0]-b0) > 0.51*hres || fabs(g[3]-b3) > 0.51*hres || fabs(g[0]+nx*g[1]-b1) > 0.51*hres || fabs(g[3]+ny*g[5]-b2) > 0.51*hres)) { err = "raster extent does not match the bounding box"; }
    if (err.empty()) { // same coordinate system as requested; axes are always easting/longitude first in rasters
        PJ* a = gsim_proj_create(PJ_DEFAULT_CTX, GDALGetProjectionRef(ds)); PJ* b = gsim_proj_create(PJ_DEFAULT_CTX, c.crs.c_str());
        if (!a) { err = "raster has no coordinate system"; }
        else if (b && c.crs.find("EPSG:") == 0 && c.crs != "EPSG:4979" && !proj_is_equivalent_to_with_ctx(PJ_DEFAULT_CTX, a, b, PJ_COMP_EQUIVALENT_EXCEPT_AXIS_ORDER_GEOGCRS)) { err = "raster has coordinate system " + oneline(GDALGetProjectionRef(ds)) + ", expected " + c.crs; }
        if (a) { proj_destroy(a); } if (b) { proj_destroy(b); }
    }
    double w = std::min(vres, md); double dz0 = md/(ns-1);
    const double tol = w*1.02 + 0.01;
    std::vector<float> buf(size_t(nx)*ny);
    for (int b = 0; b < nb && err.empty(); ++b) {
        GDALRasterBandH bh = GDALGetRasterBand(ds, b+1);
        { char lb[128]; std::ostringstream os; os << iso[b].first << "=" << iso[b].second; (void)lb; if (os.str() != GDALGetDescription(bh)) { err = "band " + std::to_string(b) + " labelled '" + GDALGetDescription(bh) + "', expected '" + os.str() + "'"; break; } int has = 0; double nd = GDALGetRasterNoDataValue(bh, &has); if (!has || !closeTo(nd, ND, 1e-6)) { err = "NODATA value not set"; break; } }
        if (GDALRasterIO(bh, GF_Read, 0, 0, nx, ny, buf.data(), nx, ny, GDT_Float32, 0, 0) != CE_None) { err = "raster cannot be read back"; break; }
        for (int r = 0; r < ny && err.empty(); ++r) { for (int q = 0; q < nx; ++q) {
            double X = g[0] + (q+0.5)*g[1], Y = g[3] + (r+0.5)*g[5]; if (crsLatFirst(kv["crs"])) { std::swap(X, Y); }
            double d = buf[size_t(r)*nx + q]; bool dnd = closeTo(d, ND, 1e-5); ++g_checked;
            std::string where = "pixel row " + std::to_string(r) + " col " + std::to_string(q) + " band " + std::to_string(b) + " is " + fmt(d);
            bool ok = anyPert([&](const Pert& pt) {
                double e = refElev(c.ms, c.crs, X, Y, topoRef, pt); if (e == ND) { return dnd; }
                auto col = [&](double depth) { return refQuery(c.ms, c.crs, {iso[b].first}, X, Y, e - std::max(1e-4, depth), 0, 0, pt).v[0]; };
                double t = iso[b].second;
                if (kv["mono"] == "1") {
                    double vt = col(0), vb = col(md);
                    if (vt > t) { return fabs(d) <= tol; }
                    if (vb < t) { return dnd || (col(md) == ND && false); }
                    double lo = 0, hi = md; for (int it = 0; it < 60; ++it) { double mid = 0.5*(lo+hi); if (col(mid) >= t) { hi = mid; } else { lo = mid; } }
                    return !dnd && fabs(d - hi) <= tol;
                }
                // general column: the first (last) top-level sample interval with a crossing must contain the answer
                int n1 = ns - 1; std::vector<double> v(ns); for (int i = 0; i < ns; ++i) { v[i] = col(i*dz0); }
                double lo = -1, hi = -1;
                if (!deep) { for (int i = 1; i <= n1; ++i) { if (v[i] >= t) { lo = (i-1)*dz0; hi = i*dz0; break; } } } else { for (int i = n1-1; i >= 0; --i) { if (v[i] < t) { lo = i*dz0; hi = (i+1)*dz0; break; } } }
                if (lo < 0) { return dnd || fabs(d) <= dz0 + tol; }
                if (dnd) { return deep ? v[n1] < t : false; }
                if (fabs(d) == 0 && v[0] > t) { return true; }
                if (d < lo - tol || d > hi + tol) { return false; }
                double mn = 1e99, mx = -1e99; for (double dd : {lo, hi}) { if (fabs(dd-d) <= tol) { double vv = col(dd); mn = std::min(mn, vv); mx = std::max(mx, vv); } } for (int i = 0; i <= 40; ++i) { double dd = std::min(md, std::max(0.0, d - tol + 2*tol*i/40)); double vv = col(dd); mn = std::min(mn, vv); mx = std::max(mx, vv); }
                return mn <= t + 1e-3*fabs(t) && mx >= t - 1e-3*fabs(t);
            });
            if (!ok) { double e = refElev(c.ms, c.crs, X, Y, topoRef, Pert{0,0,0}); err = where + ": not the depth of " + iso[b].first + "=" + fmt(iso[b].second) + " there (surface " + fmt(e) + ")"; break; }
        } }
    }
    GDALClose(ds); return err;
}

// ------------------------------------------------------------------ info
static bool sameNum(const std::string& a, double v) { char* e; double x = strtod(a.c_str(), &e); return closeTo(x, v, 1.1e-5, 1e-9); }
static std::string strip(const std::string& s) { size_t a = s.find_first_not_of(" \t"); if (a == std::string::npos) { return ""; } size_t b = s.find_last_not_of(" \t"); return s.substr(a, b-a+1); }
// which verification lines must say OK (O), FAIL (F), either (?); K: wrong OK recorded as a known finding
static char verSpan(const Axis& a, double d) { double len = a.var ? a.c.back()-a.c[0] : a.res*(a.n-1); double e = fabs(1-len/d); return e < 0.9e-6 ? 'O' : e > 1.1e-6 ? 'F' : '?'; }
static char verBoth(char a, char b) { return a == 'F' || b == 'F' ? 'F' : a == '?' || b == '?' ? '?' : 'O'; }
static char verMult(const Axis& t, const Axis& b) { if (t.var || b.var) { return '?'; } int k = int(0.01 + b.res/t.res); double e = fabs(k*t.res - b.res); return e < 0.5e-6 ? 'O' : e > 2e-6 ? 'F' : '?'; }
static std::string checkVerify(const ModelSpec& m, const std::vector<std::string>& s) {
    std::vector<std::pair<std::string, char> > want; const bool v = m.valid(); auto dropped = [&](const std::string& a) { return std::find(m.drop.begin(), m.drop.end(), a) != m.drop.end(); };
    ModelSpec nc = m; nc.badCrs = ""; want.push_back({"Verifying metadata...", nc.valid() ? 'O' : 'F'});
    if (m.bads.empty()) { want.push_back({"Verifying model coordinate system ...", dropped("/:crs") ? 'K' : !m.badCrs.empty() ? 'F' : 'O'});
    auto grid = [&](const std::string& path, const Axis& x, const Axis& y) { // span of a grid; '?' when damaged unless it clearly must fail
        bool dx = dropped("/:dim_x"), dy = dropped("/:dim_y"); if (m.badRank == path || m.badDims == path + ":x" || m.badDims == path + ":y" || dropped(path + ":x_coordinates") || dropped(path + ":y_coordinates") || dropped(path + ":x_resolution") || dropped(path + ":y_resolution") || dx || dy) {
            bool gx = m.badRank == path || m.badDims == path + ":x" || dropped(path + ":x_coordinates") || dropped(path + ":x_resolution"), gy = m.badRank == path || m.badDims == path + ":y" || dropped(path + ":y_coordinates") || dropped(path + ":y_resolution");
            return (gx && dx) || (gy && dy) ? '?' : 'F'; }
        return verBoth(verSpan(x, m.dx), verSpan(y, m.dy)); };
    if (m.top.present) { want.push_back({"Verifying surface 'top surface'...", grid("surfaces/top_surface", m.top.x, m.top.y)}); }
    if (m.topo.present) { want.push_back({"Verifying surface 'topography/bathymetry'...", grid("surfaces/topography_bathymetry", m.topo.x, m.topo.y)}); }
    if (m.top.present && m.topo.present) { char r = '?'; if (v && !m.top.x.var && !m.top.y.var && !m.topo.x.var && !m.topo.y.var) { double e = std::max(fabs(1-m.topo.x.res/m.top.x.res), fabs(1-m.topo.y.res/m.top.y.res)); r = e < 0.9e-4 ? 'O' : e > 1.1e-4 ? 'F' : '?'; } want.push_back({"Verifying resolution of top surface matches resolution of topography/bathymetry...", r}); }
    if (m.dropGroup != "blocks") { for (auto& b : m.blocks) { char r = grid("blocks/" + b.name, b.x, b.y); if (m.top.present && r != 'F') { char q = v ? verBoth(verMult(m.top.x, b.x), verMult(m.top.y, b.y)) : '?'; r = verBoth(r, q); } want.push_back({"Verifying block '" + b.name + "'...", r}); } }
    char rz = '?'; if (v) { double z = m.blocks[0].ztop, gap = fabs(z); for (auto& b : m.blocks) { gap = std::max(gap, fabs(b.ztop - z)); z = b.zvar ? b.zc.back() : b.ztop - b.dz*(b.nz-1); } gap = std::max(gap, fabs(z + m.dz)); rz = gap < 0.9e-4 ? 'O' : gap > 1.1e-4 ? 'F' : '?'; } else if (m.dropGroup == "blocks" || dropped("/:dim_z")) { rz = 'F'; }
    want.push_back({"Verifying blocks span vertical dimension of domain...", rz}); }
    for (auto& l : s) { if (l == "OK") { return "verification says OK after something else than the check was printed (FAIL and OK for one check)"; } }
    for (auto& w : want) {
        bool found = false; for (auto& l : s) { size_t at = l.find(w.first); if (at != std::string::npos) { found = true; std::string r = strip(l.substr(at + w.first.size())); ++g_checked;
            if (w.second == 'K' && r.compare(0, 2, "OK") == 0) { finding("info-verify-ok-for-missing-crs"); continue; }
            if (w.second == 'O' && r.compare(0, 2, "OK") != 0) { return "verification does not say OK for '" + w.first + "' on consistent metadata: '" + l + "'"; }
            if ((w.second == 'F' || w.second == 'K') && r.compare(0, 4, "FAIL") != 0) { return "verification does not say FAIL for '" + w.first + "': '" + l + "'"; } } }
        if (!found) { return "verification lacks '" + w.first + "'"; }
    }
    return "";
}
static std::string checkInfo(AppCtx& c, const std::string& out, bool faulted, int rc) {
    std::vector<std::string> files = split(c.kv["models"], ','); std::vector<std::string> l; for (auto& s : lines(out)) { l.push_back(strip(s)); }
    std::set<std::string> fl; for (auto& f : split(c.kv["flags"], ',')) { fl.insert(f); } bool all = fl.count("all");
    std::vector<size_t> start(files.size(), l.size()+1); { size_t p = 0; for (size_t i = 0; i < files.size(); ++i) { for (size_t k = p; k < l.size(); ++k) { const std::string hd = "Model: /simfs/" + files[i] + ".h5"; if (l[k].size() >= hd.size() && l[k].compare(l[k].size()-hd.size(), hd.size(), hd) == 0) { start[i] = k; p = k+1; break; } } } }
    bool anyUnread = false;
    for (size_t i = 0; i < files.size(); ++i) {
        const std::string& n = files[i]; auto it = W.models.find(n); bool readable = it != W.models.end() && W.openable[n];
        if (!readable) { anyUnread = true; continue; }
        const ModelSpec& m = *it->second;
        if (start[i] > l.size()) { if (faulted) { if (rc == 0) { return "info prints nothing about " + n + " under a read fault and exits 0"; } continue; } return "info prints nothing about readable file " + n; }
        size_t end = l.size(); for (size_t k = 0; k < files.size(); ++k) { if (start[k] > start[i] && start[k] < end) { end = start[k]; } }
        std::vector<std::string> s(l.begin()+start[i]+1, l.begin()+end); std::string body; for (auto& x : s) { body += x + "\n"; }
        bool flagged = body.find("FAIL") != std::string::npos || body.find("WARNING") != std::string::npos;
        if (!m.valid()) {
            if (!flagged && rc == 0) { return "info does not flag the bad metadata of " + n; }
            for (auto& d : m.drop) { size_t q = d.find(':'); std::string an = d.substr(q+1); if (an == "z_top") { continue; } if (body.find(an.substr(0, an.find("_reso"))) == std::string::npos && rc == 0 && !faulted) { return "info does not name the missing attribute " + an + " of " + n; } }
            if (!faulted && (fl.count("verify") || all)) { std::string e = checkVerify(m, s); if (!e.empty()) { return "info for " + n + ": " + e; } }
            // nothing of another file may show up here
            for (auto& o : W.models) { if (o.first != n) { for (auto& kv : o.second->info) { if (kv.second != "" && body.find(kv.second) != std::string::npos) { return "info prints metadata of " + o.first + " for " + n + ": '" + kv.second + "'"; } } } }
            for (auto& d : m.drop) { if (d == "/:data_values" || d == "/:data_units") { for (auto& o : W.models) { if (o.first != n) { for (size_t k = 0; k < o.second->values.size(); ++k) { std::string line = std::to_string(k) + ": " + o.second->values[k] + " (" + o.second->units[k] + ")"; if (std::find(s.begin(), s.end(), line) != s.end()) { return "info prints values of another file for " + n + ": '" + line + "'"; } } } } } }
            continue;
        }
        if (faulted) { if (rc == 0 && !flagged) { /* fall through: must be right */ } else { continue; } }
        else if (body.find("WARNING") != std::string::npos) { return "info warns about a valid file: " + oneline(body); }
        auto has = [&](const std::string& x) { return std::find(s.begin(), s.end(), x) != s.end(); };
        auto numLine = [&](const std::string& prefix, const std::vector<double>& v, size_t from) { // numbers after '='
            for (size_t k = from; k < s.size(); ++k) { if (s[k].compare(0, prefix.size(), prefix) == 0) { std::vector<std::string> p = split(s[k].substr(prefix.size()), '='); size_t j = 0; bool ok = true; for (size_t a = 0; a < p.size(); ++a) { if (p.size() > 1 && a == 0) { continue; } if (j < v.size() && !sameNum(p[a], v[j])) { ok = false; } ++j; } return ok && j == v.size() ? (long)k : -2L; } }
            return -1L; };
        auto join = [](const std::vector<std::string>& v, const std::string& d) { std::string r; for (size_t k = 0; k < v.size(); ++k) { r += (k ? d : "") + v[k]; } return r; };
        if (fl.count("description") || all) {
            std::vector<std::pair<std::string, std::string> > want = { {"Title: ", m.info.at("title")}, {"Id: ", m.info.at("id")}, {"Description: ", m.info.at("description")}, {"Keywords: ", join(m.keywords, ", ")}, {"History: ", m.info.at("history")}, {"Comment: ", m.info.at("comment")},
                {"Creator: ", m.info.at("creator_name") + ", " + m.info.at("creator_institution") + ", " + m.info.at("creator_email")}, {"Authors: ", join(m.authors, "; ")}, {"Acknowledgement: ", m.info.at("acknowledgement")}, {"Repository: ", m.info.at("repository_name") + " " + m.info.at("repository_url")}, {"DOI: ", m.info.at("repository_doi")}, {"Version: ", m.info.at("version")}, {"License: ", m.info.at("license")} };
            for (auto& w : want) { if (!has(w.first + w.second)) { return "info for " + n + " lacks '" + w.first + w.second + "'"; } }
            for (auto& r : m.references) { if (!has(r)) { return "info for " + n + " lacks reference '" + r + "'"; } }
            if (!m.auxiliary.empty() && body.find(m.auxiliary) == std::string::npos) { return "info for " + n + " lacks the auxiliary information"; }
            if (m.auxiliary.empty() && body.find("Auxiliary") != std::string::npos) { return "info for " + n + " prints auxiliary information the file does not have"; }
            if (numLine("Dimensions of model:", {m.dx, m.dy, m.dz}, 0) < 0) { return "info for " + n + " prints wrong model dimensions"; }
            double cx[4] = {0, m.dx, m.dx, 0}, cy[4] = {0, 0, m.dy, m.dy}; std::string bl; for (auto& x : s) { if (x.compare(0, 12, "Bounding box") == 0) { bl = x; } }
            std::vector<double> bb; { std::string q = bl.substr(bl.find(':') == std::string::npos ? 0 : bl.find(':')); for (auto& ch : q) { if (ch == '(' || ch == ')' || ch == ',' || ch == ':') { ch = ' '; } } bool ok; bb = nums(q, ok); }
            if (bb.size() != 8) { return "info for " + n + " has no bounding box"; }
            for (int k = 0; k < 4; ++k) { double X, Y, Z = 0; fromModelXY(m, cx[k], cy[k], X, Y); Geo::inv("EPSG:4326", m.crs, X, Y, Z); if (fabs(X-bb[2*k]) > 2e-4 || fabs(Y-bb[2*k+1]) > 2e-4) { return "info for " + n + " bounding box corner " + std::to_string(k) + " is wrong: " + bl; } }
        }
        if (fl.count("coordsys") || all) {
            if (!has("CRS (PROJ, EPSG, WKT): " + m.crs)) { return "info for " + n + " lacks the CRS"; }
            const std::string u = m.crs == "EPSG:2227" ? "US survey foot" : "meter"; if (!has("Coordinate system units: x=" + u + ", y=" + u + ", z=meter (assumed)")) { return "info for " + n + " has wrong CRS units"; }
            if (numLine("Origin:", {m.ox, m.oy}, 0) < 0) { return "info for " + n + " prints a wrong origin"; }
            if (numLine("Azimuth (degrees) of y axis from north:", {m.az}, 0) < 0) { return "info for " + n + " prints a wrong azimuth"; }
        }
        if (fl.count("values") || all) { for (size_t k = 0; k < m.values.size(); ++k) { if (!has(std::to_string(k) + ": " + m.values[k] + " (" + m.units[k] + ")")) { return "info for " + n + " lacks value " + m.values[k]; } } if (has(std::to_string(m.values.size()) + ": ")) { return "info prints too many values"; } if (!has("Vertex-based data")) { return "info for " + n + " lacks the layout"; } }
        if (fl.count("blocks") || all) {
            if (!has("Blocks (" + std::to_string(m.blocks.size()) + ")")) { return "info for " + n + " prints a wrong number of blocks"; }
            long pos = 0; for (size_t k = pos; k < s.size(); ++k) { if (s[k].compare(0, 8, "Blocks (") == 0) { pos = k; break; } }
            for (auto& b : m.blocks) {
                long p = -1; for (size_t k = pos; k < s.size(); ++k) { if (s[k] == "Block '" + b.name + "'") { p = k; break; } } if (p < 0) { return "info for " + n + " lacks block " + b.name + " or prints blocks out of order"; } pos = p+1;
                if (!b.x.var && !b.y.var && !b.zvar && numLine("Resolution:", {b.x.res, b.y.res, b.dz}, pos) < 0) { return "info for " + n + " wrong resolution of block " + b.name; }
                if (numLine("Elevation of top of block in logical space:", {b.ztop}, pos) < 0) { return "info for " + n + " wrong top of block " + b.name; }
                if (numLine("Number of points:", {(double)b.x.n, (double)b.y.n, (double)b.nz}, pos) < 0) { return "info for " + n + " wrong number of points of block " + b.name; }
                if (!b.x.var && !b.y.var && !b.zvar && numLine("Dimensions:", {b.x.len(), b.y.len(), b.dz*(b.nz-1)}, pos) < 0) { return "info for " + n + " wrong dimensions of block " + b.name; }
            }
            const SurfSpec* ss[2] = { &m.top, &m.topo }; const char* nn[2] = { "Top surface:", "Topography/bathymetry:" };
            for (int k = 0; k < 2; ++k) { size_t p = 0; for (; p < s.size(); ++p) { if (s[p] == nn[k]) { break; } } if (p + 1 >= s.size()) { return "info for " + n + " lacks section " + nn[k]; } if (!ss[k]->present) { if (s[p+1] != "None") { return "info for " + n + " prints a surface the file does not have"; } } else { if (numLine("Number of points:", {(double)ss[k]->x.n, (double)ss[k]->y.n}, p) != (long)p+1) { return std::string("info for ") + n + " wrong number of points for " + nn[k]; } if (!ss[k]->x.var && !ss[k]->y.var && numLine("Resolution:", {ss[k]->x.res, ss[k]->y.res}, p) != (long)p+2) { return std::string("info for ") + n + " wrong resolution for " + nn[k]; } } }
        }
        if (fl.count("verify") || all) { std::string e = checkVerify(m, s); if (!e.empty()) { return "info for " + n + ": " + e; } }
    }
    if (anyUnread && rc == 0) { return "info exits 0 although a file could not be read"; }
    if (rc != 0 && !anyUnread && !faulted) { bool bad = false; for (auto& n : files) { if (!W.models[n]->valid()) { bad = true; } } if (!bad) { return "info exits " + std::to_string(rc) + " on readable valid files"; } }
    return "";
}
