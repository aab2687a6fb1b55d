// Scenario generators: a scenario is a pure function of (property, mode, seed).
struct Gen {
    Rng r; std::ostringstream o; std::map<std::string, ModelSpec> m; std::string prop, mode; bool havePrev = false; double px = 0, py = 0, pz = 0; std::string pm;
    Gen(const std::string& p, const std::string& md, uint64_t seed) : r(hmix(seed, std::hash<std::string>()(p + "/" + md))), prop(p), mode(md) { o << "scenario " << p << " " << md << " " << seed << "\n"; }
    void line(const std::string& s) { o << s << "\n"; }
    std::string S(int i) { return std::to_string(i); }
    ModelSpec& model(const std::string& name, const std::string& kv) {
        uint64_t seed = r.next() % 1000000007ULL; line("model " + name + " " + std::to_string(seed) + (kv.empty() ? "" : " " + kv));
        std::vector<std::string> t; { std::istringstream in(kv); std::string s; while (in >> s) { t.push_back(s); } }
        m[name] = genModel(name, seed, parseKV(t, 0)); return m[name];
    }
    double nodeOn(const Axis& a) { return a.at(r.i(0, a.n-1)); }
    // a point in model space: interior, grid nodes, boundary, block interface, outside, near the previous one
    void pt(const std::string& mn, double& x, double& y, double& z, bool surf = false) {
        const ModelSpec& s = m[mn]; const BlockSpec& b = s.blocks[r.next() % s.blocks.size()]; int c = r.i(0, 99);
        x = r.u(0, s.dx); y = r.u(0, s.dy); z = -r.u(0, s.dz);
        if (c < 40) { }
        else if (c < 60) {
            const SurfSpec& u = s.topo.present && r.p(0.5) ? s.topo : s.top;
            if ((surf || r.p(0.2)) && u.present) { x = nodeOn(u.x); y = nodeOn(u.y); } else { x = nodeOn(b.x); y = nodeOn(b.y); }
            if (r.p(0.6)) { z = b.z(r.i(0, b.nz-1)); }
        } else if (c < 72) { int q = r.i(0, 5); if (q & 1) { x = r.p(0.5) ? 0 : s.dx; } if (q & 2) { y = r.p(0.5) ? 0 : s.dy; } if (q >= 4 || q == 0) { z = r.p(0.5) ? 0 : -s.dz; } }
        else if (c < 77) { z = b.ztop + (r.p(0.5) ? 0 : r.u(-1e-3, 1e-3)); }
        else if (c < 87) { int q = r.i(0, 5); if (q == 0) { x = -r.u(1, s.dx); } else if (q == 1) { x = s.dx + r.u(1, s.dx); } else if (q == 2) { y = -r.u(1, s.dy); } else if (q == 3) { y = s.dy + r.u(1, s.dy); } else if (q == 4) { z = r.u(1, 3000); } else { z = -s.dz - r.u(1, 5000); } }
        else if (havePrev && pm == mn) { x = px + r.u(-0.02, 0.02)*s.dx; y = py + r.u(-0.02, 0.02)*s.dy; z = pz + r.u(-0.02, 0.02)*s.dz; x = std::min(s.dx, std::max(0.0, x)); y = std::min(s.dy, std::max(0.0, y)); }
        if (s.sliver > 0 && r.p(0.4)) { z = r.p(0.7) ? b.ztop + s.sliver*r.u(-0.3, 1.3) : -s.dz + s.sliver*r.u(0.05, 0.85); z = std::min(z, -1e-3); }
        px = x; py = y; pz = z; pm = mn; havePrev = true;
    }
    void q(const std::string& h, const std::string& mn) {
        double x, y, z; pt(mn, x, y, z);
        if (r.p(0.12)) { line("q " + h + " " + mn + " " + fmt(x) + " " + fmt(y) + " E " + fmt(r.p(0.3) ? r.u(-50, 2500) : r.u(-m[mn].dz, 1000))); }
        else { line("q " + h + " " + mn + " " + fmt(x) + " " + fmt(y) + " L " + fmt(z)); }
    }
    void again(const std::string& h) { if (havePrev) { line("q " + h + " " + pm + " " + fmt(px) + " " + fmt(py) + " L " + fmt(pz)); } }
    void e(const std::string& h, const std::string& mn) { double x, y, z; pt(mn, x, y, z, true); line(std::string(r.p(0.5) ? "top " : "topo ") + h + " " + mn + " " + fmt(x) + " " + fmt(y)); }
    std::string mixCase(std::string s) { int c = r.i(0, 3); for (auto& ch : s) { if (c == 1) { ch = toupper(ch); } else if (c == 2) { ch = tolower(ch); } } return s; }
    std::string someValues(const ModelSpec& s) { std::vector<std::string> v = s.values; for (size_t i = v.size()-1; i > 0; --i) { std::swap(v[i], v[r.next() % (i+1)]); } int n = r.i(1, v.size()); std::string o; for (int i = 0; i < n; ++i) { o += (i ? "," : "") + mixCase(v[i]); } if (r.p(0.05)) { o += "," + v[0]; } return o; }
    std::string crs() { return r.p(0.4) ? "geo" : r.p(0.67) ? "model" : r.pick(std::vector<std::string>{"geo3", "nad", "xy", "pj", "utm", "ft", "vft", "wkt"}); }
    void init(const std::string& h, const std::string& api, const std::string& ms, const std::string& first) {
        std::string s = "init " + h + " models=" + ms + " values=" + (r.p(0.04) ? "-" : someValues(m[first])) + " crs=" + crs();
        if (api == "m" && r.p(0.7)) { s += " window=" + S(r.i(1, 12)) + "x" + S(r.i(1, 12)) + "x" + S(r.i(1, 6)); }
        line(s);
    }
    std::string api(bool withM = true) { int c = r.i(0, withM ? 9 : 7); return c < 4 ? "cpp" : c < 8 ? "c" : "m"; }
    void benign() {
        if (mode != "benign") { return; }
        if (r.p(0.8)) { line("fault op=read file=.h5 from=" + S(r.i(0, 3)) + " n=" + (r.p(0.5) ? "-1" : S(r.i(1, 9))) + " act=short:" + S(r.p(0.3) ? 1 : r.i(2, 3000))); }
        if (r.p(0.6)) { line("fault op=read file=.h5 from=" + S(r.i(0, 3)) + " n=" + S(r.i(1, 5)) + " act=eintr"); }
        if (r.p(0.4)) { line("fault op=read file=.h5 from=0 n=-1 act=delay:" + S(r.i(1, 500))); }
    }
    std::string readFault() { // a failing read
        static const std::vector<std::string> acts = {"eio", "eio", "eio", "enomem", "short:0"};
        int from = r.p(0.5) ? 0 : r.p(0.7) ? r.i(0, 3) : r.i(0, 12);
        return "fault op=read file=.h5 from=" + S(from) + " n=" + (r.p(0.5) ? "1" : r.p(0.6) ? S(r.i(1, 4)) : "-1") + " act=" + std::string(r.p(0.9) ? "eio" : "enomem");
    }
    std::string anyFault(int maxFrom) {
        int c = r.i(0, 9);
        if (c < 5) { return "fault op=read file=.h5 from=" + S(r.i(0, maxFrom)) + " n=" + (r.p(0.6) ? "1" : r.p(0.5) ? S(r.i(2, 5)) : "-1") + " act=eio"; }
        if (c < 7) { return "fault op=alloc from=" + S(r.p(0.5) ? r.i(0, 40) : r.i(0, 600)) + " n=1 act=badalloc"; }
        if (c == 7) { return "fault op=open file=.h5 from=" + S(r.i(0, 2)) + " n=1 act=" + (r.p(0.5) ? "eacces" : "emfile"); }
        if (c == 8) { return "fault op=fstat file=.h5 from=" + S(r.i(0, 2)) + " n=1 act=eio"; }
        return "fault op=close file=.h5 from=" + S(r.i(0, 2)) + " n=1 act=eio";
    }
    // model file with a damaged block or surface
    std::string gridDamage(const std::string& name) {
        std::string opt; if (r.p(0.6)) { opt = " vx=1 vz=1 vs=1"; } KV kv; if (!opt.empty()) { kv = {{"vx","1"},{"vz","1"},{"vs","1"}}; }
        uint64_t seed = r.next() % 1000000007ULL; ModelSpec s = genModel(name, seed, kv); m[name] = s; std::string path; const Axis* ax; const BlockSpec* b = nullptr; int w;
        std::vector<std::string> sf; if (s.top.present) { sf.push_back("top_surface"); } if (s.topo.present) { sf.push_back("topography_bathymetry"); }
        if (!sf.empty() && r.p(0.35)) { path = r.pick(sf); const SurfSpec& u = path == "top_surface" ? s.top : s.topo; path = "surfaces/" + path; w = r.i(0, 1); ax = w ? &u.y : &u.x; }
        else { b = &s.blocks[r.next() % s.blocks.size()]; path = "blocks/" + b->name; w = r.i(0, 2); ax = w == 1 ? &b->y : &b->x; }
        bool var = w == 2 ? b->zvar : ax->var; std::string an(1, "xyz"[w]); int c = r.i(0, 9);
        if (r.p(0.4)) {
            int k = r.i(0, 3); const std::string at = path + ":" + an + (var ? "_coordinates" : "_resolution");
            if (k == 0) { opt += std::string(" bad=") + (r.p(0.6) ? "one:" : "none:") + path + ":" + an; }
            else if (k == 1) { opt += " bad=nan:" + at; }
            else if (k == 2) { opt += std::string(" bad=") + (var ? "scal:" : "arr:") + at; }
            else { opt += std::string(" bad=") + (var ? "nan:" : r.p(0.5) ? "zero:" : r.p(0.5) ? "neg:" : "str:") + at; }
        }
        else if (c < 2) { opt += " badrank=" + path; } else if (var && c < 6) { opt += " baddims=" + path + ":" + an; if (r.p(0.5)) { opt += " badlong=1"; } }
        else { opt += " drop=" + path + ":" + (w == 2 && !var && r.p(0.3) ? "z_top" : an + (var ? "_coordinates" : "_resolution")); }
        return "model " + name + " " + std::to_string(seed) + opt;
    }
    // wrong type or shape of an attribute of the model
    std::string attrDamage() {
        static const std::vector<std::string> nums = {"origin_x", "origin_y", "y_azimuth", "dim_x", "dim_y", "dim_z"};
        static const std::vector<std::string> strs = {"title", "id", "description", "history", "creator_name", "creator_email", "creator_institution", "acknowledgement", "repository_name", "repository_url", "repository_doi", "license", "version", "crs", "data_layout"};
        int c = r.i(0, 7); if (c > 5) { return std::string("bad=") + (r.p(0.5) ? "num:/:" : "arr:/:") + r.pick(strs); } if (c < 3) { return std::string("bad=") + (r.p(0.5) ? "str:/:" : "arr:/:") + r.pick(nums); }
        if (c == 3) { return "bad=extra:/:data_values"; }
        if (c == 4) { return std::string("bad=scal:/:") + (r.p(0.5) ? "data_values" : "data_units"); }
        return std::string("bad=num:/:") + (r.p(0.5) ? "crs" : "data_layout");
    }
    // models laid out to overlap
    std::vector<std::string> overlapping(int n, const std::string& values, bool oddUnits = false, bool missing = false) {
        std::vector<std::string> names; int crs = r.i(0, 2); std::string common = "crs=" + S(crs);
        for (int i = 0; i < n; ++i) {
            std::string nm(1, char('a'+i)); std::string kv = common;
            if (!values.empty()) { std::string v = values; std::vector<std::string> vs = split(values, ','); for (size_t k = vs.size()-1; k > 0; --k) { std::swap(vs[k], vs[r.next() % (k+1)]); } if (missing && i == n-1) { vs.pop_back(); } if (vs.empty()) { vs.push_back("zone_id"); } v = ""; for (size_t k = 0; k < vs.size(); ++k) { v += (k ? "," : "") + mixCase(vs[k]); } kv += " values=" + v; }
            if (oddUnits && i == n-1) { kv += " unit0=km/s"; }
            if (i > 0) { const ModelSpec& a = m["a"]; if (r.p(0.25)) { // same place, other coordinate system
                static const char* crss[3] = {"EPSG:26910", "EPSG:3311", "EPSG:2227"}; const int k = r.i(0, 2); double X, Y, Z = 0; fromModelXY(a, r.u(-0.6, 0.6)*a.dx, r.u(-0.6, 0.6)*a.dy, X, Y); Geo::fwd(a.crs, crss[k], X, Y, Z);
                if (std::isfinite(X) && std::isfinite(Y)) { kv.replace(kv.find(common), common.size(), "crs=" + S(k == 2 ? 3 : k)); kv += " ox=" + fmt(std::floor(X)) + " oy=" + fmt(std::floor(Y)); }
            } else if (r.p(0.8)) { kv += " ox=" + fmt(std::floor(a.ox + r.u(-0.7, 0.7)*a.dx)) + " oy=" + fmt(std::floor(a.oy + r.u(-0.7, 0.7)*a.dy)); } if (r.p(0.3)) { kv += " az=" + fmt(a.az); } }
            model(nm, kv); names.push_back(nm);
        }
        return names;
    }
    static std::string join(const std::vector<std::string>& v) { std::string s; for (auto& x : v) { s += (s.empty() ? "" : ",") + x; } return s; }
};

static std::string generate(const std::string& prop, const std::string& mode, uint64_t seed) {
    Gen g(prop, mode, seed); Rng& r = g.r; auto S = [](int i) { return std::to_string(i); };
    const bool hard = mode == "faults";
    if (prop == "C01" || prop == "C02") {
        const bool c2 = prop == "C02"; std::string kv; if (r.p(c2 ? 0.15 : 0.2)) { kv = "big=1"; } if (c2 && r.p(0.8)) { kv += std::string(kv.empty() ? "" : " ") + "surf=" + r.pick(std::vector<std::string>{"top", "both", "both", "topo"}); } if (!c2 && r.p(0.3)) { kv += std::string(kv.empty() ? "" : " ") + "nodata=" + fmt(r.u(0, 0.1)); }
        if (!c2 && r.p(0.08)) { kv += std::string(kv.empty() ? "" : " ") + "nb=" + S(r.i(1, 3)) + " sliver=" + fmt(r.pick(std::vector<double>{1e-5, 5e-5, 8e-5})) + (r.p(0.5) ? " slivbot=1" : ""); }
        if (c2 && r.p(0.25)) { g.overlapping(2, "Vp,Vs"); } else { g.model("a", kv); }
        std::vector<std::string> names; for (auto& k : g.m) { names.push_back(k.first); }
        std::string a = names.size() > 1 ? g.api(false) : g.api(); g.line("new h " + a); g.init("h", a, Gen::join(names), "a"); g.benign();
        int n = r.i(20, 60); const double pe = c2 ? 0.75 : 0.08;
        for (int i = 0; i < n; ++i) { const std::string& mn = r.pick(names); if (r.p(0.04)) { g.line("scan h " + mn + " " + S(r.i(0, 1 << 30)) + " " + S(r.i(20, 80))); } else if (r.p(pe)) { g.e("h", mn); } else { g.q("h", mn); } if (r.p(0.02)) { g.line("fin h"); g.line("reset h"); g.init("h", a, Gen::join(names), "a"); } }
    } else if (prop == "C03") {
        int n = r.i(2, 4); int bad = r.i(0, 9); std::string vals = r.pick(std::vector<std::string>{"Vp,Vs", "density,Vp,Vs", "Vp,Vs,Qp,Qs", "zone_id,Vs"});
        auto names = g.overlapping(n, vals, bad == 0, bad == 1); for (size_t i = names.size()-1; i > 0; --i) { std::swap(names[i], names[r.next() % (i+1)]); }
        std::string a = g.api(false); g.line("new h " + a); g.init("h", a, Gen::join(names), names[0]);
        g.benign();
        for (int k = 0, K = r.i(20, 50); k < K; ++k) { const std::string& mn = r.pick(names); if (r.p(0.12)) { g.e("h", mn); } else { g.q("h", mn); } if (r.p(0.02)) { g.line("reset h"); g.line("fin h"); std::swap(names[0], names[r.next() % names.size()]); g.init("h", a, Gen::join(names), names[0]); } }
    } else if (prop == "C04") {
        bool multi = r.p(0.3); std::vector<std::string> names; if (multi) { names = g.overlapping(2, "Vp,Vs"); } else { g.model("a", r.p(0.8) ? "surf=" + r.pick(std::vector<std::string>{"both", "both", "top", "topo"}) : ""); names.push_back("a"); }
        std::string a = g.api(false); g.line("new h " + a);
        if (r.p(0.3)) { g.line("squash h " + S(r.i(1, 2))); g.line("squashmin h " + fmt(-r.u(100, 6000))); }
        g.init("h", a, Gen::join(names), names[0]); g.benign(); bool floorSet = false;
        for (int k = 0, K = r.i(25, 60); k < K; ++k) {
            int c = r.i(0, 9); const std::string& mn = r.pick(names);
            if (c == 0) { int v = r.i(0, 2); if (v && !floorSet) { g.line("squashmin h " + fmt(-std::floor(r.u(100, 8000)))); floorSet = true; } g.line("squash h " + S(v)); }
            else if (c == 1) { g.line("squashmin h " + fmt(r.p(0.5) ? -std::floor(r.u(50, 9000)) : -10.0e3)); floorSet = true; }
            else if (c == 2) { g.e("h", mn); }
            else { double x, y, z; g.pt(mn, x, y, z); double E = r.p(0.7) ? -r.u(0, 9000) : r.u(-200, 2500); if (r.p(0.05)) { E = 0; } g.line("q h " + mn + " " + fmt(x) + " " + fmt(y) + " E " + fmt(E)); if (r.p(0.15)) { if (!floorSet) { g.line("squashmin h -5000"); floorSet = true; } g.line("squash h " + S(r.i(0, 2))); g.line("q h " + mn + " " + fmt(x) + " " + fmt(y) + " E " + fmt(E)); } }
            if (hard && r.p(0.1)) { g.line(g.readFault()); for (int j = r.i(1, 3); j > 0; --j) { g.q("h", mn); } g.line("heal"); g.line("reset h"); }
        }
    } else if (prop == "C05") {
        std::vector<std::string> names; if (r.p(0.25)) { names = g.overlapping(2, "Vp,Vs"); } else { std::string kv; if (r.p(0.4)) { kv = "big=1"; } g.model("a", kv); names.push_back("a"); }
        std::string a = names.size() > 1 ? g.api(false) : g.api(); if (names.size() == 1 && r.p(0.25)) { a = "m"; }
        g.line("new h " + a);
        if (a == "m") { g.line("init h models=a values=- crs=" + g.crs() + " window=" + S(r.i(1, 8)) + "x" + S(r.i(1, 8)) + "x" + S(r.i(1, 4))); } else { g.init("h", a, Gen::join(names), names[0]); }
        g.benign();
        for (int k = 0, K = r.i(6, 16); k < K; ++k) {
            const std::string& mn = r.pick(names);
            for (int j = r.i(0, 3); j > 0; --j) { if (r.p(0.2)) { g.e("h", mn); } else { g.q("h", mn); } }
            if (hard) {
                if (r.p(0.12)) { g.line("fault op=alloc from=" + S(r.i(0, 30)) + " n=1 act=badalloc"); } else { g.line(g.readFault()); }
                for (int j = r.i(1, 3); j > 0; --j) { if (r.p(0.25)) { g.e("h", mn); } else { g.q("h", mn); } if (r.p(0.2)) { g.again("h"); } }
                g.line("heal"); g.line("reset h");
                for (int j = r.i(1, 2); j > 0; --j) { g.again("h"); }
            }
            if (r.p(0.5)) { g.e("h", mn); }
        }
    } else if (prop == "C06") {
        int n = r.i(1, 3); std::string kvd; auto names = n > 1 ? g.overlapping(n, "Vp,Vs") : std::vector<std::string>{"a"}; if (n == 1) { g.model("a", ""); }
        std::string bad = "";
        static const std::vector<std::string> attrs = {"data_values", "data_units", "data_layout", "crs", "origin_x", "origin_y", "y_azimuth", "dim_x", "dim_y", "dim_z"};
        auto attrD = [&]() { return g.attrDamage(); };
        auto badModel = [&]() {
            int c = r.i(0, 5); std::string kv;
            if (c == 5) { kv = attrD(); }
            else if (c < 2) { kv = "drop=/:" + r.pick(attrs); }
            else if (c == 2) { ModelSpec& t = g.m["a"]; (void)t; uint64_t seed = r.next() % 1000000007ULL; ModelSpec s = genModel("x", seed, {}); const BlockSpec& b = s.blocks[r.next() % s.blocks.size()]; std::string at; int w = r.i(0, 2); at = w == 0 ? (b.x.var ? "x_coordinates" : "x_resolution") : w == 1 ? (b.y.var ? "y_coordinates" : "y_resolution") : (b.zvar ? "z_coordinates" : r.p(0.5) ? "z_resolution" : "z_top"); std::string path = "blocks/" + b.name; if (s.top.present && r.p(0.3)) { path = "surfaces/top_surface"; at = s.top.x.var ? "x_coordinates" : "x_resolution"; } g.line("model x " + std::to_string(seed) + " drop=" + path + ":" + at); g.m["x"] = s; return; }
            else if (c == 3) { kv = r.p(0.3) ? "shortunits=1" : r.p(0.5) ? "dropgroup=blocks" : r.p(0.5) ? "badlayout=cells" : "badcrs=EPSG:999999"; }
            else { g.line(g.gridDamage("x")); return; }
            g.model("x", kv);
        };
        std::string a = g.api(); if (a == "m" && n > 1) { a = "cpp"; }
        if (r.p(0.12)) { // blocks that do not cover the domain
            g.model("u", "nb=" + S(r.i(2, 3)) + " zshift=" + fmt(r.pick(std::vector<double>{-40, 40, -7.5, -300, 300})) + (r.p(0.3) ? " deeper=1.25" : "")); g.line("new hu " + (r.p(0.5) ? a : "c")); g.line("init hu models=u values=" + (r.p(0.5) && a != "m" ? g.someValues(g.m["u"]) : std::string("-")) + " crs=" + g.crs());
            for (int j = r.i(2, 8); j > 0; --j) { const ModelSpec& u = g.m["u"]; double x, y, z; g.pt("u", x, y, z); if (r.p(0.6)) { z = u.blocks[1].ztop + r.u(-50, 50); } if (r.p(0.2)) { z = -u.dz*r.u(0.79, 1); } g.line("q hu u " + fmt(x) + " " + fmt(y) + " L " + fmt(z)); }
            g.line("del hu");
        }
        g.line("new h " + a);
        for (int k = 0, K = r.i(1, 3); k < K; ++k) {
            std::string list = Gen::join(names); int c = r.i(0, 7); std::string crs = g.crs(), vals = a == "m" ? "-" : g.someValues(g.m[names[0]]); bool undo = false; std::string damaged;
            if (hard && c < 5) { g.line(g.anyFault(r.p(0.5) ? 10 : 60)); }
            else if (c == 5) { badModel(); list += ",x"; if (r.p(0.3)) { list = "x"; } if (a == "m") { list = "x"; } }
            else if (c == 6) { damaged = r.pick(names); int w = r.i(0, 2); g.line(w == 0 ? "truncate " + damaged + " " + fmt(r.u(0, 0.999)) : w == 1 ? "garbage " + damaged : "unlink " + damaged); undo = true; }
            else if (c == 7) { if (a == "m") { list = "nope"; } else if (r.p(0.5)) { list += ",nope"; } else if (r.p(0.5)) { vals += ",no_such_value"; } else { crs = "bad"; } }
            g.line("init h models=" + list + " values=" + vals + " crs=" + crs);
            for (int j = r.i(0, 3); j > 0; --j) { if (r.p(0.25)) { g.e("h", names[0]); } else { g.q("h", names[0]); } }
            g.line("heal"); g.line("reset h"); if (r.p(0.3)) { g.line("fin h"); }
            if (undo) { if (r.p(0.5)) { g.line("del h"); g.line("new h " + a); } g.line("fin h"); g.line("restore " + damaged); }
            if (r.p(0.2)) { g.line("del h"); g.line("new h " + a); }
            g.line("init h models=" + Gen::join(names) + " values=" + (a == "m" ? "-" : g.someValues(g.m[names[0]])) + " crs=" + g.crs());
            for (int j = r.i(1, 5); j > 0; --j) { if (r.p(0.25)) { g.e("h", r.pick(names)); } else { g.q("h", r.pick(names)); } }
            g.line("fin h");
        }
    } else if (prop == "C07") {
        auto names = r.p(0.4) ? g.overlapping(2, "Vp,Vs") : std::vector<std::string>{"a"}; if (names.size() == 1) { g.model("a", r.p(0.3) ? "surf=none" : ""); }
        int nh = r.i(1, 2); int lf = 0; std::vector<std::string> hs;
        for (int k = 0; k < nh; ++k) { std::string h = "h" + S(k); hs.push_back(h); g.line("new " + h + " c"); if (r.p(0.6)) { g.line("logfile " + h + " l" + S(lf++) + ".log"); } g.init(h, "c", Gen::join(names), names[0]); }
        g.benign();
        for (int k = 0, K = r.i(20, 45); k < K; ++k) {
            const std::string& h = r.pick(hs); const std::string& mn = r.pick(names); int c = r.i(0, 19);
            if (c == 0) { g.line("logfile " + h + " l" + S(r.p(0.5) || !lf ? lf++ : r.i(0, lf-1)) + ".log"); }
            else if (c <= 2) { g.line("logging " + h + " " + S(r.i(0, 1))); }
            else if (c <= 5) { g.line("reset " + h); }
            else if (c == 6) { g.line("status " + h); }
            else if (c == 7) { g.line("squash " + h + " 0"); }
            else if (c <= 11) { double x, y, z; g.pt(mn, x, y, z); const ModelSpec& s = g.m[mn]; x = s.dx*r.u(1.1, 2); if (r.p(0.3)) { g.line("top " + h + " " + mn + " " + fmt(x) + " " + fmt(y)); } else { g.line("q " + h + " " + mn + " " + fmt(x) + " " + fmt(y) + " L " + fmt(z)); } }
            else if (c == 12) { g.e(h, mn); }
            else if (c <= 14 && hard) {
                if (r.p(0.4)) { g.line("fault op=" + std::string(r.p(0.7) ? "write" : "open") + " file=.log from=" + S(r.i(0, 3)) + " n=" + (r.p(0.5) ? "1" : "-1") + " act=" + (r.p(0.5) ? "enospc" : "eio")); }
                else { g.line(g.readFault()); }
                for (int j = r.i(1, 3); j > 0; --j) { g.q(h, mn); }
                g.line("heal");
            } else { g.q(h, mn); }
            if (r.p(0.02)) { g.line("fin " + h); g.line("reset " + h); g.init(h, "c", Gen::join(names), names[0]); }
        }
    } else if (prop == "C08") {
        auto names = g.overlapping(r.i(1, 3), "Vp,Vs"); int nh = r.i(2, 4); std::vector<std::string> hs; std::map<std::string, std::string> api; int lf = 0;
        auto mk = [&](const std::string& h) { std::string a = g.api(); api[h] = a; g.line("new " + h + " " + a); if (a == "c" && r.p(0.4)) { g.line("logfile " + h + " l" + S(lf++) + ".log"); } };
        auto in = [&](const std::string& h) { std::vector<std::string> sub; for (auto& n : names) { if (r.p(0.6)) { sub.push_back(n); } } if (sub.empty()) { sub.push_back(names[0]); } if (api[h] == "m") { sub.resize(1); } g.line("reset " + h); g.init(h, api[h], Gen::join(sub), sub[0]); };
        for (int k = 0; k < nh; ++k) { std::string h = "h" + S(k); hs.push_back(h); mk(h); if (r.p(0.8)) { in(h); } }
        g.benign();
        for (int k = 0, K = r.i(30, 70); k < K; ++k) {
            const std::string& h = r.pick(hs); const std::string& mn = r.pick(names); int c = r.i(0, 19);
            if (c == 0) { g.line("fin " + h); if (r.p(0.6)) { in(h); } }
            else if (c == 1) { g.line("del " + h); mk(h); if (r.p(0.7)) { in(h); } }
            else if (c == 2) { in(h); }
            else if (c == 3 && api[h] != "m") { g.line("squashmin " + h + " " + fmt(-std::floor(r.u(100, 5000)))); g.line("squash " + h + " " + S(r.i(0, 2))); }
            else if (c == 4) { g.e(h, mn); }
            else if (c == 5 && hard) { g.line(r.p(0.7) ? g.readFault() : g.anyFault(8)); if (r.p(0.4)) { in(h); } for (int j = r.i(1, 3); j > 0; --j) { g.q(r.pick(hs), mn); } g.line("heal"); for (auto& x : hs) { if (api[x] == "c") { g.line("reset " + x); } } }
            else if (c == 6) { g.line("init " + h + " models=nope values=Vp crs=model"); g.line("reset " + h); if (r.p(0.7)) { g.line("fin " + h); in(h); } }
            else { g.q(h, mn); }
        }
    } else if (prop == "C09" || prop == "C10" || prop == "C11" || prop == "C12" || prop == "C13") {
        auto names = r.p(0.4) ? g.overlapping(r.i(2, 3), "Vp,Vs") : std::vector<std::string>{"a"}; if (names.size() == 1 && prop != "C12") { g.model("a", prop == "C13" ? "" : r.p(0.7) ? "values=density,Vp,Vs" : ""); }
        const ModelSpec* A = g.m.count("a") ? &g.m["a"] : nullptr; std::string app = prop == "C09" ? "query" : prop == "C10" ? "queryelev" : prop == "C11" ? "borehole" : prop == "C12" ? "isosurface" : "info";
        std::string cr = g.crs(); if (cr == "model") { cr = "@" + names[0]; } std::string fout = "out.txt", line;
        for (int rep = 0, R = r.p(0.3) ? 2 : 1; rep < R; ++rep) {
            bool badIn = r.p(0.2); bool bigOut = r.p(0.25);
            if (prop == "C09" || prop == "C10") {
                int n = bigOut ? r.i(150, 500) : r.p(0.1) ? 1 : r.i(2, 40);
                std::string p = "points pts.txt " + r.pick(names) + " " + S(r.i(0, 1 << 30)) + " " + S(n) + " cols=" + (prop == "C09" ? "3" : "2") + " crs=" + cr + " trail=" + (r.p(0.3) ? "0" : "1") + " style=" + S(r.i(0, 2));
                if (badIn && r.p(0.7)) { p += " bad=" + r.pick(std::vector<std::string>{"word", "nan", "short"}); }
                g.line(p); line = "app " + app + " models=" + Gen::join(names) + " points=pts.txt out=out.txt crs=" + cr;
                if (prop == "C09") { std::string v = names.size() > 1 ? (r.p(0.5) ? "Vp,Vs" : "vs") : g.someValues(*A); if (badIn && r.p(0.2)) { v += ",nope"; } line += " values=" + v; if (r.p(0.35)) { line += " squash=" + std::string(r.p(0.5) ? "top_surface" : "topography_bathymetry"); if (r.p(0.5)) { line += " floor=" + S(-r.i(200, 7000)); } } }
                else if (r.p(0.8)) { line += std::string(" surface=") + (r.p(0.5) ? "top_surface" : "topography_bathymetry"); }
                if (r.p(0.3)) { line += " log=app.log"; }
            } else if (prop == "C11") {
                const std::string mn = r.pick(names); double x, y, z; g.pt(mn, x, y, z); if (!badIn) { x = std::min(std::max(x, 1.0), g.m[mn].dx - 1); y = std::min(std::max(y, 1.0), g.m[mn].dy-1); }
                int n = bigOut ? r.i(100, 250) : r.i(1, 12); double md = g.m[mn].dz*(r.p(0.25) ? r.u(0.95, 1.5) : r.u(0.2, 0.95)); double dz; std::string mds, dzs; if (r.p(0.6)) { dz = std::max(1.0, std::floor(md/n)); dzs = S((int)dz); mds = S((int)dz*n); if (r.p(0.3)) { dzs = S((int)dz/10) + "." + S(r.i(1, 9)); double q = atof(dzs.c_str()); if (q < 0.5) { q = 0.5; dzs = "0.5"; } char b[40]; snprintf(b, sizeof(b), "%.1f", q*std::min(250, n*5)); mds = b; } } else { mds = fmt(std::floor(md)); dzs = fmt(std::floor(10*md/(n+0.37))/10); }
                line = "app borehole models=" + Gen::join(names) + " out=out.txt crs=" + cr + " at=" + mn + ":" + fmt(x) + ":" + fmt(y) + " values=" + (names.size() > 1 ? "Vs,Vp" : g.someValues(*A)) + " maxdepth=" + mds + " dz=" + dzs; if (r.p(0.3)) { line += " log=app.log"; }
            } else if (prop == "C12") {
                bool mono = r.p(0.5); if (rep == 0) { if (names.size() == 1) { g.model("a", std::string("values=Vp,Vs dtype=1 nodata=0") + (mono ? " mono=1" : "")); } }
                else { mono = false; }
                A = &g.m["a"]; const ModelSpec& M = *A; mono = mono && names.size() == 1;
                double cx, cy, cz = 0; fromModelXY(M, M.dx*r.u(0.3, 0.7), M.dy*r.u(0.3, 0.7), cx, cy); if (cr[0] != '@') { Geo::inv(crsString(cr, M.crs), M.crs, cx, cy, cz); } if (crsLatFirst(cr)) { std::swap(cx, cy); }
                const double unit = crsDegrees(cr) ? 1e-5 : 1.0; double w = std::min(M.dx, M.dy)*r.u(0.1, r.p(0.8) ? 0.4 : 1.5); int nx = r.i(1, 5), ny = r.i(1, 5); double hres = std::max(1.0, std::floor(w/std::max(nx, ny)));
                double x0 = std::floor(cx/unit - 0.5*nx*hres), y0 = std::floor(cy/unit - 0.5*ny*hres), x1 = x0 + nx*hres, y1 = y0 + ny*hres; if (r.p(0.25)) { x1 += std::floor(r.u(-0.4, 0.4)*hres); y1 += std::floor(r.u(-0.4, 0.4)*hres); }
                if (r.p(0.03)) { if (r.p(0.5)) { std::swap(x0, x1); } else { std::swap(y0, y1); } }
                auto n2 = [&](double v) { if (unit == 1.0) { return fmt(v); } char b[40]; snprintf(b, sizeof(b), "%.5f", v*unit); return std::string(b); }; if (crsLatFirst(cr)) { std::swap(x0, y0); std::swap(x1, y1); }
                double md = std::floor(M.dz*r.u(0.3, 0.85)); double vres = r.pick(std::vector<double>{0.1, 1, 1, 5, 5, 20, 50}); if (vres > md/4) { vres = 1; } if (r.p(0.05)) { vres = r.p(0.5) ? md : md*2; }
                std::string iso = "Vs:" + S(r.i(1200, 6000)); if (r.p(0.5)) { iso += ";Vp:" + S(r.i(1200, 6000)); }
                line = "app isosurface models=" + Gen::join(names) + " out=iso.tif crs=" + cr + " bbox=" + n2(x0) + ":" + n2(x1) + ":" + n2(y0) + ":" + n2(y1) + " hres=" + n2(hres) + " vres=" + fmt(vres) + " maxdepth=" + fmt(md) + " iso=" + iso; fout = "iso.tif";
                if (r.p(0.5)) { line += " nsearch=" + S(r.p(0.3) ? r.i(2, 4) : r.i(4, 14)); } if (r.p(0.4)) { line += " deep=1"; } if (r.p(0.7)) { line += std::string(" ref=") + (r.p(0.5) ? "top_surface" : "topography_bathymetry"); } if (mono) { line += " mono=1"; } if (r.p(0.3)) { line += " log=app.log"; }
            } else {
                std::vector<std::string> list = names; std::vector<std::string> flags; for (auto f : {"description", "blocks", "values", "coordsys", "verify"}) { if (r.p(0.45)) { flags.push_back(f); } } if (flags.empty() || r.p(0.4)) { flags = {"all"}; }
                if (badIn || r.p(0.3)) { static const std::vector<std::string> attrs = {"title", "id", "description", "keywords", "history", "comment", "creator_name", "creator_email", "creator_institution", "authors", "references", "acknowledgement", "repository_name", "repository_url", "repository_doi", "license", "version", "data_values", "data_units", "crs", "origin_x", "origin_y", "y_azimuth", "dim_x", "dim_y", "dim_z", "data_layout"}; int c = r.i(0, 11); if (c > 9) { c = 7; } if (c < 5) { std::string d = "drop=/:" + r.pick(attrs); if (r.p(0.3)) { d += ",/:" + r.pick(attrs); } g.model("x", d); } else if (c == 5) { g.model("x", r.p(0.5) ? "dropgroup=blocks" : g.attrDamage()); } else if (c == 6) { g.model("x", "badcrs=EPSG:999999"); } else if (c == 7 && r.p(0.5)) { g.model("x", "nb=" + S(r.i(2, 3)) + " zshift=" + r.pick(std::vector<std::string>{"0.001", "-0.001", "40", "-40", "1", "-7.5"})); } else if (c == 7 && r.p(0.7)) { std::string o = r.p(0.7) ? "surf=both sametopo=1 vs=0" : "surf=top"; for (auto k : {"toporx", "topory", "bresx", "bresy", "toprx", "topry"}) { if (r.p(0.25)) { o += std::string(" ") + k + "=" + r.pick(std::vector<std::string>{"1.00005", "1.0003", "0.998", "1.02", "0.95", "1.3", "1.0000005", "0.999998", "2"}); } } g.model("x", o); } else if (c == 7) { g.model("x", "scaledx=" + r.pick(std::vector<std::string>{"1.25", "0.5", "1.001"})); } else { g.line(g.gridDamage("x")); } flags = {"all"}; list.insert(list.begin() + r.i(0, (int)list.size()), "x"); }
                if (badIn && r.p(0.4)) { list.insert(list.begin() + r.i(0, (int)list.size()), "nope"); }
                if (badIn && r.p(0.2)) { g.line("truncate " + names[0] + " " + fmt(r.u(0, 0.99))); }
                line = "app info models=" + Gen::join(list) + " flags=" + Gen::join(flags);
            }
            if (prop != "C13" && badIn && r.p(0.4)) { int c = r.i(0, 2); if (c == 0) { g.line("truncate " + names[0] + " " + fmt(r.u(0, 0.99))); } else if (c == 1) { size_t k = line.find("models="); line.insert(k+7, "nope,"); } else { g.line("unlink " + names.back()); } }
            if (hard) {
                int c = r.i(0, 13); if (prop == "C13") { c = r.i(9, 13); }
                if (c < 2) { g.line("fault op=write file=" + fout + " from=" + S(r.i(0, bigOut ? 3 : 1)) + " n=" + (r.p(0.5) ? "1" : "-1") + " act=" + (r.p(0.5) ? "enospc" : "eio")); }
                else if (c == 2) { g.line("fault op=write file=" + fout + " budget=" + S(r.p(0.3) ? 0 : bigOut ? r.i(1, 20000) : r.i(1, 1500))); }
                else if (c == 3) { g.line("fault op=wclose file=" + fout + " act=" + (r.p(0.5) ? "eio" : "enospc")); }
                else if (c == 4) { g.line("fault op=open file=" + fout + " act=" + (r.p(0.5) ? "eacces" : "emfile")); }
                else if (c <= 6) { g.line("fault op=" + std::string(r.p(0.7) ? "write" : r.p(0.5) ? "open" : "wclose") + " file=" + fout + " from=" + S(r.p(0.7) ? 0 : 1) + " act=crash:" + S(r.i(0, 900))); }
                else if (c == 7 && (prop == "C09" || prop == "C10")) { g.line("fault op=read file=pts.txt from=" + S(r.i(0, 1)) + " n=" + (r.p(0.5) ? "1" : "-1") + " act=eio"); }
                else if (c == 8) { g.line("fault op=write file=.log n=-1 act=enospc"); }
                else if (c <= 12) { g.line(g.anyFault(r.p(0.5) ? 20 : 120)); }
                else { g.line("fault op=read file=.h5 from=0 n=-1 act=short:" + S(r.i(1, 600))); }
            } else if (mode == "benign") { g.benign(); if (r.p(0.5)) { g.line("fault op=write file=" + fout + " from=0 n=-1 act=short:" + S(r.i(1, 300))); } if (r.p(0.5)) { g.line("fault op=read file=pts.txt from=0 n=-1 act=short:" + S(r.i(1, 200))); } if (r.p(0.3)) { g.line("fault op=write file=" + fout + " from=0 n=" + S(r.i(1, 3)) + " act=eintr"); } }
            g.line(line); g.line("heal");
        }
    }
    // Repeat some queries at once or later (answers and messages must not depend on having been asked before).
    std::istringstream in(g.o.str()); std::ostringstream out; std::string l; std::vector<std::string> seen;
    while (std::getline(in, l)) {
        out << l << "\n";
        if (l.compare(0, 2, "q ") && l.compare(0, 4, "top ") && l.compare(0, 5, "topo ")) { continue; }
        if (r.p(0.06)) { out << l << "\n"; if (r.p(0.3)) { out << l << "\n"; } }
        if (!seen.empty() && r.p(0.06)) { out << r.pick(seen) << "\n"; }
        seen.push_back(l);
    }
    return out.str();
}
