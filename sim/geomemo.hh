// Memo of PROJ objects. Creating a transformation costs 5-50 ms of database look-ups, a copy (proj_clone) 0.1 ms. The batch driver fills
// the memo before it forks, and the runs get copies of the pristine objects (the sources under test are compiled with the two names redefined). One run in 16 uses PROJ directly.
#pragma once
#include <cstring>
#include <string>
#include <vector>
#include <proj.h>
extern "C" {
PJ* gsim_proj_create_crs_to_crs(PJ_CONTEXT* ctx, const char* src, const char* dst, PJ_AREA* area);
PJ* gsim_proj_create(PJ_CONTEXT* ctx, const char* def);
}
struct GeoMemo { // look-ups do not allocate: allocations of the code under test are counted
    struct E { std::string src, dst; PJ* p; };
    std::vector<E> es; bool on = true;
    static GeoMemo& the() { static GeoMemo m; return m; }
    PJ* find(const char* s, const char* d) const { if (!on || !s || !d) { return nullptr; } for (auto& e : es) { if (!strcmp(e.src.c_str(), s) && !strcmp(e.dst.c_str(), d)) { return e.p; } } return nullptr; }
    void add(const std::string& s, const std::string& d, PJ* p) { if (p) { es.push_back({s, d, p}); } }
    void warm(const std::vector<std::string>& srcs, const std::vector<std::string>& dsts) {
        for (auto v : {&srcs, &dsts}) { for (auto& d : *v) { if (!find("\001", d.c_str())) { add("\001", d, proj_create(PJ_DEFAULT_CTX, d.c_str())); } } }
        for (auto& s : srcs) { for (auto& d : dsts) { add(s, d, proj_create_crs_to_crs(PJ_DEFAULT_CTX, s.c_str(), d.c_str(), nullptr)); } }
    }
};
extern "C" PJ* gsim_proj_create_crs_to_crs(PJ_CONTEXT* ctx, const char* src, const char* dst, PJ_AREA* area) {
    PJ* p = area ? nullptr : GeoMemo::the().find(src, dst); return p ? proj_clone(ctx, p) : proj_create_crs_to_crs(ctx, src, dst, area);
}
extern "C" PJ* gsim_proj_create(PJ_CONTEXT* ctx, const char* def) {
    PJ* p = GeoMemo::the().find("\001", def); return p ? proj_clone(ctx, p) : proj_create(ctx, def);
}
