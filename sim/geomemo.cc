// Memo of PROJ objects for the Python extension (see geomemo.hh); the simulator fills it before it forks.
#include "geomemo.hh"
extern "C" {
void geomemo_warm(const char* src, const char* dst) { GeoMemo::the().warm({src}, {dst}); }
void geomemo_on(int on) { GeoMemo::the().on = on != 0; }
}
