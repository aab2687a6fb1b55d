// Simulated disk behind the C library boundary (seam 1) and allocation faults (seam 2).
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
// --- disk ---
void simio_reset(void);                       // empty disk, no rules, counters zero
void simio_put(const char* path, const void* data, size_t len);
long simio_size(const char* path);            // -1 if missing
long simio_get(const char* path, void* buf, size_t cap);
int  simio_remove(const char* path);
int  simio_open_count(const char* suffix);    // open descriptors (suffix "" = all)
size_t simio_list(char* buf, size_t cap);     // names, newline separated
// --- faults ---
// spec: "op=<open|read|write|close|trunc|stat|unlink|alloc|any> [file=SUFFIX] [from=N] [n=N] [lo=A hi=B] [budget=B] act=<ACTION>"
// ACTION: eio enospc eacces emfile enoent enomem eintr short:K crash:K delay:MS badalloc
int  simio_rule(const char* spec);            // returns rule index, -1 on bad spec
void simio_heal(void);                        // drop all rules
void simio_arm(int on);                       // rules only act while armed
void simio_thaw(void);                        // after a crash: disk accepts writes again
int  simio_crashed(void);
long simio_fired(int rule);                   // times the rule fired
long simio_fired_total(void);                 // hard faults fired since reset (not eintr/short/delay)
long simio_fired_file(const char* suffix);    // hard faults that hit files with this suffix (heap = allocations)
long simio_benign_total(void);
size_t simio_fault_counts(char* buf, size_t cap); // "kind=count kind=count"
// --- trace ---
uint64_t simio_hash(void);
void simio_note(const char* text);            // mixes text into the event hash
long simio_ops(void);
long simio_ops_of(const char* op);
double simio_vtime(void);                     // simulated seconds
void simio_clock(int on, double start);       // virtual wall clock for time()/gettimeofday()/clock_gettime()
void simio_trace(int on);                     // print events to stderr
long simio_armed_ops(const char* op, const char* suffix); // ops seen while armed since simio_arm(1)
#ifdef __cplusplus
}
#endif
