// Simulated disk: interposes the C library's file calls for paths below /simfs/.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "simio.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <poll.h>
#include <map>
#include <set>
#include <memory>
#include <string>
#include <vector>
#include <algorithm>

namespace {
struct Node { std::string data; uint64_t ino; size_t filled = 0; };  // filled: end of the allocated space (a file can be extended with a hole)
struct Handle { std::shared_ptr<Node> node; off_t pos; int flags; std::string path; bool err, eof; };
struct Rule {
    std::string op, file, act; long from, n, lo, hi, budget, arg; bool hasBudget; long seen, fired;
};
struct Sim {
    std::map<std::string, std::shared_ptr<Node> > disk;
    std::map<int, Handle> fds;
    std::set<std::string> dirs; // directories made by the code under test
    std::vector<Rule> rules;
    std::map<std::string, long> kinds, ops;
    std::map<std::string, long> armedOps, hardBy; std::string lastPath;
    uint64_t nextIno = 1000, hash = 1469598103934665603ULL;
    long nops = 0, hard = 0, benign = 0;
    double vtime = 0.0, clockStart = 0.0;
    bool armed = false, crashed = false, clock = false, trace = false;
};
Sim* g_sim = nullptr;
Sim& S() { if (!g_sim) { g_sim = new Sim(); } return *g_sim; }
int g_busy = 0; // inside the simulator (no alloc faults)
struct Busy { Busy() { ++g_busy; } ~Busy() { --g_busy; } };

const char PREFIX[] = "/simfs/";
std::string norm(const char* p) { // collapse // and /./
    std::string in(p), out;
    for (size_t i = 0; i < in.size(); ++i) {
        if (in[i] == '/' && !out.empty() && out.back() == '/') { continue; }
        out += in[i];
        if (out.size() >= 3 && out.compare(out.size()-3, 3, "/./") == 0) { out.resize(out.size()-2); }
    }
    return out;
}
bool isSim(const char* p) { return p && 0 == strncmp(p, "/simfs", 6) && (p[6] == '/' || p[6] == 0); }
bool isDir(const std::string& p) {
    std::string d = p; while (d.size() > 1 && d.back() == '/') { d.pop_back(); }
    if (d == "/simfs") { return true; }
    std::string pre = d + "/";
    for (auto& kv : S().disk) { if (kv.first.compare(0, pre.size(), pre) == 0) { return true; } }
    return d == "/simfs/ev" || d == "/simfs/work" || S().dirs.count(d);
}
void mix(const void* d, size_t n) { const unsigned char* c = (const unsigned char*)d; uint64_t h = S().hash; for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; } S().hash = h; }
void event(const char* op, const std::string& path, long off, long len, long res, int err) {
    Sim& s = S();
    s.nops++; s.ops[op]++;
    s.vtime += 50e-6 + (len > 0 ? len/200.0e6 : 0);
    mix(op, strlen(op)); mix(path.data(), path.size());
    long v[4] = { off, len, res, err }; mix(v, sizeof(v));
    if (s.trace) { fprintf(stderr, "[simio] %s %s off=%ld len=%ld -> %ld errno=%d\n", op, path.c_str(), off, len, res, err); }
}
bool suffix(const std::string& s, const std::string& x) { return x.empty() || (s.size() >= x.size() && s.compare(s.size()-x.size(), x.size(), x) == 0); }
struct Verdict { bool fire = false; std::string act; long arg = 0; Rule* rule = nullptr; };
Verdict decide(const char* op, const std::string& path, long off, long len) {
    Sim& s = S(); Verdict v;
    s.lastPath = path;
    if (!s.armed) { return v; }
    s.armedOps[std::string(op) + " " + path]++;
    for (auto& r : s.rules) {
        if (r.op != "any" && r.op != op) { continue; }
        if (!suffix(path, r.file)) { continue; }
        if (r.hasBudget) { continue; }
        if (r.hi > r.lo) { if (off + len <= r.lo || off >= r.hi) { continue; } }
        const long k = r.seen++;
        if (k < r.from || (r.n >= 0 && k >= r.from + r.n)) { continue; }
        if (v.fire) { continue; }
        v.fire = true; v.act = r.act; v.arg = r.arg; v.rule = &r;
    }
    return v;
}
void fired(Verdict& v) {
    Sim& s = S();
    v.rule->fired++;
    s.kinds[v.rule->op + "-" + v.act]++;
    if (v.act == "eintr" || v.act == "short" || v.act == "delay") { s.benign++; } else { s.hard++; s.hardBy[s.lastPath]++; }
}
int errOf(const std::string& a) {
    if (a == "eio") { return EIO; }
    if (a == "enospc") { return ENOSPC; }
    if (a == "eacces") { return EACCES; }
    if (a == "emfile") { return EMFILE; }
    if (a == "enoent") { return ENOENT; }
    if (a == "enomem") { return ENOMEM; }
    if (a == "eintr") { return EINTR; }
    return 0;
}
template<typename F> F real(const char* name) { return (F)dlsym(RTLD_NEXT, name); }
#define REAL(ret, name, args) static ret (*real_##name) args = nullptr; if (!real_##name) { real_##name = (ret (*) args)dlsym(RTLD_NEXT, #name); }

int simOpen(const std::string& path, int flags) {
    Sim& s = S();
    Verdict v = decide("open", path, 0, 0);
    int e = 0;
    if (v.fire) { e = errOf(v.act); if (v.act == "delay") { s.vtime += v.arg*1e-3; } if (e || v.act == "delay") { fired(v); } if (v.act == "crash") { fired(v); s.crashed = true; } }
    if (!e) {
        const bool dir = isDir(path);
        auto it = s.disk.find(path);
        const bool wr = (flags & O_ACCMODE) != O_RDONLY;
        if (it == s.disk.end()) {
            if (dir) { e = wr ? EISDIR : 0; if (!e) { e = EISDIR; } }
            else if (!(flags & O_CREAT) || !isDir(path.substr(0, path.rfind('/')))) { e = ENOENT; }
            else if (s.crashed) { // process is dead: gets a private file nobody else sees
                auto n = std::make_shared<Node>(); n->ino = s.nextIno++;
                REAL(int, open, (const char*, int, ...)); int fd = real_open("/dev/null", O_RDWR|O_CLOEXEC);
                s.fds[fd] = Handle{n, 0, flags, path, false, false};
                return fd;
            } else { auto n = std::make_shared<Node>(); n->ino = s.nextIno++; s.disk[path] = n; it = s.disk.find(path); }
        } else if ((flags & O_CREAT) && (flags & O_EXCL)) { e = EEXIST; }
        if (!e) {
            std::shared_ptr<Node> n = it->second;
            if ((flags & O_TRUNC) && wr) { if (!s.crashed) { n->data.clear(); } }
            REAL(int, open, (const char*, int, ...));
            int fd = real_open("/dev/null", O_RDWR|O_CLOEXEC);
            if (fd >= 0) { s.fds[fd] = Handle{n, 0, flags, path, false, false}; event("open", path, 0, flags & O_ACCMODE, 0, 0); return fd; }
            e = EMFILE;
        }
    }
    event("open", path, 0, 0, -1, e);
    errno = e; return -1;
}
ssize_t simRead(int fd, Handle& h, void* buf, size_t len, off_t off, bool adv) {
    Sim& s = S();
    Verdict v = decide("read", h.path, off, len);
    long want = len;
    if (v.fire) {
        int e = errOf(v.act);
        if (e) { fired(v); event("read", h.path, off, len, -1, e); errno = e; return -1; }
        if (v.act == "delay") { fired(v); s.vtime += v.arg*1e-3; }
        else if (v.act == "short") { if (want > v.arg && v.arg > 0) { fired(v); want = v.arg; } }
        else if (v.act == "crash") { fired(v); s.crashed = true; }
    }
    const std::string& d = h.node->data;
    long avail = off < (off_t)d.size() ? (long)d.size() - off : 0;
    long n = std::min(want, avail);
    if (n > 0) { memcpy(buf, d.data()+off, n); }
    if (adv) { h.pos = off + n; }
    event("read", h.path, off, len, n, 0);
    return n;
}
ssize_t simWrite(int fd, Handle& h, const void* buf, size_t len, off_t off, bool adv) {
    Sim& s = S();
    if (h.flags & O_APPEND) { off = h.node->data.size(); }
    Verdict v = decide("write", h.path, off, len);
    long n = len;
    if (s.crashed) { if (adv) { h.pos = off + n; } return n; }
    if (v.fire) {
        int e = errOf(v.act);
        if (e) { fired(v); event("write", h.path, off, len, -1, e); errno = e; return -1; }
        if (v.act == "delay") { fired(v); s.vtime += v.arg*1e-3; }
        else if (v.act == "short") { if (n > v.arg && v.arg > 0) { fired(v); n = v.arg; } }
        else if (v.act == "crash") {
            fired(v); s.crashed = true;
            long k = std::min<long>(n, v.arg);
            if (k > 0) { if (h.node->data.size() < size_t(off+k)) { h.node->data.resize(off+k); } memcpy(&h.node->data[off], buf, k); }
            event("write", h.path, off, len, k, -1);
            if (adv) { h.pos = off + n; }
            return n;
        }
    }
    if (s.armed) { for (auto& r : s.rules) {
        if (!r.hasBudget || !suffix(h.path, r.file) || !(r.op == "write" || r.op == "any")) { continue; }
        long grow = std::max<long>(0, off + n - (long)h.node->filled);
        if (grow > r.budget) {
            r.fired++; s.kinds[std::string("write-full-disk")]++; s.hard++; s.hardBy[h.path]++;
            n = n - (grow - r.budget);
            if (n <= 0) { event("write", h.path, off, len, -1, ENOSPC); errno = ENOSPC; return -1; }
            grow = r.budget;
        }
        r.budget -= grow;
    } }
    if (h.node->data.size() < size_t(off+n)) { h.node->data.resize(off+n); }
    if (n > 0) { memcpy(&h.node->data[off], buf, n); h.node->filled = std::max(h.node->filled, size_t(off+n)); }
    if (adv) { h.pos = off + n; }
    event("write", h.path, off, len, n, 0);
    return n;
}
// returns error code of close (0 ok); descriptor is released in any case
int simClose(int fd) {
    Sim& s = S();
    auto it = s.fds.find(fd); std::string path = it->second.path; const bool wr = (it->second.flags & O_ACCMODE) != O_RDONLY;
    s.fds.erase(it);
    int e = 0;
    Verdict v = decide(wr ? "wclose" : "close", path, 0, 0);
    if (v.fire && !s.crashed) { e = errOf(v.act); if (e || v.act == "crash") { fired(v); } if (v.act == "crash") { s.crashed = true; } }
    event("close", path, 0, 0, e ? -1 : 0, e);
    return e;
}
int simTrunc(Handle& h, off_t len) {
    Sim& s = S();
    Verdict v = decide("trunc", h.path, 0, len);
    if (s.crashed) { return 0; }
    if (v.fire) { int e = errOf(v.act); if (e) { fired(v); event("trunc", h.path, 0, len, -1, e); errno = e; return -1; } if (v.act == "crash") { fired(v); s.crashed = true; return 0; } }
    h.node->data.resize(len); h.node->filled = std::min(h.node->filled, size_t(len));
    event("trunc", h.path, 0, len, 0, 0);
    return 0;
}
void fillStat(struct stat* st, Node* n, bool dir) {
    memset(st, 0, sizeof(*st));
    st->st_dev = 0x51; st->st_ino = n ? n->ino : 7; st->st_nlink = 1;
    st->st_mode = dir ? (S_IFDIR|0755) : (S_IFREG|0644);
    st->st_size = n ? n->data.size() : 0; st->st_blksize = 4096; st->st_blocks = (st->st_size+511)/512;
    st->st_mtime = 1700000000; st->st_ctime = st->st_mtime; st->st_atime = st->st_mtime;
}
int simStatPath(const std::string& p, struct stat* st) {
    Verdict v = decide("stat", p, 0, 0);
    if (v.fire) { int e = errOf(v.act); if (e) { fired(v); event("stat", p, 0, 0, -1, e); errno = e; return -1; } }
    Sim& s = S(); auto it = s.disk.find(p);
    if (it != s.disk.end()) { fillStat(st, it->second.get(), false); return 0; }
    if (isDir(p)) { fillStat(st, nullptr, true); return 0; }
    errno = ENOENT; return -1;
}
inline Handle* H(int fd) { if (!g_sim) { return nullptr; } auto it = g_sim->fds.find(fd); return it == g_sim->fds.end() ? nullptr : &it->second; }
int accmode(const char* m) {
    int f = strchr(m, '+') ? O_RDWR : (m[0] == 'r' ? O_RDONLY : O_WRONLY);
    if (m[0] == 'w') { f |= O_CREAT|O_TRUNC; }
    if (m[0] == 'a') { f |= O_CREAT|O_APPEND; }
    if (strchr(m, 'x')) { f |= O_EXCL; }
    return f;
}
} // namespace

// ------------------------------------------------------------------ interposed C library calls
#define EXPORT extern "C" __attribute__((visibility("default")))

static int openImpl(const char* name, const char* path, int flags, mode_t mode) {
    if (isSim(path)) { Busy b; return simOpen(norm(path), flags); }
    static int (*ro)(const char*, int, ...) = nullptr; if (!ro) { ro = (int (*)(const char*, int, ...))dlsym(RTLD_NEXT, "open64"); }
    return ro(path, flags, mode);
}
EXPORT int open(const char* path, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, int); va_end(a); return openImpl("open", path, flags, m); }
EXPORT int open64(const char* path, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, int); va_end(a); return openImpl("open64", path, flags, m); }
EXPORT int openat(int dfd, const char* path, int flags, ...) {
    va_list a; va_start(a, flags); mode_t m = va_arg(a, int); va_end(a);
    if (isSim(path)) { Busy b; return simOpen(norm(path), flags); }
    REAL(int, openat, (int, const char*, int, ...)); return real_openat(dfd, path, flags, m);
}
EXPORT int close(int fd) {
    REAL(int, close, (int));
    if (H(fd)) { Busy b; int e = simClose(fd); real_close(fd); if (e) { errno = e; return -1; } return 0; }
    return real_close(fd);
}
EXPORT ssize_t read(int fd, void* buf, size_t n) { if (Handle* h = H(fd)) { Busy b; return simRead(fd, *h, buf, n, h->pos, true); } REAL(ssize_t, read, (int, void*, size_t)); return real_read(fd, buf, n); }
EXPORT ssize_t pread(int fd, void* buf, size_t n, off_t o) { if (Handle* h = H(fd)) { Busy b; return simRead(fd, *h, buf, n, o, false); } REAL(ssize_t, pread, (int, void*, size_t, off_t)); return real_pread(fd, buf, n, o); }
EXPORT ssize_t pread64(int fd, void* buf, size_t n, off_t o) { if (Handle* h = H(fd)) { Busy b; return simRead(fd, *h, buf, n, o, false); } REAL(ssize_t, pread64, (int, void*, size_t, off_t)); return real_pread64(fd, buf, n, o); }
EXPORT ssize_t write(int fd, const void* buf, size_t n) { if (Handle* h = H(fd)) { Busy b; return simWrite(fd, *h, buf, n, h->pos, true); } REAL(ssize_t, write, (int, const void*, size_t)); return real_write(fd, buf, n); }
EXPORT ssize_t pwrite(int fd, const void* buf, size_t n, off_t o) { if (Handle* h = H(fd)) { Busy b; return simWrite(fd, *h, buf, n, o, false); } REAL(ssize_t, pwrite, (int, const void*, size_t, off_t)); return real_pwrite(fd, buf, n, o); }
EXPORT ssize_t pwrite64(int fd, const void* buf, size_t n, off_t o) { if (Handle* h = H(fd)) { Busy b; return simWrite(fd, *h, buf, n, o, false); } REAL(ssize_t, pwrite64, (int, const void*, size_t, off_t)); return real_pwrite64(fd, buf, n, o); }
EXPORT ssize_t writev(int fd, const struct iovec* iov, int cnt) {
    if (Handle* h = H(fd)) {
        Busy b; ssize_t total = 0;
        for (int i = 0; i < cnt; ++i) {
            if (!iov[i].iov_len) { continue; }
            ssize_t r = simWrite(fd, *h, iov[i].iov_base, iov[i].iov_len, h->pos, true);
            if (r < 0) { return total > 0 ? total : -1; }
            total += r; if (r < (ssize_t)iov[i].iov_len) { break; }
        }
        return total;
    }
    REAL(ssize_t, writev, (int, const struct iovec*, int)); return real_writev(fd, iov, cnt);
}
static off_t seekImpl(Handle* h, off_t o, int w) { off_t p = w == SEEK_SET ? o : w == SEEK_CUR ? h->pos + o : (off_t)h->node->data.size() + o; if (p < 0) { errno = EINVAL; return -1; } h->pos = p; return p; }
EXPORT off_t lseek(int fd, off_t o, int w) { if (Handle* h = H(fd)) { return seekImpl(h, o, w); } REAL(off_t, lseek, (int, off_t, int)); return real_lseek(fd, o, w); }
EXPORT off_t lseek64(int fd, off_t o, int w) { if (Handle* h = H(fd)) { return seekImpl(h, o, w); } REAL(off_t, lseek64, (int, off_t, int)); return real_lseek64(fd, o, w); }
static int fstatImpl(Handle* h, struct stat* st) {
    Busy b; Verdict v = decide("fstat", h->path, 0, 0);
    if (v.fire) { int e = errOf(v.act); if (e) { fired(v); event("fstat", h->path, 0, 0, -1, e); errno = e; return -1; } }
    fillStat(st, h->node.get(), false); return 0;
}
EXPORT int fstat(int fd, struct stat* st) { if (Handle* h = H(fd)) { return fstatImpl(h, st); } REAL(int, fstat, (int, struct stat*)); return real_fstat(fd, st); }
EXPORT int fstat64(int fd, struct stat64* st) { if (Handle* h = H(fd)) { return fstatImpl(h, (struct stat*)st); } REAL(int, fstat64, (int, struct stat64*)); return real_fstat64(fd, st); }
EXPORT int stat(const char* p, struct stat* st) { if (isSim(p)) { Busy b; return simStatPath(norm(p), st); } REAL(int, stat, (const char*, struct stat*)); return real_stat(p, st); }
EXPORT int stat64(const char* p, struct stat64* st) { if (isSim(p)) { Busy b; return simStatPath(norm(p), (struct stat*)st); } REAL(int, stat64, (const char*, struct stat64*)); return real_stat64(p, st); }
EXPORT int lstat(const char* p, struct stat* st) { if (isSim(p)) { Busy b; return simStatPath(norm(p), st); } REAL(int, lstat, (const char*, struct stat*)); return real_lstat(p, st); }
EXPORT int lstat64(const char* p, struct stat64* st) { if (isSim(p)) { Busy b; return simStatPath(norm(p), (struct stat*)st); } REAL(int, lstat64, (const char*, struct stat64*)); return real_lstat64(p, st); }
EXPORT int fstatat64(int d, const char* p, struct stat64* st, int f) { if (isSim(p)) { Busy b; return simStatPath(norm(p), (struct stat*)st); } REAL(int, fstatat64, (int, const char*, struct stat64*, int)); return real_fstatat64(d, p, st, f); }
EXPORT int access(const char* p, int m) { if (isSim(p)) { Busy b; struct stat st; return simStatPath(norm(p), &st); } REAL(int, access, (const char*, int)); return real_access(p, m); }
EXPORT int ftruncate(int fd, off_t l) { if (Handle* h = H(fd)) { Busy b; return simTrunc(*h, l); } REAL(int, ftruncate, (int, off_t)); return real_ftruncate(fd, l); }
EXPORT int ftruncate64(int fd, off_t l) { if (Handle* h = H(fd)) { Busy b; return simTrunc(*h, l); } REAL(int, ftruncate64, (int, off_t)); return real_ftruncate64(fd, l); }
EXPORT int flock(int fd, int op) { if (H(fd)) { return 0; } REAL(int, flock, (int, int)); return real_flock(fd, op); }
EXPORT int fsync(int fd) { if (H(fd)) { return 0; } REAL(int, fsync, (int)); return real_fsync(fd); }
EXPORT int fdatasync(int fd) { if (H(fd)) { return 0; } REAL(int, fdatasync, (int)); return real_fdatasync(fd); }
static int unlinkImpl(const char* p) {
    Busy b; std::string q = norm(p); Sim& s = S();
    Verdict v = decide("unlink", q, 0, 0);
    if (v.fire) { int e = errOf(v.act); if (e) { fired(v); event("unlink", q, 0, 0, -1, e); errno = e; return -1; } if (v.act == "crash") { fired(v); s.crashed = true; } }
    if (!s.disk.count(q)) { errno = ENOENT; return -1; }
    if (!s.crashed) { s.disk.erase(q); }
    event("unlink", q, 0, 0, 0, 0); return 0;
}
EXPORT int unlink(const char* p) { if (isSim(p)) { return unlinkImpl(p); } REAL(int, unlink, (const char*)); return real_unlink(p); }
EXPORT int unlinkat(int d, const char* p, int f) { if (isSim(p)) { return unlinkImpl(p); } REAL(int, unlinkat, (int, const char*, int)); return real_unlinkat(d, p, f); }
EXPORT int remove(const char* p) { if (isSim(p)) { return unlinkImpl(p); } REAL(int, remove, (const char*)); return real_remove(p); }
EXPORT int rename(const char* a, const char* c) {
    if (isSim(a) && isSim(c)) {
        Busy b; Sim& s = S(); std::string x = norm(a), y = norm(c);
        Verdict v = decide("rename", x, 0, 0);
        if (v.fire) { int e = errOf(v.act); if (e) { fired(v); event("rename", x, 0, 0, -1, e); errno = e; return -1; } }
        if (!s.disk.count(x)) { errno = ENOENT; return -1; }
        if (!s.crashed) { s.disk[y] = s.disk[x]; s.disk.erase(x); }
        event("rename", x + ">" + y, 0, 0, 0, 0); return 0;
    }
    REAL(int, rename, (const char*, const char*)); return real_rename(a, c);
}
EXPORT int mkdir(const char* p, mode_t m) {
    if (isSim(p)) {
        Busy b; Sim& s = S(); std::string x = norm(p); while (x.size() > 1 && x.back() == '/') { x.pop_back(); }
        Verdict v = decide("mkdir", x, 0, 0); int e = 0;
        if (v.fire) { e = errOf(v.act); if (e) { fired(v); } if (v.act == "crash") { fired(v); s.crashed = true; } }
        if (!e) { e = isDir(x) || s.disk.count(x) ? EEXIST : !isDir(x.substr(0, x.rfind('/'))) ? ENOENT : 0; }
        if (!e) { s.dirs.insert(x); }
        event("mkdir", x, 0, 0, e ? -1 : 0, e);
        if (e) { errno = e; return -1; }
        return 0;
    }
    REAL(int, mkdir, (const char*, mode_t)); return real_mkdir(p, m);
}
// --- stdio ---
static FILE* fopenImpl(const char* p, const char* m) {
    Busy b; int fd = simOpen(norm(p), accmode(m)); if (fd < 0) { return nullptr; }
    REAL(FILE*, fdopen, (int, const char*)); return real_fdopen(fd, m);
}
EXPORT FILE* fopen(const char* p, const char* m) { if (isSim(p)) { return fopenImpl(p, m); } REAL(FILE*, fopen, (const char*, const char*)); return real_fopen(p, m); }
EXPORT FILE* fopen64(const char* p, const char* m) { if (isSim(p)) { return fopenImpl(p, m); } REAL(FILE*, fopen64, (const char*, const char*)); return real_fopen64(p, m); }
static inline Handle* HF(FILE* f) { return (f && g_sim && !g_sim->fds.empty()) ? H(fileno(f)) : nullptr; }
EXPORT int fclose(FILE* f) {
    REAL(int, fclose, (FILE*));
    if (HF(f)) { Busy b; int e = simClose(fileno(f)); real_fclose(f); if (e) { errno = e; return EOF; } return 0; }
    return real_fclose(f);
}
EXPORT size_t fread(void* buf, size_t sz, size_t n, FILE* f) {
    if (Handle* h = HF(f)) {
        Busy b; size_t want = sz*n, got = 0;
        while (got < want) { ssize_t r = simRead(0, *h, (char*)buf+got, want-got, h->pos, true); if (r < 0) { if (errno == EINTR) { continue; } h->err = true; break; } if (r == 0) { h->eof = true; break; } got += r; }
        return sz ? got/sz : 0;
    }
    REAL(size_t, fread, (void*, size_t, size_t, FILE*)); return real_fread(buf, sz, n, f);
}
EXPORT size_t fwrite(const void* buf, size_t sz, size_t n, FILE* f) {
    if (Handle* h = HF(f)) {
        Busy b; size_t want = sz*n, done = 0;
        while (done < want) { ssize_t r = simWrite(0, *h, (const char*)buf+done, want-done, h->pos, true); if (r < 0) { if (errno == EINTR) { continue; } h->err = true; break; } done += r; }
        return sz ? done/sz : 0;
    }
    REAL(size_t, fwrite, (const void*, size_t, size_t, FILE*)); return real_fwrite(buf, sz, n, f);
}
EXPORT int fseeko64(FILE* f, off64_t o, int w) { if (Handle* h = HF(f)) { h->eof = false; return seekImpl(h, o, w) < 0 ? -1 : 0; } REAL(int, fseeko64, (FILE*, off64_t, int)); return real_fseeko64(f, o, w); }
EXPORT int fseeko(FILE* f, off_t o, int w) { if (Handle* h = HF(f)) { h->eof = false; return seekImpl(h, o, w) < 0 ? -1 : 0; } REAL(int, fseeko, (FILE*, off_t, int)); return real_fseeko(f, o, w); }
EXPORT int fseek(FILE* f, long o, int w) { if (Handle* h = HF(f)) { h->eof = false; return seekImpl(h, o, w) < 0 ? -1 : 0; } REAL(int, fseek, (FILE*, long, int)); return real_fseek(f, o, w); }
EXPORT off64_t ftello64(FILE* f) { if (Handle* h = HF(f)) { return h->pos; } REAL(off64_t, ftello64, (FILE*)); return real_ftello64(f); }
EXPORT off_t ftello(FILE* f) { if (Handle* h = HF(f)) { return h->pos; } REAL(off_t, ftello, (FILE*)); return real_ftello(f); }
EXPORT long ftell(FILE* f) { if (Handle* h = HF(f)) { return h->pos; } REAL(long, ftell, (FILE*)); return real_ftell(f); }
EXPORT int fflush(FILE* f) { if (HF(f)) { return 0; } REAL(int, fflush, (FILE*)); return real_fflush(f); }
EXPORT int feof(FILE* f) __THROW { if (Handle* h = HF(f)) { return h->eof; } REAL(int, feof, (FILE*)); return real_feof(f); }
EXPORT int ferror(FILE* f) __THROW { if (Handle* h = HF(f)) { return h->err; } REAL(int, ferror, (FILE*)); return real_ferror(f); }
EXPORT void clearerr(FILE* f) __THROW { if (Handle* h = HF(f)) { h->eof = h->err = false; return; } REAL(void, clearerr, (FILE*)); real_clearerr(f); }
// --- clock ---
EXPORT time_t time(time_t* t) __THROW { if (g_sim && g_sim->clock) { time_t r = (time_t)(g_sim->clockStart + g_sim->vtime); if (t) { *t = r; } return r; } REAL(time_t, time, (time_t*)); return real_time(t); }
EXPORT int gettimeofday(struct timeval* tv, void* tz) __THROW {
    if (g_sim && g_sim->clock) { double d = g_sim->clockStart + g_sim->vtime; tv->tv_sec = (time_t)d; tv->tv_usec = (long)((d-(time_t)d)*1e6); return 0; }
    REAL(int, gettimeofday, (struct timeval*, void*)); return real_gettimeofday(tv, tz);
}
EXPORT int clock_gettime(clockid_t c, struct timespec* ts) __THROW {
    if (g_sim && g_sim->clock) { double d = g_sim->clockStart + g_sim->vtime; ts->tv_sec = (time_t)d; ts->tv_nsec = (long)((d-(time_t)d)*1e9); return 0; }
    return syscall(SYS_clock_gettime, c, ts);
}
// ------------------------------------------------------------------ allocation seam (harness only)
#if defined(SIMIO_ALLOC)
#include <malloc.h>
#include <new>
extern char __executable_start, etext;
static inline void* allocate(size_t n, void* ra) {
    if (!g_busy && g_sim && g_sim->armed && !g_sim->rules.empty() && ra >= (void*)&__executable_start && ra < (void*)&etext) {
        bool hit = false; { Busy b; for (auto& r : g_sim->rules) { if (r.op == "alloc") { Verdict v = decide("alloc", "heap", 0, n); if (v.fire && v.act == "badalloc") { fired(v); event("alloc", "heap", 0, n, -1, ENOMEM); hit = true; } break; } } }
        if (hit) { throw std::bad_alloc(); }
    }
    void* p = malloc(n ? n : 1); if (!p) { throw std::bad_alloc(); }
    memset(p, 0xCD, n);
    return p;
}
static inline void release(void* p) { if (p) { memset(p, 0xDD, malloc_usable_size(p)); free(p); } }
void* operator new(size_t n) { return allocate(n, __builtin_return_address(0)); }
void* operator new[](size_t n) { return allocate(n, __builtin_return_address(0)); }
void operator delete(void* p) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete(void* p, size_t) noexcept { release(p); }
void operator delete[](void* p, size_t) noexcept { release(p); }
#endif

// ------------------------------------------------------------------ control
EXPORT void simio_reset(void) {
    Busy b; Sim& s = S();
    s.disk.clear(); s.dirs.clear(); s.rules.clear(); s.kinds.clear(); s.hardBy.clear(); s.ops.clear(); s.armedOps.clear();
    s.nextIno = 1000; s.hash = 1469598103934665603ULL; s.nops = s.hard = s.benign = 0; s.vtime = 0; s.armed = s.crashed = false;
}
EXPORT void simio_put(const char* p, const void* d, size_t n) { Busy b; std::string k = norm(p); auto& x = S().disk[k]; if (!x) { x = std::make_shared<Node>(); x->ino = S().nextIno++; } x->data.assign((const char*)d, n); x->filled = n; }
EXPORT long simio_size(const char* p) { Busy b; auto it = S().disk.find(norm(p)); return it == S().disk.end() ? -1 : (long)it->second->data.size(); }
EXPORT long simio_get(const char* p, void* buf, size_t cap) { Busy b; auto it = S().disk.find(norm(p)); if (it == S().disk.end()) { return -1; } size_t n = std::min(cap, it->second->data.size()); memcpy(buf, it->second->data.data(), n); return n; }
EXPORT int simio_remove(const char* p) { Busy b; return S().disk.erase(norm(p)) ? 0 : -1; }
EXPORT int simio_open_count(const char* suf) { Busy b; int n = 0; for (auto& kv : S().fds) { if (suffix(kv.second.path, suf)) { ++n; } } return n; }
EXPORT size_t simio_list(char* buf, size_t cap) { Busy b; std::string r; for (auto& kv : S().disk) { r += kv.first + "\n"; } size_t n = std::min(cap-1, r.size()); memcpy(buf, r.data(), n); buf[n] = 0; return n; }
EXPORT int simio_rule(const char* spec) {
    Busy b; Rule r{"", "", "", 0, 1, 0, 0, 0, 0, false, 0, 0};
    std::string sp(spec); size_t i = 0;
    while (i < sp.size()) {
        size_t j = sp.find(' ', i); if (j == std::string::npos) { j = sp.size(); }
        std::string t = sp.substr(i, j-i); i = j+1; if (t.empty()) { continue; }
        size_t e = t.find('='); if (e == std::string::npos) { return -1; }
        std::string k = t.substr(0, e), v = t.substr(e+1);
        if (k == "op") { r.op = v; } else if (k == "file") { r.file = v; } else if (k == "from") { r.from = atol(v.c_str()); } else if (k == "n") { r.n = atol(v.c_str()); }
        else if (k == "lo") { r.lo = atol(v.c_str()); } else if (k == "hi") { r.hi = atol(v.c_str()); } else if (k == "budget") { r.budget = atol(v.c_str()); r.hasBudget = true; }
        else if (k == "act") { size_t c = v.find(':'); r.act = v.substr(0, c); if (c != std::string::npos) { r.arg = atol(v.c_str()+c+1); } }
        else { return -1; }
    }
    if (r.op.empty() || (r.act.empty() && !r.hasBudget)) { return -1; }
    S().rules.push_back(r); return (int)S().rules.size()-1;
}
EXPORT void simio_heal(void) { Busy b; S().rules.clear(); }
EXPORT void simio_arm(int on) { Busy b; S().armed = on != 0; if (on) { S().armedOps.clear(); } }
EXPORT void simio_thaw(void) { S().crashed = false; }
EXPORT int simio_crashed(void) { return S().crashed; }
EXPORT long simio_fired(int i) { return (i >= 0 && i < (int)S().rules.size()) ? S().rules[i].fired : -1; }
EXPORT long simio_fired_total(void) { return S().hard; }
EXPORT long simio_fired_file(const char* suf) { Busy b; long n = 0; for (auto& kv : S().hardBy) { if (suffix(kv.first, suf)) { n += kv.second; } } return n; }
EXPORT long simio_benign_total(void) { return S().benign; }
EXPORT size_t simio_fault_counts(char* buf, size_t cap) { Busy b; std::string r; for (auto& kv : S().kinds) { r += kv.first + "=" + std::to_string(kv.second) + " "; } size_t n = std::min(cap-1, r.size()); memcpy(buf, r.data(), n); buf[n] = 0; return n; }
EXPORT uint64_t simio_hash(void) { return S().hash; }
EXPORT void simio_note(const char* t) { Busy b; mix(t, strlen(t)); }
EXPORT long simio_ops(void) { return S().nops; }
EXPORT long simio_ops_of(const char* op) { Busy b; auto it = S().ops.find(op); return it == S().ops.end() ? 0 : it->second; }
EXPORT double simio_vtime(void) { return S().vtime; }
EXPORT void simio_clock(int on, double start) { S().clock = on != 0; S().clockStart = start; }
EXPORT void simio_trace(int on) { S().trace = on != 0; }
EXPORT long simio_armed_ops(const char* op, const char* suf) { Busy b; long n = 0; std::string o = std::string(op) + " "; for (auto& kv : S().armedOps) { if (kv.first.compare(0, o.size(), o) == 0 && suffix(kv.first, suf)) { n += kv.second; } } return n; }
