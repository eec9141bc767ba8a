// Virtual disk: every path under /sim/ lives here; the C library calls that libstdc++'s file
// streams make are answered from it, with short transfers, EINTR, EIO, ENOSPC, failing opens,
// seeks, stats and closes, and process death at a chosen byte.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "internal.hpp"
#include "rt.hpp"

#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

using namespace simrt;
namespace D = sim::disk;

namespace {

// Beyond `data` a large file goes on with bytes computed from their position up to `vsize`.
struct Inode {
    Str data; bool dir = false; uint64_t vsize = 0, vseed = 0;
    size_t size() const { return vsize > data.size() ? size_t(vsize) : data.size(); }
    void copy(char* b, size_t at, size_t n) const {
        for (size_t i = 0; i < n;) {
            if (at + i < data.size()) { size_t m = data.size() - at - i; if (m > n - i) m = n - i; memcpy(b + i, data.data() + at + i, m); i += m; }
            else { b[i] = char(sim::disk::large_byte(vseed, at + i)); ++i; }
        }
    }
    void resize(size_t n) { if (vsize) { vsize = n; if (n < data.size()) data.resize(n, '\0'); } else data.resize(n, '\0'); }
};
struct OFile { Inode* in = nullptr; size_t pos = 0; bool rd = false, wr = false, app = false, open = false; FILE* f = nullptr; bool dead = false; int eintr = 0; };
constexpr int FD0 = 1 << 20;
Map<Str, Inode*>* files;
Vec<OFile>* fds;
unsigned fk, fden; uint64_t nth; unsigned nth_kind; bool nth_sticky; unsigned stuck;
uint64_t fired, nops; int64_t crash_left = -1, space_left = -1;

void init() {
    if (files) return;
    files = new (malloc(sizeof *files)) Map<Str, Inode*>;
    fds = new (malloc(sizeof *fds)) Vec<OFile>;
}
bool ours(const char* p) { return p && !strncmp(p, "/sim/", 5); }
bool ours_dir(const char* p) { return p && (ours(p) || !strcmp(p, "/sim")); }
Str trim(const char* p) { Str s(p); while (s.size() > 1 && s[s.size() - 1] == '/') s.resize(s.size() - 1); return s; }
bool ours(int fd) { return fd >= FD0; }
OFile* of(int fd) { init(); size_t i = size_t(fd - FD0); if (i >= fds->size() || !(*fds)[i].open) return nullptr; return &(*fds)[i]; }

const char* kname(unsigned k) {
    switch (k) { case D::SHORT: return "fault.short_transfer"; case D::EINTR_: return "fault.eintr"; case D::EIO_: return "fault.eio";
    case D::OPEN: return "fault.open"; case D::SEEK: return "fault.seek"; case D::ENOSPC_: return "fault.enospc"; case D::CLOSE: return "fault.close";
    case D::FSTAT: return "fault.fstat"; } return "fault.?";
}
void hit(unsigned k) { if (k != D::SHORT && k != D::EINTR_) ++fired; sim::count(kname(k)); logf("disk fault %s", kname(k)); }
// The fault, if any, of one operation for which `kinds` make sense.
unsigned draw(unsigned kinds) {
    ++nops; advance(20000);
    if (stuck & kinds) { unsigned k = stuck & kinds; k &= ~(k - 1); hit(k); return k; }
    if (nth && --nth == 0) {
        unsigned k = nth_kind & kinds;
        if (!k) nth = 1;       // wait for an operation it applies to
        else { k &= ~(k - 1); if (nth_sticky) stuck |= k; hit(k); return k; }
    }
    unsigned lst[8], n = 0;
    for (unsigned b = 1; b <= 128; b <<= 1) if (kinds & fk & b) lst[n++] = b;
    if (!n || !fden) return 0;
    uint64_t v = fault(F_DISK, n, fden);
    if (!v || v > n) return 0;
    hit(lst[v - 1]);
    return lst[v - 1];
}
size_t part(size_t n) { if (n < 2) return n; uint64_t r = mix(nops, n); return (r & 7) == 0 ? 1 : 1 + (r >> 3) % (n - 1); }

bool dir_exists(const Str& p) { if (p == "/sim") return true; auto it = files->find(p); return it != files->end() && it->second->dir; }
Str parent(const Str& p) { size_t i = p.size(); while (i > 1 && p[i - 1] != '/') --i; while (i > 1 && p[i - 1] == '/') --i; return p.substr(0, i); }
long d_open(const char* path, bool rd, bool wr, bool app, bool creat, bool trunc, bool excl) {
    sync_point(); RtScope s; init();
    if (draw(D::OPEN)) { errno = EMFILE; return -1; }
    Str p(path);
    auto it = files->find(p);
    if (it != files->end() && it->second->dir && wr) { errno = EISDIR; return -1; }
    if (it == files->end()) {
        if (!creat || !dir_exists(parent(p))) { errno = ENOENT; return -1; }
        it = files->emplace(p, new (malloc(sizeof(Inode))) Inode).first;
    } else if (excl) { errno = EEXIST; return -1; }
    if (trunc) { if (space_left >= 0) space_left += int64_t(it->second->data.size()); it->second->data.clear(); it->second->vsize = 0; }
    size_t i = 0; while (i < fds->size() && (*fds)[i].open) ++i;
    if (i == fds->size()) fds->push_back(OFile());
    OFile o; o.in = it->second; o.rd = rd; o.wr = wr; o.app = app; o.open = true; (*fds)[i] = o;
    logf("open %s -> %zu", path, i);
    return FD0 + long(i);
}
ssize_t d_read(int fd, void* b, size_t n) {
    sync_point(); RtScope s; OFile* f = of(fd);
    if (!f || !f->rd) { errno = EBADF; return -1; }
    unsigned k = draw(D::EIO_ | (f->eintr < 3 ? unsigned(D::EINTR_) : 0u) | (n > 1 ? unsigned(D::SHORT) : 0u));
    if (k == D::EIO_) { errno = EIO; return -1; }
    if (k == D::EINTR_) { ++f->eintr; errno = EINTR; return -1; }
    f->eintr = 0;
    size_t have = f->pos < f->in->size() ? f->in->size() - f->pos : 0;
    size_t m = n < have ? n : have;
    if (k == D::SHORT) m = part(m);
    f->in->copy(static_cast<char*>(b), f->pos, m); f->pos += m;
    loghash(mix(m, 600));
    return ssize_t(m);
}
ssize_t d_write(int fd, const void* b, size_t n) {
    sync_point();
    bool die = false; ssize_t ret;
    {
        RtScope s; OFile* f = of(fd);
        if (!f || !f->wr) { errno = EBADF; return -1; }
        if (n == 0) return 0;
        unsigned k = draw(D::EIO_ | D::ENOSPC_ | (f->eintr < 3 ? unsigned(D::EINTR_) : 0u) | (n > 1 ? unsigned(D::SHORT) : 0u));
        if (k == D::EIO_) { errno = EIO; return -1; }
        if (k == D::ENOSPC_) { errno = ENOSPC; return -1; }
        if (k == D::EINTR_) { ++f->eintr; errno = EINTR; return -1; }
        f->eintr = 0;
        size_t m = k == D::SHORT ? part(n) : n;
        if (crash_left >= 0 && int64_t(m) >= crash_left) { m = size_t(crash_left); die = true; }
        if (f->app) f->pos = f->in->data.size();
        size_t grow = f->pos + m > f->in->data.size() ? f->pos + m - f->in->data.size() : 0;
        if (space_left >= 0 && int64_t(grow) > space_left) {
            size_t cut = grow - size_t(space_left);
            if (cut >= m) { hit(D::ENOSPC_); errno = ENOSPC; return -1; }
            m -= cut; grow -= cut;
        }
        if (space_left >= 0) space_left -= int64_t(grow);
        if (f->in->data.size() < f->pos + m) f->in->data.resize(f->pos + m, '\0');
        memcpy(&f->in->data[0] + f->pos, b, m); f->pos += m;
        if (crash_left >= 0) crash_left -= int64_t(m);
        loghash(mix(m, 601));
        ret = ssize_t(m);
    }
    if (die) { crash_left = -1; crash_process(); }
    return ret;
}
off_t d_seek(int fd, off_t off, int wh) {
    sync_point(); RtScope s; OFile* f = of(fd);
    if (!f) { errno = EBADF; return -1; }
    if (draw(D::SEEK)) { errno = EIO; return -1; }
    off_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? off_t(f->pos) : off_t(f->in->size());
    if (base + off < 0) { errno = EINVAL; return -1; }
    f->pos = size_t(base + off);
    return base + off;
}
int d_close(int fd) {
    sync_point(); RtScope s; OFile* f = of(fd);
    if (!f) { errno = EBADF; return -1; }
    f->open = false;
    if (draw(D::CLOSE)) { errno = EIO; return -1; }
    return 0;
}
int d_fstat(Inode* in, struct stat* st) {
    if (draw(D::FSTAT)) { errno = EIO; return -1; }
    memset(st, 0, sizeof *st); st->st_mode = in->dir ? S_IFDIR | 0755 : S_IFREG | 0644; st->st_size = off_t(in->size()); st->st_nlink = 1; st->st_blksize = 4096; st->st_ino = ino_t(mix(reinterpret_cast<uintptr_t>(in), 1)); st->st_ino = 1;
    return 0;
}
Inode* find(const char* p) {
    init(); Str q = trim(p);
    if (q == "/sim") { static Inode* root; if (!root) { root = new (malloc(sizeof(Inode))) Inode; root->dir = true; } return root; }
    auto it = files->find(q); return it == files->end() ? nullptr : it->second;
}

ssize_t ck_read(void* c, char* b, size_t n) { return d_read(int(reinterpret_cast<intptr_t>(c)), b, n); }
ssize_t ck_write(void* c, const char* b, size_t n) { ssize_t r = d_write(int(reinterpret_cast<intptr_t>(c)), b, n); return r < 0 ? 0 : r; }
int ck_seek(void* c, off64_t* o, int wh) { off_t r = d_seek(int(reinterpret_cast<intptr_t>(c)), off_t(*o), wh); if (r < 0) return -1; *o = r; return 0; }
int ck_close(void* c) { return d_close(int(reinterpret_cast<intptr_t>(c))); }

long raw3(long n, long a, long b, long c) {
    long ret; __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory");
    if (ret < 0 && ret > -4096) { errno = int(-ret); return -1; }
    return ret;
}
int flags_open(const char* p, int fl) {
    int acc = fl & O_ACCMODE;
    return int(d_open(p, acc != O_WRONLY, acc != O_RDONLY, fl & O_APPEND, fl & O_CREAT, fl & O_TRUNC, (fl & O_CREAT) && (fl & O_EXCL)));
}
} // namespace

namespace sim { namespace disk {
void put(const std::string& path, const std::string& b) {
    RtScope s; init(); Str p(path.c_str()); auto it = files->find(p);
    if (it == files->end()) it = files->emplace(p, new (malloc(sizeof(Inode))) Inode).first;
    it->second->data.assign(b.data(), b.size()); it->second->vsize = 0;
}
uint8_t large_byte(uint64_t seed, uint64_t at) { return uint8_t(mix(seed, at)); }
void put_large(const std::string& path, const std::string& head, uint64_t size, uint64_t seed) {
    put(path, head); RtScope s; Inode* i = find(path.c_str()); i->vsize = size; i->vseed = seed;
}
std::string get(const std::string& path) { RtScope s; Inode* i = find(path.c_str()); return i ? std::string(i->data.data(), i->data.size()) : std::string(); }
bool exists(const std::string& path) { RtScope s; return find(path.c_str()) != nullptr; }
void remove(const std::string& path) { RtScope s; init(); files->erase(Str(path.c_str())); }
void truncate(const std::string& path, size_t n) { RtScope s; Inode* i = find(path.c_str()); if (i) i->resize(n); }
void faults(unsigned kinds, unsigned den) { fk = kinds; fden = den; }
void fail_op(uint64_t n, unsigned kind, bool sticky) { nth = n; nth_kind = kind; nth_sticky = sticky; }
void heal() { fk &= unsigned(SHORT | EINTR_); nth = 0; stuck = 0; space_left = -1; crash_left = -1; }
uint64_t failing_fired() { return fired; }
void reset_fired() { fired = 0; }
uint64_t ops() { return nops; }
unsigned open_files() { unsigned n = 0; if (fds) for (size_t i = 0; i < fds->size(); ++i) n += (*fds)[i].open; return n; }
void mkdir(const std::string& path) { put(path, ""); RtScope s; find(path.c_str())->dir = true; }
bool is_dir(const std::string& path) { RtScope s; Inode* i = find(path.c_str()); return i && i->dir; }
void crash_after_bytes(int64_t b) { crash_left = b; }
void space(int64_t b) { space_left = b; }
} }

#define NEXT(name) reinterpret_cast<decltype(&name)>(dlsym(RTLD_NEXT, #name))
extern "C" {
static FILE* f_open(const char* p, const char* m) {
    bool plus = strchr(m, '+'), x = strchr(m, 'x');
    bool rd = m[0] == 'r' || plus, wr = m[0] != 'r' || plus;
    long fd = d_open(p, rd, wr, m[0] == 'a', m[0] != 'r', m[0] == 'w', x);
    if (fd < 0) return nullptr;
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE* f = fopencookie(reinterpret_cast<void*>(intptr_t(fd)), m, io);
    (*fds)[size_t(fd - FD0)].f = f;
    return f;
}
FILE* fopen(const char* p, const char* m) { if (ours(p) && in_sim()) return f_open(p, m); static auto real = NEXT(fopen); return real(p, m); }
FILE* fopen64(const char* p, const char* m) { if (ours(p) && in_sim()) return f_open(p, m); static auto real = NEXT(fopen64); return real(p, m); }
int fileno(FILE* f) noexcept {
    if (fds) for (size_t i = 0; i < fds->size(); ++i) if ((*fds)[i].open && (*fds)[i].f == f) return FD0 + int(i);
    static auto real = NEXT(fileno); return real(f);
}
ssize_t read(int fd, void* b, size_t n) { if (ours(fd)) return d_read(fd, b, n); return raw3(SYS_read, fd, reinterpret_cast<long>(b), long(n)); }
ssize_t write(int fd, const void* b, size_t n) { if (ours(fd)) return d_write(fd, b, n); return raw3(SYS_write, fd, reinterpret_cast<long>(b), long(n)); }
ssize_t writev(int fd, const struct iovec* v, int n) {
    if (!ours(fd)) return raw3(SYS_writev, fd, reinterpret_cast<long>(v), n);
    // as one transfer
    Str all; { RtScope s; for (int i = 0; i < n; ++i) all.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len); }
    return d_write(fd, all.data(), all.size());
}
off_t lseek(int fd, off_t o, int w) noexcept { if (ours(fd)) return d_seek(fd, o, w); return raw3(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) noexcept { if (ours(fd)) return d_seek(fd, o, w); return raw3(SYS_lseek, fd, o, w); }
int open(const char* p, int fl, ...) {
    va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
    if (ours(p) && in_sim()) return flags_open(p, fl);
    return int(raw3(SYS_open, reinterpret_cast<long>(p), fl, mode));
}
int open64(const char* p, int fl, ...) {
    va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
    if (ours(p) && in_sim()) return flags_open(p, fl);
    return int(raw3(SYS_open, reinterpret_cast<long>(p), fl, mode));
}
int close(int fd) { if (ours(fd)) return d_close(fd); return int(raw3(SYS_close, fd, 0, 0)); }
int ioctl(int fd, unsigned long rq, ...) noexcept {
    va_list ap; va_start(ap, rq); void* a = va_arg(ap, void*); va_end(ap);
    if (ours(fd)) {
        RtScope s; OFile* f = of(fd); if (!f) { errno = EBADF; return -1; }
        if (rq == FIONREAD) { size_t l = f->pos < f->in->size() ? f->in->size() - f->pos : 0; *static_cast<int*>(a) = l > 0x7fffffff ? 0x7fffffff : int(l); return 0; }
        errno = ENOTTY; return -1;
    }
    return int(raw3(SYS_ioctl, fd, long(rq), reinterpret_cast<long>(a)));
}
int poll(struct pollfd* p, nfds_t n, int t) {
    for (nfds_t i = 0; i < n; ++i) if (ours(p[i].fd)) { p[i].revents = short(p[i].events); return 1; }
    return int(raw3(SYS_poll, reinterpret_cast<long>(p), long(n), t));
}
int fstat(int fd, struct stat* st) noexcept {
    if (ours(fd)) { RtScope s; OFile* f = of(fd); if (!f) { errno = EBADF; return -1; } return d_fstat(f->in, st); }
    return int(raw3(SYS_fstat, fd, reinterpret_cast<long>(st), 0));
}
int stat(const char* p, struct stat* st) noexcept {
    if (ours_dir(p) && in_sim()) { sync_point(); RtScope s; Inode* i = find(p); if (!i) { errno = ENOENT; return -1; } return d_fstat(i, st); }
    return int(raw3(SYS_stat, reinterpret_cast<long>(p), reinterpret_cast<long>(st), 0));
}
int lstat(const char* p, struct stat* st) noexcept { return stat(p, st); }
int access(const char* p, int m) noexcept {
    if (ours_dir(p) && in_sim()) { RtScope s; if (find(p)) return 0; errno = ENOENT; return -1; }
    return int(raw3(SYS_access, reinterpret_cast<long>(p), m, 0));
}
int rename(const char* a, const char* b) noexcept {
    if (ours(a) && in_sim()) {
        sync_point(); RtScope s; init(); auto it = files->find(Str(a)); if (it == files->end()) { errno = ENOENT; return -1; }
        Inode* in = it->second; files->erase(it); (*files)[Str(b)] = in; logf("rename %s %s", a, b); return 0;
    }
    return int(raw3(SYS_rename, reinterpret_cast<long>(a), reinterpret_cast<long>(b), 0));
}
int unlink(const char* p) noexcept {
    if (ours(p) && in_sim()) { sync_point(); RtScope s; init(); if (!files->erase(Str(p))) { errno = ENOENT; return -1; } return 0; }
    return int(raw3(SYS_unlink, reinterpret_cast<long>(p), 0, 0));
}
int mkdir(const char* p, mode_t m) noexcept {
    if (ours_dir(p) && in_sim()) {
        sync_point(); RtScope s; init();
        if (unsigned k = draw(D::EIO_ | D::ENOSPC_)) { errno = k == D::EIO_ ? EIO : ENOSPC; return -1; }
        if (find(p)) { errno = EEXIST; return -1; }
        Str q = trim(p); if (!dir_exists(parent(q))) { errno = ENOENT; return -1; }
        Inode* in = new (malloc(sizeof(Inode))) Inode; in->dir = true; (*files)[q] = in; logf("mkdir %s", p); return 0;
    }
    return int(raw3(SYS_mkdir, reinterpret_cast<long>(p), long(m), 0));
}
int remove(const char* p) noexcept { return unlink(p); }
int fsync(int fd) { if (ours(fd)) { sync_point(); return 0; } return int(raw3(SYS_fsync, fd, 0, 0)); }
int ftruncate(int fd, off_t n) noexcept {
    if (ours(fd)) { sync_point(); RtScope s; OFile* f = of(fd); if (!f) { errno = EBADF; return -1; } f->in->resize(size_t(n)); return 0; }
    return int(raw3(SYS_ftruncate, fd, n, 0));
}
}
