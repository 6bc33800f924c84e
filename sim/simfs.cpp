#include "engine.h"
#include "simfs.h"
#include <cerrno>
#include <cstdarg>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
SimFsShared *simfs = nullptr;
namespace {
const int NN = 16;
#define nodes simfs->nodes
struct Open { bool used, wr; int node; } fds[1024];
FILE *(*r_fopen)(const char *, const char *); int (*r_fclose)(FILE *);
int find(const char *p) { for (int i = 0; i < NN; ++i) if (nodes[i].path[0] && !strcmp(nodes[i].path, p)) return i; return -1; }
bool mine(const char *p) { return simfs && p && !strncmp(p, "/simfs/", 7); }
int create(const char *p) {
    int i = 0; while (i < NN && nodes[i].path[0]) ++i;
    if (i == NN) { errno = ENOSPC; return -1; }
    if (ftruncate(nodes[i].fd, 0)) return -1;
    strncpy(nodes[i].path, p, 119); return i;
}
void die() { simfs->st.crashes++; _exit(137); }
// changes of names, sizes and modes: -1 with errno, or does f; the process may end before or after it
template <class F> int meta(F f) {
    MetaPolicy &m = simfs->meta; bool hit = m.at && (int)++simfs->st.metas == m.at;
    if (hit && m.crash == 1) die();
    if (hit && m.err) { simfs->st.metaerrs++; errno = m.err; return -1; }
    int r = f(); if (hit && m.crash == 2) die();
    return r;
}
// common checks of opening; returns the node or -1
int pre_open(const char *p, bool wr, bool mk) {
    IoPolicy &pol = wr ? simfs->wr : simfs->rd;
    if (pol.crash_open == 1) die();
    if (pol.open_err) { simfs->st.openerrs++; errno = pol.open_err; return -1; }
    int i = find(p);
    if (i < 0 && !mk) { errno = ENOENT; return -1; }
    if (i < 0) i = create(p);
    return i;
}
void post_open(int fd, int node, bool wr) {
    if (fd >= 0 && fd < 1024) { fds[fd].used = true; fds[fd].wr = wr; fds[fd].node = node; }
    if (wr) simfs->st.opened_w++;
    if ((wr ? simfs->wr : simfs->rd).crash_open == 2) die();
}
const char *via(int node, char *b) { snprintf(b, 40, "/proc/self/fd/%d", nodes[node].fd); return b; }
int open_(const char *p, int fl, mode_t m) {
    bool wr = (fl & O_ACCMODE) != O_RDONLY;
    if ((fl & O_CREAT) && (fl & O_EXCL) && find(p) >= 0) { errno = EEXIST; return -1; }
    int n = pre_open(p, wr, fl & O_CREAT); if (n < 0) return -1;
    char b[40]; int fd = (int)syscall(SYS_openat, AT_FDCWD, via(n, b), fl & ~(O_CREAT | O_EXCL | O_NOFOLLOW), m);
    if (fd >= 0) post_open(fd, n, wr);
    return fd;
}
// how many of n bytes may be moved; <0: errno is set; may end the process after moving a part
int64_t admit(bool wr, int64_t n, bool &crash) {
    IoPolicy &p = wr ? simfs->wr : simfs->rd; IoStats &s = simfs->st;
    uint64_t &calls = wr ? simfs->wcalls : simfs->rcalls; int64_t moved = (int64_t)(wr ? s.wbytes : s.rbytes); int &left = wr ? simfs->wleft : simfs->rleft;
    crash = false; ++calls; (wr ? s.writes : s.reads)++;
    if (p.eintr && calls % (uint64_t)p.eintr == 0) { s.eintrs++; errno = EINTR; return -1; }
    int64_t k = n;
    if (p.chunk && k > p.chunk) k = p.chunk;
    if (p.crash_at >= 0 && moved + k >= p.crash_at) { k = p.crash_at > moved ? p.crash_at - moved : 0; crash = true; return k; }
    if (p.err_at >= 0 && left > 0 && moved + k > p.err_at) {
        if (moved >= p.err_at) { --left; (p.err_no == ENOSPC ? s.fulls : s.errs)++; errno = p.err_no; return -1; }
        k = p.err_at - moved;
    }
    // the error can also meet the call that would report the end of the file
    if (!wr && k < n) s.shorts++;
    if (wr && k < n) s.shorts++;
    return k;
}
ssize_t read_(int fd, void *b, size_t n) {
    bool crash; int64_t k = admit(false, (int64_t)n, crash); if (k < 0) return -1;
    if (crash) die();
    ssize_t r = k ? syscall(SYS_read, fd, b, (size_t)k) : 0;
    if (r > 0) simfs->st.rbytes += (uint64_t)r;
    return r;
}
ssize_t write_(int fd, const void *b, size_t n) {
    bool crash; int64_t k = admit(true, (int64_t)n, crash); if (k < 0) return -1;
    ssize_t r = k ? syscall(SYS_write, fd, b, (size_t)k) : 0;
    if (r > 0) simfs->st.wbytes += (uint64_t)r;
    if (crash) die();
    return r;
}
int pre_close(int fd) { IoPolicy &p = fds[fd].wr ? simfs->wr : simfs->rd; if (p.crash_close == 1) die(); return 0; }
int post_close(Open o) {
    IoPolicy &p = o.wr ? simfs->wr : simfs->rd;
    if (p.close_err) {
        simfs->st.closeerrs++; struct stat st;
        if (o.wr && !fstat(nodes[o.node].fd, &st)) { off_t z = st.st_size > p.close_lose ? st.st_size - p.close_lose : 0; if (ftruncate(nodes[o.node].fd, z)) {} }
        errno = p.close_err; return -1;
    }
    if (p.crash_close == 2) die();
    return 0;
}
inline bool simfd(int fd) { return simfs && fd >= 0 && fd < 1024 && fds[fd].used; }
FILE *fopen_(const char *p, const char *m) {
    bool wr = m[0] != 'r' || strchr(m, '+');
    int n = pre_open(p, wr, m[0] != 'r'); if (n < 0) return nullptr;
    char b[40]; int d = sim_sut_depth; sim_sut_depth = 0; FILE *f = r_fopen(via(n, b), m); sim_sut_depth = d;
    if (f) post_open(fileno(f), n, wr);
    return f;
}
void resolve() {
    if (r_fopen) return;
    int d = sim_sut_depth; sim_sut_depth = 0;
    r_fclose = (int (*)(FILE *))dlsym(RTLD_NEXT, "fclose"); r_fopen = (FILE * (*)(const char *, const char *))dlsym(RTLD_NEXT, "fopen64");
    sim_sut_depth = d;
}
}
void simfs_init() { resolve(); 
    if (simfs) return;
    simfs = (SimFsShared *)mmap(nullptr, sizeof *simfs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int i = 0; i < NN; ++i) {
        int fd = (int)syscall(SYS_memfd_create, "simfs", 0), hi = fd < 0 ? -1 : fcntl(fd, F_DUPFD, 200);
        if (hi < 0) { fprintf(stderr, "simfs: no memory file\n"); _exit(99); }
        syscall(SYS_close, fd); nodes[i].fd = hi;
    }
    simfs_reset_policy();
}
void simfs_reset_policy() { simfs->rd = IoPolicy(); simfs->wr = IoPolicy(); simfs->meta = MetaPolicy(); memset(&simfs->st, 0, sizeof simfs->st); simfs->rcalls = simfs->wcalls = 0; simfs->rleft = simfs->wleft = 0; }
void simfs_put(const std::string &path, const std::string &c) {
    int i = find(path.c_str()); if (i < 0) i = create(path.c_str());
    if (i < 0 || ftruncate(nodes[i].fd, 0) || pwrite(nodes[i].fd, c.data(), c.size(), 0) != (ssize_t)c.size()) { fprintf(stderr, "simfs: cannot store %s\n", path.c_str()); _exit(99); }
}
bool simfs_get(const std::string &path, std::string &c) {
    int i = find(path.c_str()); if (i < 0) return false;
    struct stat st; if (fstat(nodes[i].fd, &st)) return false;
    c.resize((size_t)st.st_size); return pread(nodes[i].fd, &c[0], c.size(), 0) == (ssize_t)c.size();
}
void simfs_sweep(const std::string &keep) { for (int i = 0; i < NN; ++i) if (keep != nodes[i].path) nodes[i].path[0] = 0; }
void simfs_remove(const std::string &path) { int i = find(path.c_str()); if (i >= 0) nodes[i].path[0] = 0; }

extern "C" {
FILE *fopen64(const char *p, const char *m) { resolve(); return mine(p) ? fopen_(p, m) : r_fopen(p, m); }
FILE *fopen(const char *p, const char *m) { return fopen64(p, m); }
int fclose(FILE *f) {
    resolve(); int fd = f ? fileno(f) : -1;
    if (!simfd(fd)) return r_fclose(f);
    pre_close(fd); Open o = fds[fd];
    int d = sim_sut_depth; sim_sut_depth = 0; int r = r_fclose(f); sim_sut_depth = d; fds[fd].used = false;
    return post_close(o) ? -1 : r;
}
int open64(const char *p, int fl, ...) { mode_t m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } return mine(p) ? open_(p, fl, m) : (int)syscall(SYS_openat, AT_FDCWD, p, fl, m); }
int open(const char *p, int fl, ...) { mode_t m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } return mine(p) ? open_(p, fl, m) : (int)syscall(SYS_openat, AT_FDCWD, p, fl, m); }
int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd) {
    if (!simfd(fd)) return (int)syscall(SYS_close, fd);
    pre_close(fd); Open o = fds[fd]; int r = (int)syscall(SYS_close, fd); fds[fd].used = false;
    return post_close(o) ? -1 : r;
}
ssize_t read(int fd, void *b, size_t n) { return simfd(fd) ? read_(fd, b, n) : syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { return simfd(fd) ? write_(fd, b, n) : syscall(SYS_write, fd, b, n); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!simfd(fd)) return syscall(SYS_writev, fd, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; ++i) { if (!v[i].iov_len) continue; ssize_t r = write_(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; }
    return t;
}
int rename(const char *a, const char *b) {
    if (!mine(a) || !mine(b)) return (int)syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b);
    return meta([&] {
        int i = find(a), j = find(b); if (i < 0) { errno = ENOENT; return -1; }
        if (j >= 0 && j != i) nodes[j].path[0] = 0;
        strncpy(nodes[i].path, b, 119); return 0;
    });
}
int renameat(int x, const char *a, int y, const char *b) { return mine(a) && mine(b) ? rename(a, b) : (int)syscall(SYS_renameat, x, a, y, b); }
int unlink(const char *p) { if (!mine(p)) return (int)syscall(SYS_unlinkat, AT_FDCWD, p, 0); return meta([&] { int i = find(p); if (i < 0) { errno = ENOENT; return -1; } nodes[i].path[0] = 0; return 0; }); }
int unlinkat(int d, const char *p, int f) { return mine(p) ? unlink(p) : (int)syscall(SYS_unlinkat, d, p, f); }
int remove(const char *p) { if (mine(p)) return unlink(p); int r = (int)syscall(SYS_unlinkat, AT_FDCWD, p, 0); return r && errno == EISDIR ? (int)syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR) : r; }
int fsync(int fd) { return simfd(fd) ? meta([] { return 0; }) : (int)syscall(SYS_fsync, fd); }
int fdatasync(int fd) { return simfd(fd) ? meta([] { return 0; }) : (int)syscall(SYS_fdatasync, fd); }
static int map_stat(const char *p) { int i = find(p); if (i < 0) { errno = ENOENT; return -1; } return nodes[i].fd; }
int stat(const char *p, struct stat *s) { if (mine(p)) { int f = map_stat(p); return f < 0 ? -1 : fstat(f, s); } return (int)syscall(SYS_newfstatat, AT_FDCWD, p, s, 0); }
int lstat(const char *p, struct stat *s) { if (mine(p)) { int f = map_stat(p); return f < 0 ? -1 : fstat(f, s); } return (int)syscall(SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
int stat64(const char *p, struct stat64 *s) { return stat(p, (struct stat *)s); }
int access(const char *p, int m) { if (mine(p)) return map_stat(p) < 0 ? -1 : 0; return (int)syscall(SYS_faccessat, AT_FDCWD, p, m); }
int truncate(const char *p, off_t n) { if (mine(p)) return meta([&] { int f = map_stat(p); return f < 0 ? -1 : (int)syscall(SYS_ftruncate, f, n); }); return (int)syscall(SYS_truncate, p, n); }
int truncate64(const char *p, off64_t n) { return truncate(p, n); }
int ftruncate(int fd, off_t n) { return simfd(fd) ? meta([&] { return (int)syscall(SYS_ftruncate, fd, n); }) : (int)syscall(SYS_ftruncate, fd, n); }
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int fallocate(int fd, int mode, off_t o, off_t n) { return simfd(fd) ? meta([&] { return (int)syscall(SYS_fallocate, fd, mode, o, n); }) : (int)syscall(SYS_fallocate, fd, mode, o, n); }
int posix_fallocate(int fd, off_t o, off_t n) { int e = errno, r = fallocate(fd, 0, o, n) ? errno : 0; errno = e; return r; }
int chmod(const char *p, mode_t m) { if (mine(p)) return meta([&] { return map_stat(p) < 0 ? -1 : 0; }); return (int)syscall(SYS_fchmodat, AT_FDCWD, p, m); }
int fchmod(int fd, mode_t m) { return simfd(fd) ? meta([] { return 0; }) : (int)syscall(SYS_fchmod, fd, m); }
int mkostemp(char *t, int fl) {
    size_t n = strlen(t); if (n < 6 || strcmp(t + n - 6, "XXXXXX")) { errno = EINVAL; return -1; }
    static const char ab[] = "abcdefghijklmnopqrstuvwxyz0123456789";
    for (unsigned k = 0; k < 10000; ++k) {
        unsigned v = k; if (!mine(t)) v = k * 7919u + (unsigned)syscall(SYS_getpid) * 104729u;
        for (int i = 0; i < 6; ++i, v /= 36) t[n - 6 + (size_t)i] = ab[v % 36];
        int fd = open(t, O_RDWR | O_CREAT | O_EXCL | fl, 0600); if (fd >= 0 || errno != EEXIST) return fd;
    }
    errno = EEXIST; return -1;
}
int mkstemp(char *t) { return mkostemp(t, 0); }
int mkstemp64(char *t) { return mkostemp(t, 0); }
int mkostemp64(char *t, int fl) { return mkostemp(t, fl); }
int openat(int d, const char *p, int fl, ...) { mode_t m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } return mine(p) ? open_(p, fl, m) : (int)syscall(SYS_openat, d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { mode_t m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } return mine(p) ? open_(p, fl, m) : (int)syscall(SYS_openat, d, p, fl, m); }
ssize_t pread(int fd, void *b, size_t n, off_t o) {
    if (!simfd(fd)) return syscall(SYS_pread64, fd, b, n, o);
    bool crash; int64_t k = admit(false, (int64_t)n, crash); if (k < 0) return -1;
    if (crash) die();
    ssize_t r = k ? syscall(SYS_pread64, fd, b, (size_t)k, o) : 0; if (r > 0) simfs->st.rbytes += (uint64_t)r; return r;
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return pread(fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
    if (!simfd(fd)) return syscall(SYS_pwrite64, fd, b, n, o);
    bool crash; int64_t k = admit(true, (int64_t)n, crash); if (k < 0) return -1;
    ssize_t r = k ? syscall(SYS_pwrite64, fd, b, (size_t)k, o) : 0; if (r > 0) simfs->st.wbytes += (uint64_t)r;
    if (crash) die();
    return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
}
