/* simshim: the simulated disk/entropy seam.
 *
 * Preloaded in front of libc. It numbers every system call that touches a *tracked* path (or a tracked
 * standard stream) and lets the simulator decide its outcome: an errno, a short write, an interruption,
 * or the death of the process before or after it. Untracked calls pass through untouched. getrandom()
 * can be replaced by a seeded stream, so that hash seeds drawn by Rust's std are part of the plan.
 *
 * Script (sim_io_arm or SIM_IO_SCRIPT): items "N:ACT" separated by ','; N = index of the tracked call, or
 * "N+" for that call and all later ones; or "w" "o" "c" "m" + N for the N-th write/open/close/mkdir only.
 * ACT: Exx errno xx | Snn write only nn bytes | I EINTR | X die before | Y die after | Dnn write nn bytes, then die
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 4096
#define MAXRULE 64
static char prefix[PATH_MAX];
static unsigned char tracked[MAXFD];
static int armed, count, nrule, logfd = -1, track_std, track_rel;
static int kcount[256];
static struct { char kind; int n, plus; char act; long arg; int fired; } rule[MAXRULE];
static char logbuf[1 << 16];
static size_t loglen;
static uint64_t rnd_state; static int rnd_on; static long rnd_calls;

#define REAL(name) ({ static __typeof__(&name) f_; if (!f_) f_ = (__typeof__(&name))dlsym(RTLD_NEXT, #name); f_; })

static void logev(const char *fmt, ...) {
    char b[PATH_MAX + 128]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (n < 0) return; if (n > (int)sizeof b - 1) n = sizeof b - 1;
    if (loglen + n < sizeof logbuf) { memcpy(logbuf + loglen, b, n); loglen += n; }
    if (logfd >= 0) { ssize_t r = REAL(write)(logfd, b, n); (void)r; }
}

static void parse(const char *s) {
    nrule = 0;
    while (s && *s && nrule < MAXRULE) {
        char kind = 0; if (*s == 'w' || *s == 'o' || *s == 'c' || *s == 'm' || *s == 'r') kind = *s++;
        char *e; long n = strtol(s, &e, 10); int plus = 0; if (*e == '+') { plus = 1; e++; }
        if (*e != ':') break;
        char act = *++e; e++;
        long arg = strtol(e, &e, 10);
        rule[nrule].kind = kind; rule[nrule].n = n; rule[nrule].plus = plus; rule[nrule].act = act; rule[nrule].arg = arg; rule[nrule].fired = 0; nrule++;
        s = e; if (*s == ',') s++;
    }
}

void sim_io_arm(const char *path_prefix, const char *script, int std_mask) {
    snprintf(prefix, sizeof prefix, "%s", path_prefix ? path_prefix : "");
    parse(script); memset(tracked, 0, sizeof tracked); memset(kcount, 0, sizeof kcount);
    count = 0; loglen = 0; track_std = std_mask; if (std_mask & 2) tracked[1] = 1; if (std_mask & 4) tracked[2] = 1; armed = 1;
}
void sim_io_disarm(void) { armed = 0; }
size_t sim_io_log(char *out, size_t cap) { size_t n = loglen < cap ? loglen : cap; memcpy(out, logbuf, n); return n; }
int sim_io_count(void) { return count; }
void sim_rand(uint64_t seed, int on) { rnd_state = seed * 0x9E3779B97F4A7C15ull + 1; rnd_on = on; rnd_calls = 0; }
long sim_rand_calls(void) { return rnd_calls; }

__attribute__((constructor)) static void init(void) {
    const char *p = getenv("SIM_IO_PREFIX"), *s = getenv("SIM_IO_SCRIPT"), *l = getenv("SIM_IO_LOG"), *m = getenv("SIM_IO_STD"), *r = getenv("SIM_RAND");
    track_rel = getenv("SIM_IO_REL") != 0;
    if (r) sim_rand(strtoull(r, 0, 10), 1);
    if (p || m) {
        if (l) logfd = REAL(open)(l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
        if (logfd >= 0) { int f = fcntl(logfd, F_DUPFD_CLOEXEC, 900); if (f >= 0) { REAL(close)(logfd); logfd = f; } }
        sim_io_arm(p ? p : "", s ? s : "", m ? atoi(m) : 0);
        if (!p) prefix[0] = 0;
    }
}

static int interesting(const char *path) {
    return armed && path && ((prefix[0] && strncmp(path, prefix, strlen(prefix)) == 0) || (track_rel && path[0] != '/'));
}
static int fdt(int fd) { return armed && fd >= 0 && fd < MAXFD && tracked[fd]; }

/* returns 1 when the call must not reach the kernel as is; *ret/errno set. limit: bytes allowed (short write) or -1 */
static void die(void) { logev("die\n"); _exit(137); }
static int decide(char kind, const char *what, long len, long *limit, int *die_after) {
    int idx = count++, kidx = kcount[(unsigned char)kind]++;
    *limit = -1; *die_after = 0;
    for (int i = 0; i < nrule; i++) {
        int at = rule[i].kind ? (rule[i].kind == kind ? kidx : -1) : idx;
        if (at < 0 || !(at == rule[i].n || (rule[i].plus && at >= rule[i].n))) continue;
        rule[i].fired++;
        switch (rule[i].act) {
        case 'E': logev("%d %s %ld E%ld\n", idx, what, len, rule[i].arg); errno = (int)rule[i].arg; return 1;
        case 'I': logev("%d %s %ld I\n", idx, what, len); errno = EINTR; return 1;
        case 'X': logev("%d %s %ld X\n", idx, what, len); die(); break;
        case 'Y': logev("%d %s %ld Y\n", idx, what, len); *die_after = 1; return 0;
        case 'S': if (kind == 'w' && len > 1) { *limit = rule[i].arg < len ? rule[i].arg : len - 1; if (*limit < 1) *limit = 1; logev("%d %s %ld S%ld\n", idx, what, len, *limit); return 0; } break;
        case 'D': if (kind == 'w') { *limit = rule[i].arg < len ? rule[i].arg : len; *die_after = 1; logev("%d %s %ld D%ld\n", idx, what, len, *limit); return 0; } break;
        }
    }
    logev("%d %s %ld\n", idx, what, len);
    return 0;
}

#define OPENBODY(call) \
    mode_t mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
    (void)mode; \
    if (!interesting(path)) { int fd_ = call; if (fd_ >= 0 && fd_ < MAXFD && fd_ > 2) tracked[fd_] = 0; return fd_; } \
    if ((flags & O_ACCMODE) == O_RDONLY && !(flags & (O_CREAT | O_TRUNC))) return call; \
    long lim; int da; if (decide('o', flags & O_TRUNC ? "open-trunc" : "open", 0, &lim, &da)) return -1; \
    int fd_ = call; if (da) die(); if (fd_ >= 0 && fd_ < MAXFD) tracked[fd_] = 1; return fd_;

int open(const char *path, int flags, ...) { OPENBODY(REAL(open)(path, flags, mode)) }
int open64(const char *path, int flags, ...) { OPENBODY(REAL(open64)(path, flags, mode)) }
int openat(int d, const char *path, int flags, ...) { OPENBODY(REAL(openat)(d, path, flags, mode)) }
int openat64(int d, const char *path, int flags, ...) { OPENBODY(REAL(openat64)(d, path, flags, mode)) }

ssize_t write(int fd, const void *buf, size_t n) {
    if (!fdt(fd)) return REAL(write)(fd, buf, n);
    long lim; int da; if (decide('w', fd == 1 ? "write1" : "write", n, &lim, &da)) return -1;
    ssize_t r = REAL(write)(fd, buf, lim >= 0 ? (size_t)lim : n); if (da) die(); return r;
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) {
    if (!fdt(fd)) return REAL(pwrite64)(fd, buf, n, o);
    long lim; int da; if (decide('w', "pwrite", n, &lim, &da)) return -1;
    ssize_t r = REAL(pwrite64)(fd, buf, lim >= 0 ? (size_t)lim : n, o); if (da) die(); return r;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!fdt(fd)) return REAL(writev)(fd, v, c);
    size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
    long lim; int da; if (decide('w', "writev", n, &lim, &da)) return -1;
    ssize_t r;
    if (lim >= 0 && c > 0) { size_t k = v[0].iov_len; if ((size_t)lim < k) k = lim; r = REAL(write)(fd, v[0].iov_base, k); }
    else r = REAL(writev)(fd, v, c);
    if (da) die(); return r;
}
int close(int fd) {
    if (!fdt(fd) || fd <= 2) return REAL(close)(fd);
    tracked[fd] = 0;
    long lim; int da; int e = decide('c', "close", 0, &lim, &da); int en = errno;
    int r = REAL(close)(fd); if (da) die(); if (e) { errno = en; return -1; } return r;
}
#define SIMPLE(kind, name, pathexpr, sig, args) \
    int name sig { if (!interesting(pathexpr)) return REAL(name) args; \
        long lim; int da; if (decide(kind, #name, 0, &lim, &da)) return -1; int r = REAL(name) args; if (da) die(); return r; }
SIMPLE('m', mkdir, p, (const char *p, mode_t m), (p, m))
SIMPLE('r', rename, b, (const char *a, const char *b), (a, b))
SIMPLE('r', renameat, b, (int x, const char *a, int y, const char *b), (x, a, y, b))
SIMPLE('r', unlink, p, (const char *p), (p))
SIMPLE('r', truncate64, p, (const char *p, off64_t l), (p, l))
#define FDOP(kind, name, sig, args) \
    int name sig { if (!fdt(fd)) return REAL(name) args; \
        long lim; int da; if (decide(kind, #name, 0, &lim, &da)) return -1; int r = REAL(name) args; if (da) die(); return r; }
FDOP('r', fsync, (int fd), (fd))
FDOP('r', fdatasync, (int fd), (fd))
FDOP('r', ftruncate, (int fd, off_t l), (fd, l))
FDOP('r', ftruncate64, (int fd, off64_t l), (fd, l))

ssize_t getrandom(void *buf, size_t n, unsigned int flags) {
    if (!rnd_on) return REAL(getrandom)(buf, n, flags);
    rnd_calls++;
    unsigned char *b = buf;
    for (size_t i = 0; i < n; i++) { rnd_state ^= rnd_state << 13; rnd_state ^= rnd_state >> 7; rnd_state ^= rnd_state << 17; b[i] = (unsigned char)(rnd_state >> 24); }
    return n;
}
