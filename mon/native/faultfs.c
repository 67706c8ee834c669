/* LD_PRELOAD shim: numbers the file-changing operations below one directory
 * and makes the chosen one crash the process or fail.
 *
 *   fault_arm(dir, n, mode, err):  the n-th operation (1-based)
 *       mode 0  only count and log
 *       mode 1  _exit before the operation
 *       mode 2  perform half of it (writes), then _exit
 *       mode 3  perform it, then _exit
 *       mode 4  fail with errno = err (this operation only)
 *       mode 5  fail with errno = err (this and all later writes/opens)
 *   fault_count(): operations seen so far
 *   fault_log(buf, size): one line per operation
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char g_dir[4096];
static int g_dirlen, g_n, g_mode, g_err, g_count, g_armed;
static char g_log[1 << 16];
static int g_loglen;
static char tracked[4096];

void fault_arm(const char *dir, int n, int mode, int err)
{
    strncpy(g_dir, dir, sizeof g_dir - 1);
    g_dirlen = strlen(g_dir);
    g_n = n; g_mode = mode; g_err = err; g_count = 0; g_armed = 1;
    g_loglen = 0; g_log[0] = 0;
    memset(tracked, 0, sizeof tracked);
}
void fault_disarm(void) { g_armed = 0; }
int fault_count(void) { return g_count; }
const char *fault_log(void) { return g_log; }

static int below(const char *p)
{
    return g_armed && p && strncmp(p, g_dir, g_dirlen) == 0 &&
           (p[g_dirlen] == '/' || p[g_dirlen] == 0);
}
static void logop(const char *op, const char *arg, long sz)
{
    int left = (int)sizeof g_log - g_loglen;
    int k = snprintf(g_log + g_loglen, left, "%d %s %s %ld\n", g_count, op, arg ? arg : "-", sz);
    if (k > 0 && k < left) g_loglen += k;
}
/* returns 0: go on, 1: fail with errno, 2: half then die, 3: do then die */
static int point(const char *op, const char *arg, long sz)
{
    g_count++;
    logop(op, arg, sz);
    if (g_mode == 5 && g_count >= g_n) { errno = g_err; return 1; }
    if (g_count != g_n) return 0;
    switch (g_mode) {
    case 1: _exit(77);
    case 2: return 2;
    case 3: return 3;
    case 4: errno = g_err; return 1;
    }
    return 0;
}
#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)
#define DIE _exit(77)

static void track(int fd) { if (fd >= 0 && fd < (int)sizeof tracked) tracked[fd] = 1; }
static int is_tracked(int fd) { return g_armed && fd >= 0 && fd < (int)sizeof tracked && tracked[fd]; }

#define OPENLIKE(name) \
int name(const char *path, int flags, ...) { \
    REAL(name); mode_t m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    int w = below(path) && (flags & (O_WRONLY | O_RDWR)), r = 0; \
    if (w) { r = point("open", path, flags & O_TRUNC ? 1 : 0); if (r == 1) return -1; } \
    int fd = real(path, flags, m); \
    if (r > 1) DIE; \
    if (w) track(fd); \
    return fd; }
OPENLIKE(open)
OPENLIKE(open64)

#define OPENATLIKE(name) \
int name(int d, const char *path, int flags, ...) { \
    REAL(name); mode_t m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    int w = below(path) && (flags & (O_WRONLY | O_RDWR)), r = 0; \
    if (w) { r = point("open", path, flags & O_TRUNC ? 1 : 0); if (r == 1) return -1; } \
    int fd = real(d, path, flags, m); \
    if (r > 1) DIE; \
    if (w) track(fd); \
    return fd; }
OPENATLIKE(openat)
OPENATLIKE(openat64)

#define FOPENLIKE(name) \
FILE *name(const char *path, const char *mode) { \
    REAL(name); \
    int w = below(path) && (strchr(mode, 'w') || strchr(mode, 'a') || strchr(mode, '+')), r = 0; \
    if (w) { r = point("fopen", path, 1); if (r == 1) return NULL; } \
    FILE *f = real(path, mode); \
    if (r > 1) DIE; \
    if (w && f) track(fileno(f)); \
    return f; }
FOPENLIKE(fopen)
FOPENLIKE(fopen64)

ssize_t write(int fd, const void *buf, size_t n)
{
    REAL(write);
    if (!is_tracked(fd)) return real(fd, buf, n);
    int r = point("write", NULL, n);
    if (r == 1) return -1;
    if (r == 2) { real(fd, buf, n / 2); DIE; }
    ssize_t k = real(fd, buf, n);
    if (r == 3) DIE;
    return k;
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
    REAL(writev);
    if (!is_tracked(fd)) return real(fd, v, c);
    long tot = 0;
    for (int i = 0; i < c; i++) tot += v[i].iov_len;
    int r = point("writev", NULL, tot);
    if (r == 1) return -1;
    if (r == 2) { if (c > 0) write(fd, v[0].iov_base, v[0].iov_len / 2); DIE; }
    ssize_t k = real(fd, v, c);
    if (r == 3) DIE;
    return k;
}
size_t fwrite(const void *p, size_t s, size_t n, FILE *f)
{
    REAL(fwrite);
    if (!is_tracked(fileno(f))) return real(p, s, n, f);
    int r = point("fwrite", NULL, s * n);
    if (r == 1) return 0;
    if (r == 2) { real(p, 1, s * n / 2, f); fflush(f); DIE; }
    size_t k = real(p, s, n, f);
    if (r == 3) { fflush(f); DIE; }
    return k;
}
int close(int fd)
{
    REAL(close);
    if (is_tracked(fd)) {
        tracked[fd] = 0;
        int r = point("close", NULL, 0);
        if (r > 1) { real(fd); DIE; }
        if (r == 1) { int e = errno; real(fd); errno = e; return -1; }
    }
    return real(fd);
}
int fclose(FILE *f)
{
    REAL(fclose);
    if (f && is_tracked(fileno(f))) {
        tracked[fileno(f)] = 0;
        int r = point("fclose", NULL, 0);
        if (r > 1) { real(f); DIE; }
        if (r == 1) { int e = errno; real(f); errno = e; return EOF; }
    }
    return real(f);
}
#define PATH1(name, args, call) \
int name args { REAL(name); \
    if (below(p)) { int r = point(#name, p, 0); if (r == 1) return -1; int k = real call; if (r > 1) DIE; return k; } \
    return real call; }
PATH1(unlink, (const char *p), (p))
PATH1(remove, (const char *p), (p))
PATH1(rmdir, (const char *p), (p))
PATH1(mkdir, (const char *p, mode_t m), (p, m))
PATH1(truncate, (const char *p, off_t l), (p, l))
PATH1(rename, (const char *o, const char *p), (o, p))
int unlinkat(int d, const char *p, int fl) { REAL(unlinkat);
    if (below(p)) { int r = point("unlinkat", p, 0); if (r == 1) return -1; int k = real(d, p, fl); if (r > 1) DIE; return k; }
    return real(d, p, fl); }
int renameat(int a, const char *o, int b, const char *p) { REAL(renameat);
    if (below(p)) { int r = point("renameat", p, 0); if (r == 1) return -1; int k = real(a, o, b, p); if (r > 1) DIE; return k; }
    return real(a, o, b, p); }
#define FTR(name, type) int name(int fd, type l) { REAL(name); \
    if (is_tracked(fd)) { int r = point(#name, NULL, l); if (r == 1) return -1; int k = real(fd, l); if (r > 1) DIE; return k; } \
    return real(fd, l); }
FTR(ftruncate, off_t)
FTR(ftruncate64, off64_t)
