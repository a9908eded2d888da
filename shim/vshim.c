/* LD_PRELOAD stand-in for mutating file-system calls of the code under test.
 *   VSHIM_ROOT    only calls on paths below this directory are counted
 *   VSHIM_MODE    "crash": the VSHIM_AT-th counted call ends the process before it takes effect
 *                 "fail":  that call (and, with VSHIM_STICKY=1, every later one) returns -1/EIO
 *                 "stop":  before that call takes effect the process stops (SIGSTOP) until it is continued
 *                 "off":   count and log only
 *   VSHIM_CONFINE calls on paths outside this directory are logged as "ESCAPE" and refused (EPERM)
 *   VSHIM_LOG     file that receives one line per counted or escaping call
 *   VSHIM_BTIME   statx reports the modification time as the creation time
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>

static int on = -1, mode, at, sticky, btime_, logfd = -1;
static int count;
static char root[PATH_MAX], confine[PATH_MAX];

static void init(void) {
    if (on >= 0) return;
    const char *m = getenv("VSHIM_MODE"), *r = getenv("VSHIM_ROOT"), *c = getenv("VSHIM_CONFINE"), *l = getenv("VSHIM_LOG");
    btime_ = getenv("VSHIM_BTIME") != NULL;
    mode = !m ? 0 : !strcmp(m, "crash") ? 1 : !strcmp(m, "fail") ? 2 : !strcmp(m, "stop") ? 3 : 0;
    at = getenv("VSHIM_AT") ? atoi(getenv("VSHIM_AT")) : 0;
    sticky = getenv("VSHIM_STICKY") && *getenv("VSHIM_STICKY") == '1';
    snprintf(root, sizeof root, "%s", r ? r : "");
    snprintf(confine, sizeof confine, "%s", c ? c : "");
    if (l) logfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
    on = (*root || *confine) ? 1 : 0;
}
static int under(const char *p, const char *d) {
    size_t n = strlen(d);
    return n && !strncmp(p, d, n) && (p[n] == '/' || p[n] == 0);
}
/* absolute path with the directory part resolved through symbolic links */
static void absolute(int dfd, const char *p, char *out) {
    char tmp[PATH_MAX * 2], dir[PATH_MAX], real[PATH_MAX];
    if (p[0] == '/') snprintf(tmp, sizeof tmp, "%s", p);
    else {
        char base[PATH_MAX] = "";
        if (dfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) base[0] = 0; }
        else {
            char ln[64]; snprintf(ln, sizeof ln, "/proc/self/fd/%d", dfd);
            ssize_t k = readlink(ln, base, sizeof base - 1); if (k >= 0) base[k] = 0;
        }
        snprintf(tmp, sizeof tmp, "%s/%s", base, p);
    }
    size_t n = strlen(tmp);
    while (n > 1 && tmp[n - 1] == '/') tmp[--n] = 0;
    char *s = strrchr(tmp, '/');
    if (!s) { snprintf(out, PATH_MAX, "%s", tmp); return; }
    const char *leaf = s + 1;
    if (!strcmp(leaf, "..") || !strcmp(leaf, ".")) {
        if (realpath(tmp, real)) { snprintf(out, PATH_MAX, "%s", real); return; }
    }
    size_t k = s - tmp; if (k >= sizeof dir) k = sizeof dir - 1;
    memcpy(dir, tmp, k); dir[k] = 0;
    if (!realpath(*dir ? dir : "/", real)) snprintf(real, sizeof real, "%s", dir);
    snprintf(out, PATH_MAX, "%s/%s", strcmp(real, "/") ? real : "", leaf);
}
static void logline(const char *k, const char *op, const char *p) {
    if (logfd < 0) return;
    char b[PATH_MAX + 64]; int n = snprintf(b, sizeof b, "%s %s %s\n", k, op, p);
    if (n > 0) syscall(SYS_write, logfd, b, (size_t)n);
}
/* 0: go on; -1: refuse with errno set */
static int gate_(const char *op, const char *a) {
    if (*confine && !under(a, confine) && strncmp(a, "/dev/", 5) && strncmp(a, "/proc/", 6)) { logline("ESCAPE", op, a); errno = EPERM; return -1; }
    if (*root && under(a, root)) {
        int n = ++count;
        logline("CALL", op, a);
        if (mode == 1 && n == at) { logline("CRASH", op, a); syscall(SYS_exit_group, 137); }
        if (mode == 3 && n == at) { logline("STOP", op, a); syscall(SYS_kill, getpid(), SIGSTOP); }
        if (mode == 2 && at && (n == at || (sticky && n > at))) { logline("FAIL", op, a); errno = EIO; return -1; }
    }
    return 0;
}
static int gate(const char *op, int dfd, const char *p) {
    init();
    if (on != 1 || !p) return 0;
    char a[PATH_MAX]; absolute(dfd, p, a);
    return gate_(op, a);
}
static int gatefd(const char *op, int fd) {
    init();
    if (on != 1) return 0;
    char ln[64], a[PATH_MAX]; snprintf(ln, sizeof ln, "/proc/self/fd/%d", fd);
    ssize_t k = readlink(ln, a, sizeof a - 1); if (k <= 0) return 0; a[k] = 0;
    if (a[0] != '/') return 0;
    /* only regular files below the roots matter; never confine writes to inherited descriptors */
    if (!(*root && under(a, root))) return 0;
    return gate_(op, a);
}
#define REAL(t, n, args) static t (*r) args; if (!r) r = (t(*) args)dlsym(RTLD_NEXT, n)
#define MUT(f) ((f) & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR))

int unlink(const char *p) { REAL(int, "unlink", (const char *)); if (gate("unlink", AT_FDCWD, p)) return -1; return r(p); }
int unlinkat(int d, const char *p, int f) { REAL(int, "unlinkat", (int, const char *, int)); if (gate("unlink", d, p)) return -1; return r(d, p, f); }
int rmdir(const char *p) { REAL(int, "rmdir", (const char *)); if (gate("rmdir", AT_FDCWD, p)) return -1; return r(p); }
int remove(const char *p) { REAL(int, "remove", (const char *)); if (gate("remove", AT_FDCWD, p)) return -1; return r(p); }
int mkdir(const char *p, mode_t m) { REAL(int, "mkdir", (const char *, mode_t)); if (gate("mkdir", AT_FDCWD, p)) return -1; return r(p, m); }
int mkdirat(int d, const char *p, mode_t m) { REAL(int, "mkdirat", (int, const char *, mode_t)); if (gate("mkdir", d, p)) return -1; return r(d, p, m); }
int rename(const char *a, const char *b) { REAL(int, "rename", (const char *, const char *)); if (gate("rename", AT_FDCWD, b)) return -1; return r(a, b); }
int renameat(int d, const char *a, int e, const char *b) { REAL(int, "renameat", (int, const char *, int, const char *)); if (gate("rename", e, b)) return -1; return r(d, a, e, b); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) { REAL(int, "renameat2", (int, const char *, int, const char *, unsigned)); if (gate("rename", e, b)) return -1; return r(d, a, e, b, f); }
int symlink(const char *a, const char *b) { REAL(int, "symlink", (const char *, const char *)); if (gate("symlink", AT_FDCWD, b)) return -1; return r(a, b); }
int link(const char *a, const char *b) { REAL(int, "link", (const char *, const char *)); if (gate("link", AT_FDCWD, b)) return -1; return r(a, b); }
int linkat(int d, const char *a, int e, const char *b, int f) { REAL(int, "linkat", (int, const char *, int, const char *, int)); if (gate("link", e, b)) return -1; return r(d, a, e, b, f); }
int chmod(const char *p, mode_t m) { REAL(int, "chmod", (const char *, mode_t)); if (gate("chmod", AT_FDCWD, p)) return -1; return r(p, m); }
int open(const char *p, int f, ...) { REAL(int, "open", (const char *, int, ...)); mode_t m = 0; va_list ap; va_start(ap, f); if (f & (O_CREAT | O_TMPFILE)) m = va_arg(ap, mode_t); va_end(ap);
    if (MUT(f) && gate("open", AT_FDCWD, p)) return -1; return r(p, f, m); }
int open64(const char *p, int f, ...) { REAL(int, "open64", (const char *, int, ...)); mode_t m = 0; va_list ap; va_start(ap, f); if (f & (O_CREAT | O_TMPFILE)) m = va_arg(ap, mode_t); va_end(ap);
    if (MUT(f) && gate("open", AT_FDCWD, p)) return -1; return r(p, f, m); }
int openat(int d, const char *p, int f, ...) { REAL(int, "openat", (int, const char *, int, ...)); mode_t m = 0; va_list ap; va_start(ap, f); if (f & (O_CREAT | O_TMPFILE)) m = va_arg(ap, mode_t); va_end(ap);
    if (MUT(f) && gate("open", d, p)) return -1; return r(d, p, f, m); }
int openat64(int d, const char *p, int f, ...) { REAL(int, "openat64", (int, const char *, int, ...)); mode_t m = 0; va_list ap; va_start(ap, f); if (f & (O_CREAT | O_TMPFILE)) m = va_arg(ap, mode_t); va_end(ap);
    if (MUT(f) && gate("open", d, p)) return -1; return r(d, p, f, m); }
ssize_t write(int fd, const void *b, size_t n) { REAL(ssize_t, "write", (int, const void *, size_t)); if (fd > 2 && gatefd("write", fd)) return -1; return r(fd, b, n); }
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) { REAL(ssize_t, "copy_file_range", (int, off64_t *, int, off64_t *, size_t, unsigned)); if (gatefd("copy", b)) return -1; return r(a, x, b, y, n, f); }
ssize_t sendfile64(int o, int i, off64_t *x, size_t n) { REAL(ssize_t, "sendfile64", (int, int, off64_t *, size_t)); if (gatefd("copy", o)) return -1; return r(o, i, x, n); }
int statx(int d, const char *p, int f, unsigned m, struct statx *b) {
    REAL(int, "statx", (int, const char *, int, unsigned, struct statx *));
    init();
    int k = r(d, p, f, m, b);
    if (!k && btime_) { b->stx_btime = b->stx_mtime; b->stx_mask |= STATX_BTIME; }
    return k;
}
