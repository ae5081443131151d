/* Process death at the n-th write-side system call below a directory.
 * LD_PRELOADed; armed and queried through ctypes (see crash.py). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

static char root[PATH_MAX];
static size_t rootlen;
static int count, target;
#define MAXTRACE 20000
static char *trace[MAXTRACE];

void inj_arm(const char *r, int t) {
    for (int i = 0; i < count && i < MAXTRACE; i++) { free(trace[i]); trace[i] = 0; }
    count = 0; target = t;
    strncpy(root, r, sizeof root - 1); rootlen = strlen(root);
}
void inj_disarm(void) { rootlen = 0; }
int inj_count(void) { return count; }
const char *inj_trace(int i) { return i < count && i < MAXTRACE ? trace[i] : ""; }

static int watched(const char *p) {
    return rootlen && p && !strncmp(p, root, rootlen) && (p[rootlen] == '/' || !p[rootlen]);
}
static const char *fdpath(int fd, char *buf) {
    char link[64];
    if (!rootlen) return 0;
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(link, buf, PATH_MAX - 1);
    if (n < 0) return 0;
    buf[n] = 0;
    return watched(buf) ? buf : 0;
}
/* returns 1 when this is the operation to die at */
static int hit(const char *what, const char *path) {
    count++;
    if (count <= MAXTRACE) {
        char b[PATH_MAX + 32];
        snprintf(b, sizeof b, "%s %s", what, path + rootlen);
        trace[count - 1] = strdup(b);
    }
    return target && count == target;
}
#define REAL(name) ({ static void *p; if (!p) p = dlsym(RTLD_NEXT, #name); (__typeof__(&name))p; })

#define WRITE_BODY(CALL_HALF, CALL) \
    char b[PATH_MAX]; const char *p; int e = errno; \
    if (rootlen && (p = fdpath(fd, b)) && hit("write", p)) { if (n > 1) { size_t half = n / 2; CALL_HALF; } _exit(77); } \
    errno = e; return CALL;

ssize_t write(int fd, const void *buf, size_t n) { WRITE_BODY((void)!REAL(write)(fd, buf, half), REAL(write)(fd, buf, n)) }
ssize_t pwrite(int fd, const void *buf, size_t n, off_t o) { WRITE_BODY((void)!REAL(pwrite)(fd, buf, half, o), REAL(pwrite)(fd, buf, n, o)) }
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) { WRITE_BODY((void)!REAL(pwrite64)(fd, buf, half, o), REAL(pwrite64)(fd, buf, n, o)) }

#define FD_BODY(what, CALL) char b[PATH_MAX]; const char *p; int e = errno; \
    if (rootlen && (p = fdpath(fd, b)) && hit(what, p)) _exit(77); errno = e; return CALL;
int ftruncate(int fd, off_t l) { FD_BODY("ftruncate", REAL(ftruncate)(fd, l)) }
int ftruncate64(int fd, off64_t l) { FD_BODY("ftruncate", REAL(ftruncate64)(fd, l)) }

#define PATH_BODY(what, path, CALL) if (watched(path) && hit(what, path)) _exit(77); return CALL;
int unlink(const char *p) { PATH_BODY("unlink", p, REAL(unlink)(p)) }
int unlinkat(int d, const char *p, int f) { PATH_BODY("unlink", p, REAL(unlinkat)(d, p, f)) }
int rmdir(const char *p) { PATH_BODY("rmdir", p, REAL(rmdir)(p)) }
int mkdir(const char *p, mode_t m) { PATH_BODY("mkdir", p, REAL(mkdir)(p, m)) }
int mkdirat(int d, const char *p, mode_t m) { PATH_BODY("mkdir", p, REAL(mkdirat)(d, p, m)) }
int truncate(const char *p, off_t l) { PATH_BODY("truncate", p, REAL(truncate)(p, l)) }
int truncate64(const char *p, off64_t l) { PATH_BODY("truncate", p, REAL(truncate64)(p, l)) }
int rename(const char *a, const char *p) { PATH_BODY("rename", p, REAL(rename)(a, p)) }
int renameat(int da, const char *a, int d, const char *p) { PATH_BODY("rename", p, REAL(renameat)(da, a, d, p)) }
int link(const char *a, const char *p) { PATH_BODY("link", p, REAL(link)(a, p)) }
int linkat(int da, const char *a, int d, const char *p, int f) { PATH_BODY("link", p, REAL(linkat)(da, a, d, p, f)) }
int symlink(const char *a, const char *p) { PATH_BODY("symlink", p, REAL(symlink)(a, p)) }

#define MODE mode_t m = 0; if (f & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, f); m = va_arg(ap, mode_t); va_end(ap); }
#define CREATES (f & (O_CREAT | O_TRUNC)) && watched(p) && (f & O_TRUNC || access(p, F_OK))
int open(const char *p, int f, ...) { MODE int e = errno; if (CREATES && hit("create", p)) _exit(77); errno = e; return REAL(open)(p, f, m); }
int open64(const char *p, int f, ...) { MODE int e = errno; if (CREATES && hit("create", p)) _exit(77); errno = e; return REAL(open64)(p, f, m); }
int openat(int d, const char *p, int f, ...) { MODE int e = errno; if (CREATES && hit("create", p)) _exit(77); errno = e; return REAL(openat)(d, p, f, m); }
int openat64(int d, const char *p, int f, ...) { MODE int e = errno; if (CREATES && hit("create", p)) _exit(77); errno = e; return REAL(openat64)(d, p, f, m); }
