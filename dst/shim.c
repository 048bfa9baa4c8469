/* LD_PRELOAD seam between the code under test (CPython + libhdf5 + karabo_data)
 * and the file system.  All paths below /gpfs are virtual: they are mapped to
 * a scratch directory private to the simulated run, so absolute paths, and the
 * facility paths hard-coded in karabo_data, are identical in every run.
 *
 * Every operation on a virtual path is counted and offered to a small table of
 * fault rules.  A rule names the operations it applies to, a substring of the
 * virtual path, how many matching operations to let pass, how many to hit, and
 * what to do: fail with an errno, do a short transfer, run out of space after
 * N bytes, or crash the process (optionally after a torn write).
 * Path operations on anything but HDF5 files are also yield points for the
 * deterministic scheduler (yield_cb).
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <dirent.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define VP "/gpfs"
#define VPL 5
#define MAXFD 8192
#define MAXRULE 32

enum { OPEN_R = 1, OPEN_W = 2, READ_ = 4, WRITE_ = 8, STAT_ = 16, LIST_ = 32,
       RENAME_ = 64, UNLINK_ = 128, MKDIR_ = 256, FSYNC_ = 512, CLOSE_ = 1024,
       FTRUNC_ = 2048, META_ = 4096 };
#define NOPS 13
enum { A_ERRNO = 1, A_SHORT = 2, A_CRASH = 3, A_TORN = 4, A_QUOTA = 5, A_DEAD = 6 };

struct rule { int on; unsigned ops; char pat[256]; long skip, count; int action; int err; long arg; long seen, fired; };

static char root[PATH_MAX]; static int rootlen = 0;
static char *fdpath[MAXFD];
static struct rule rules[MAXRULE]; static int nrules = 0;
static long opcount[NOPS];
static long mut_seq = 0;          /* mutating operations so far */
static __thread int dead = 0;     /* this simulated process has crashed */
static uint64_t listseed = 0;
typedef void (*yield_t)(int op, const char *path);
static yield_t yield_cb = NULL;
static int quiet = 1;             /* 1: harness is working, no faults, no counts */
static FILE *tracef = NULL;

static int opix(unsigned op) { int i = 0; while (op > 1) { op >>= 1; i++; } return i; }
static int is_mut(unsigned op) { return op & (OPEN_W | WRITE_ | RENAME_ | UNLINK_ | MKDIR_ | FTRUNC_ | META_); }

/* ---- control interface (ctypes) ---- */
void kd_set_root(const char *r) { strncpy(root, r, sizeof root - 1); rootlen = strlen(root); }
void kd_quiet(int q) { quiet = q; }
void kd_set_yield(yield_t cb) { yield_cb = cb; }
void kd_set_listseed(uint64_t s) { listseed = s; }
void kd_clear_rules(void) { nrules = 0; memset(rules, 0, sizeof rules); }
int kd_add_rule(unsigned ops, const char *pat, long skip, long count, int action, int err, long arg) {
    if (nrules >= MAXRULE) return -1;
    struct rule *r = &rules[nrules];
    memset(r, 0, sizeof *r);
    r->on = 1; r->ops = ops; strncpy(r->pat, pat, sizeof r->pat - 1);
    r->skip = skip; r->count = count; r->action = action; r->err = err; r->arg = arg;
    return nrules++;
}
void kd_rule_off(int i) { if (i >= 0 && i < nrules) rules[i].on = 0; }
long kd_rule_fired(int i) { return (i >= 0 && i < nrules) ? rules[i].fired : -1; }
long kd_rule_seen(int i) { return (i >= 0 && i < nrules) ? rules[i].seen : -1; }
long kd_opcount(int i) { return opcount[i]; }
void kd_reset_counts(void) { memset(opcount, 0, sizeof opcount); mut_seq = 0; }
long kd_mutseq(void) { return mut_seq; }
void kd_set_dead(int d) { dead = d; }
int kd_get_dead(void) { return dead; }
int kd_present(void) { return 1; }
int kd_open_fds(const char *pat) { int n = 0; for (int i = 0; i < MAXFD; i++) if (fdpath[i] && strstr(fdpath[i], pat)) n++; return n; }
void kd_trace(const char *p) { if (tracef) { fclose(tracef); tracef = NULL; } if (p && *p) { tracef = fopen(p, "w"); } }

static int is_virtual(const char *p) {
    return rootlen && p && strncmp(p, VP, VPL) == 0 && (p[VPL] == '/' || p[VPL] == 0);
}
static const char *tr(const char *p, char *buf) {
    if (!is_virtual(p)) return p;
    snprintf(buf, PATH_MAX, "%s%s", root, p);
    return buf;
}
static int is_h5(const char *p) { size_t n = strlen(p); return n > 3 && strcmp(p + n - 3, ".h5") == 0; }

/* Returns 0: proceed; >0: fail with this errno; -1: short; -2: dead.
 * *lim is the number of bytes allowed (for writes/reads). */
static int gate(unsigned op, const char *vpath, size_t n, size_t *lim) {
    if (lim) *lim = n;
    if (quiet) return 0;
    if (dead && is_mut(op)) return EIO;
    if (yield_cb && !is_h5(vpath) && !dead) { int e = errno; yield_cb(op, vpath); errno = e; }
    else if (yield_cb && (op & (STAT_ | RENAME_ | UNLINK_ | LIST_ | OPEN_R | OPEN_W)) && !dead) { int e = errno; yield_cb(op, vpath); errno = e; }
    opcount[opix(op)]++;
    if (is_mut(op)) mut_seq++;
    if (tracef) { fprintf(tracef, "%u %s %zu\n", op, vpath, n); fflush(tracef); }
    for (int i = 0; i < nrules; i++) {
        struct rule *r = &rules[i];
        if (!r->on || !(r->ops & op)) continue;
        if (r->pat[0] && !strstr(vpath, r->pat)) continue;
        r->seen++;
        if (r->seen <= r->skip) continue;
        if (r->count >= 0 && r->fired >= r->count) continue;
        switch (r->action) {
        case A_ERRNO: r->fired++; return r->err;
        case A_SHORT: if ((op & (READ_ | WRITE_)) && n > 1) { r->fired++; *lim = r->arg > 0 && (size_t)r->arg < n ? (size_t)r->arg : (n + 1) / 2; return -1; } break;
        case A_QUOTA: if (op & WRITE_) {
                if (r->arg <= 0) { r->fired++; return ENOSPC; }
                if ((size_t)r->arg < n) { *lim = r->arg; r->arg = 0; r->fired++; return -1; }
                r->arg -= n;
            } else if (op & (OPEN_W | MKDIR_) ) { if (r->arg <= 0) { r->fired++; return ENOSPC; } }
            break;
        case A_TORN: if (op & WRITE_) { r->fired++; *lim = r->arg > 0 && (size_t)r->arg < n ? (size_t)r->arg : n / 2; return -3; } /* fallthrough */
        case A_CRASH: r->fired++; _exit(137);
        case A_DEAD: r->fired++; dead = 1; return EIO;
        }
    }
    return 0;
}

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__) = NULL; \
    if (!real_##name) real_##name = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

static void track(int fd, const char *p) {
    if (fd >= 0 && fd < MAXFD) { free(fdpath[fd]); fdpath[fd] = strdup(p); }
}

static int do_open(int (*f)(const char *, int, ...), const char *p, int fl, mode_t m) {
    char b[PATH_MAX];
    if (!is_virtual(p)) return f(p, fl, m);
    if (fl & O_DIRECTORY) return f(tr(p, b), fl, m);
    int g = gate((fl & (O_CREAT | O_TRUNC)) ? OPEN_W : OPEN_R, p, 0, NULL);
    if (g > 0) { errno = g; return -1; }
    int fd = f(tr(p, b), fl, m);
    if (fd >= 0) track(fd, p);
    return fd;
}
#define OPENW(name) int name(const char *p, int fl, ...) { mode_t m = 0; \
    if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } \
    static int (*r)(const char *, int, ...) = NULL; if (!r) r = dlsym(RTLD_NEXT, #name); \
    return do_open(r, p, fl, m); }
OPENW(open)
OPENW(open64)
int __open64_2(const char *p, int fl) { return open64(p, fl); }
#define OPENAT(name) int name(int d, const char *p, int fl, ...) { mode_t m = 0; \
    if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } \
    if (is_virtual(p)) return open64(p, fl, m); \
    static int (*r)(int, const char *, int, ...) = NULL; if (!r) r = dlsym(RTLD_NEXT, #name); \
    return r(d, p, fl, m); }
OPENAT(openat)
OPENAT(openat64)

FILE *fopen(const char *p, const char *m) { char b[PATH_MAX]; REAL(FILE *, fopen, const char *, const char *); return real_fopen(tr(p, b), m); }
FILE *fopen64(const char *p, const char *m) { char b[PATH_MAX]; REAL(FILE *, fopen64, const char *, const char *); return real_fopen64(tr(p, b), m); }

int close(int fd) {
    REAL(int, close, int);
    if (fd >= 0 && fd < MAXFD && fdpath[fd]) {
        int g = gate(CLOSE_, fdpath[fd], 0, NULL);
        free(fdpath[fd]); fdpath[fd] = NULL;
        int r = real_close(fd);
        if (g > 0) { errno = g; return -1; }
        return r;
    }
    return real_close(fd);
}
static const char *fdp(int fd) { return (fd >= 0 && fd < MAXFD) ? fdpath[fd] : NULL; }

#define RD(name, sig, args, call) ssize_t name sig { \
    static ssize_t (*r) sig = NULL; if (!r) r = dlsym(RTLD_NEXT, #name); \
    const char *p = fdp(fd); if (!p) return r args; \
    size_t lim; int g = gate(READ_, p, n, &lim); if (g > 0) { errno = g; return -1; } \
    n = lim; return r args; }
RD(read, (int fd, void *b, size_t n), (fd, b, n), )
RD(pread, (int fd, void *b, size_t n, off_t o), (fd, b, n, o), )
RD(pread64, (int fd, void *b, size_t n, off_t o), (fd, b, n, o), )
#define WR(name, sig, args) ssize_t name sig { \
    static ssize_t (*r) sig = NULL; if (!r) r = dlsym(RTLD_NEXT, #name); \
    const char *p = fdp(fd); if (!p) return r args; \
    size_t lim; int g = gate(WRITE_, p, n, &lim); if (g > 0) { errno = g; return -1; } \
    n = lim; ssize_t x = r args; if (g == -3) _exit(137); return x; }
WR(write, (int fd, const void *b, size_t n), (fd, b, n))
WR(pwrite, (int fd, const void *b, size_t n, off_t o), (fd, b, n, o))
WR(pwrite64, (int fd, const void *b, size_t n, off_t o), (fd, b, n, o))
#define FT(name) int name(int fd, off_t l) { static int (*r)(int, off_t) = NULL; if (!r) r = dlsym(RTLD_NEXT, #name); \
    const char *p = fdp(fd); if (p) { int g = gate(FTRUNC_, p, 0, NULL); if (g > 0) { errno = g; return -1; } } return r(fd, l); }
FT(ftruncate)
FT(ftruncate64)
#define FS(name) int name(int fd) { static int (*r)(int) = NULL; if (!r) r = dlsym(RTLD_NEXT, #name); \
    const char *p = fdp(fd); if (p) { int g = gate(FSYNC_, p, 0, NULL); if (g > 0) { errno = g; return -1; } } return r(fd); }
FS(fsync)
FS(fdatasync)

#define PSTAT(name, st) int name(const char *p, struct st *s) { static int (*r)(const char *, struct st *) = NULL; \
    if (!r) r = dlsym(RTLD_NEXT, #name); char b[PATH_MAX]; \
    if (is_virtual(p)) { int g = gate(STAT_, p, 0, NULL); if (g > 0) { errno = g; return -1; } } return r(tr(p, b), s); }
PSTAT(stat, stat)
PSTAT(lstat, stat)
PSTAT(stat64, stat64)
PSTAT(lstat64, stat64)
#define FSAT(name, st) int name(int d, const char *p, struct st *s, int f) { static int (*r)(int, const char *, struct st *, int) = NULL; \
    if (!r) r = dlsym(RTLD_NEXT, #name); char b[PATH_MAX]; \
    if (is_virtual(p)) { int g = gate(STAT_, p, 0, NULL); if (g > 0) { errno = g; return -1; } } return r(d, tr(p, b), s, f); }
FSAT(fstatat, stat)
FSAT(fstatat64, stat64)

#define P1(name, op, extra_sig, extra_arg) int name(const char *p extra_sig) { static int (*r)(const char * extra_sig) = NULL; \
    if (!r) r = dlsym(RTLD_NEXT, #name); char b[PATH_MAX]; \
    if (is_virtual(p)) { int g = gate(op, p, 0, NULL); if (g > 0) { errno = g; return -1; } } return r(tr(p, b) extra_arg); }
#define COMMA ,
P1(access, STAT_, COMMA int m, COMMA m)
P1(mkdir, MKDIR_, COMMA mode_t m, COMMA m)
P1(rmdir, UNLINK_, , )
P1(unlink, UNLINK_, , )
P1(remove, UNLINK_, , )
P1(chmod, META_, COMMA mode_t m, COMMA m)
P1(truncate, FTRUNC_, COMMA off_t l, COMMA l)
P1(truncate64, FTRUNC_, COMMA off_t l, COMMA l)
#define PAT(name, op, sig, args) int name(int d, const char *p sig) { static int (*r)(int, const char * sig) = NULL; \
    if (!r) r = dlsym(RTLD_NEXT, #name); char b[PATH_MAX]; \
    if (is_virtual(p)) { int g = gate(op, p, 0, NULL); if (g > 0) { errno = g; return -1; } } return r(d, tr(p, b) args); }
PAT(mkdirat, MKDIR_, COMMA mode_t m, COMMA m)
PAT(unlinkat, UNLINK_, COMMA int f, COMMA f)
PAT(faccessat, STAT_, COMMA int m COMMA int f, COMMA m COMMA f)
PAT(fchmodat, META_, COMMA mode_t m COMMA int f, COMMA m COMMA f)
PAT(utimensat, META_, COMMA const struct timespec t[2] COMMA int f, COMMA t COMMA f)

int rename(const char *a, const char *c) {
    REAL(int, rename, const char *, const char *);
    char b1[PATH_MAX], b2[PATH_MAX];
    if (is_virtual(a) || is_virtual(c)) { int g = gate(RENAME_, is_virtual(c) ? c : a, 0, NULL); if (g > 0) { errno = g; return -1; } }
    return real_rename(tr(a, b1), tr(c, b2));
}
int renameat(int d1, const char *a, int d2, const char *c) {
    REAL(int, renameat, int, const char *, int, const char *);
    char b1[PATH_MAX], b2[PATH_MAX];
    if (is_virtual(a) || is_virtual(c)) { int g = gate(RENAME_, is_virtual(c) ? c : a, 0, NULL); if (g > 0) { errno = g; return -1; } }
    return real_renameat(d1, tr(a, b1), d2, tr(c, b2));
}
int link(const char *a, const char *c) {
    REAL(int, link, const char *, const char *); char b1[PATH_MAX], b2[PATH_MAX];
    if (is_virtual(c)) { int g = gate(META_, c, 0, NULL); if (g > 0) { errno = g; return -1; } }
    return real_link(tr(a, b1), tr(c, b2));
}
int symlink(const char *a, const char *c) {
    REAL(int, symlink, const char *, const char *); char b2[PATH_MAX];
    if (is_virtual(c)) { int g = gate(META_, c, 0, NULL); if (g > 0) { errno = g; return -1; } }
    return real_symlink(a, tr(c, b2));
}
ssize_t readlink(const char *p, char *o, size_t n) { REAL(ssize_t, readlink, const char *, char *, size_t); char b[PATH_MAX]; return real_readlink(tr(p, b), o, n); }
ssize_t readlinkat(int d, const char *p, char *o, size_t n) { REAL(ssize_t, readlinkat, int, const char *, char *, size_t); char b[PATH_MAX]; return real_readlinkat(d, tr(p, b), o, n); }
char *realpath(const char *p, char *o) {
    REAL(char *, realpath, const char *, char *); char b[PATH_MAX];
    char *r = real_realpath(tr(p, b), o);
    if (r && rootlen && strncmp(r, root, rootlen) == 0) memmove(r, r + rootlen, strlen(r + rootlen) + 1);
    return r;
}

/* ---- directory listing: order chosen by the simulation ---- */
struct fakedir { uint64_t magic; int n, pos, cap; struct dirent64 **e; };
#define FMAGIC 0x6b646473696d6469ULL
#define MAXFAKE 256
static struct fakedir *fakes[MAXFAKE];
static struct fakedir *isfake(DIR *d) { for (int i = 0; i < MAXFAKE; i++) if (fakes[i] && (DIR *)fakes[i] == d) return fakes[i]; return NULL; }
static int cmpent(const void *a, const void *b) { return strcmp((*(struct dirent64 **)a)->d_name, (*(struct dirent64 **)b)->d_name); }
static uint64_t rnd(uint64_t *s) { uint64_t z = (*s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
static struct dirent64 *(*real_rd64)(DIR *) = NULL;
static int (*real_cd)(DIR *) = NULL;
DIR *opendir(const char *p) {
    REAL(DIR *, opendir, const char *);
    if (!real_rd64) real_rd64 = dlsym(RTLD_NEXT, "readdir64");
    if (!real_cd) real_cd = dlsym(RTLD_NEXT, "closedir");
    char b[PATH_MAX];
    if (!is_virtual(p)) return real_opendir(p);
    int g = gate(LIST_, p, 0, NULL); if (g > 0) { errno = g; return NULL; }
    DIR *d = real_opendir(tr(p, b));
    if (!d) return NULL;
    struct fakedir *f = calloc(1, sizeof *f); f->magic = FMAGIC;
    struct dirent64 *e;
    while ((e = real_rd64(d))) {
        if (f->n == f->cap) { f->cap = f->cap ? 2 * f->cap : 16; f->e = realloc(f->e, f->cap * sizeof *f->e); }
        struct dirent64 *c = malloc(sizeof *c); memcpy(c, e, e->d_reclen < sizeof *c ? e->d_reclen : sizeof *c); f->e[f->n++] = c;
    }
    real_cd(d);
    qsort(f->e, f->n, sizeof *f->e, cmpent);
    if (listseed && !quiet) { uint64_t s = listseed; for (int i = f->n - 1; i > 0; i--) { int j = rnd(&s) % (i + 1); struct dirent64 *t = f->e[i]; f->e[i] = f->e[j]; f->e[j] = t; } }
    for (int i = 0; i < MAXFAKE; i++) if (!fakes[i]) { fakes[i] = f; return (DIR *)f; }
    errno = EMFILE; return NULL;
}
struct dirent64 *readdir64(DIR *d) {
    struct fakedir *f = isfake(d);
    if (!f) { if (!real_rd64) real_rd64 = dlsym(RTLD_NEXT, "readdir64"); return real_rd64(d); }
    return f->pos < f->n ? f->e[f->pos++] : NULL;
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int closedir(DIR *d) {
    struct fakedir *f = isfake(d);
    if (!f) { if (!real_cd) real_cd = dlsym(RTLD_NEXT, "closedir"); return real_cd(d); }
    for (int i = 0; i < MAXFAKE; i++) if (fakes[i] == f) fakes[i] = NULL;
    for (int i = 0; i < f->n; i++) free(f->e[i]);
    free(f->e); free(f); return 0;
}
void rewinddir(DIR *d) {
    struct fakedir *f = isfake(d); if (f) { f->pos = 0; return; }
    REAL(void, rewinddir, DIR *); real_rewinddir(d);
}
int dirfd(DIR *d) { struct fakedir *f = isfake(d); if (f) { errno = ENOTSUP; return -1; } REAL(int, dirfd, DIR *); return real_dirfd(d); }
