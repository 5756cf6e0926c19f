/* LD_PRELOAD seam in front of libc's file I/O.
 *
 * Only files whose path lies under the directory given to vs_arm() are
 * touched; everything else goes straight to libc.  Rules: the k-th call of a
 * class on such files fails with an errno, or transfers fewer bytes, or (for
 * writes) pretends to succeed ("lost") -- as decided beforehand by the
 * simulator.  Calls are counted and logged, so the simulator knows which
 * faults really fired.  Off by default: without vs_arm() nothing changes.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/uio.h>
#include <unistd.h>

enum { C_OPEN, C_READ, C_WRITE, C_TRUNC, C_SYNC, C_CLOSE, C_STAT, NCLASS };

#define MAXFD 4096
#define MAXRULE 16
#define MAXLOG 200000

struct rule { int cls; long nth; int err; long keep; int sticky; long fired; };

static char prefix[PATH_MAX];
static size_t prefix_len;
static int armed;
static unsigned char watched[MAXFD];
/* shared with forked processes, so that calls are counted over all of them */
struct shared {
    struct rule rules[MAXRULE];
    int nrules;
    long counts[NCLASS];
    long budget;                  /* bytes that may still be written: full disk */
    long enospc_fired;
};
static struct shared *S;
#define rules (S->rules)
#define nrules (S->nrules)
#define counts (S->counts)
#define budget (S->budget)
#define enospc_fired (S->enospc_fired)

/* write log for crash images */
struct wlog { int kind; long long off; long long len; char *data; int fd; };
static struct wlog *logv;
static long nlog;
static int logging;

static int (*r_open)(const char *, int, ...);
static int (*r_open64)(const char *, int, ...);
static int (*r_openat)(int, const char *, int, ...);
static int (*r_openat64)(int, const char *, int, ...);
static ssize_t (*r_read)(int, void *, size_t);
static ssize_t (*r_pread)(int, void *, size_t, off_t);
static ssize_t (*r_pread64)(int, void *, size_t, off64_t);
static ssize_t (*r_write)(int, const void *, size_t);
static ssize_t (*r_pwrite)(int, const void *, size_t, off_t);
static ssize_t (*r_pwrite64)(int, const void *, size_t, off64_t);
static int (*r_ftruncate)(int, off_t);
static int (*r_ftruncate64)(int, off64_t);
static int (*r_fsync)(int);
static int (*r_fdatasync)(int);
static int (*r_close)(int);
static FILE *(*r_fopen)(const char *, const char *);
static FILE *(*r_fopen64)(const char *, const char *);
static FILE *(*r_fdopen)(int, const char *);
static size_t (*r_fread)(void *, size_t, size_t, FILE *);
static size_t (*r_fwrite)(const void *, size_t, size_t, FILE *);
static int (*r_fclose)(FILE *);

#define L(name) do { if (!r_##name) r_##name = dlsym(RTLD_NEXT, #name); } while (0)

__attribute__((constructor)) static void init(void)
{
    L(open); L(open64); L(openat); L(openat64); L(read); L(pread); L(pread64);
    L(write); L(pwrite); L(pwrite64); L(ftruncate); L(ftruncate64); L(fsync);
    L(fdatasync); L(close); L(fopen); L(fopen64); L(fdopen); L(fread); L(fwrite);
    L(fclose);
}

/* --- interface for the simulator (ctypes) --- */
void vs_arm(const char *p)
{
    if (S) munmap(S, sizeof *S);
    S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    strncpy(prefix, p, sizeof prefix - 1);
    prefix_len = strlen(prefix);
    memset(S, 0, sizeof *S);
    memset(watched, 0, sizeof watched);
    budget = -1; enospc_fired = 0;
    armed = 1;
}
void vs_disarm(void) { armed = 0; if (S) { nrules = 0; budget = -1; } }
/* keep >= 0: transfer at most that many bytes (short); err != 0: fail; sticky: all later too */
int vs_rule(int cls, long nth, int err, long keep, int sticky)
{
    if (nrules >= MAXRULE) return -1;
    rules[nrules] = (struct rule){cls, nth, err, keep, sticky, 0};
    return nrules++;
}
long vs_fired(int i) { return rules[i].fired; }
long vs_count(int cls) { return counts[cls]; }
void vs_budget(long b) { budget = b; }
long vs_enospc(void) { return enospc_fired; }
void vs_log(int on)
{
    if (!logv) logv = calloc(MAXLOG, sizeof *logv);
    logging = on;
    if (on) { long i; for (i = 0; i < nlog; i++) free(logv[i].data); nlog = 0; }
}
long vs_nlog(void) { return nlog; }
int vs_logkind(long i) { return logv[i].kind; }
long long vs_logoff(long i) { return logv[i].off; }
long long vs_loglen(long i) { return logv[i].len; }
const char *vs_logdata(long i) { return logv[i].data; }

static void add_log(int kind, int fd, long long off, const void *data, long long len)
{
    if (!logging || nlog >= MAXLOG) return;
    struct wlog *w = &logv[nlog++];
    w->kind = kind; w->off = off; w->len = len; w->fd = fd; w->data = NULL;
    if (data && len > 0) { w->data = malloc(len); memcpy(w->data, data, len); }
}

static int under(const char *p)
{
    char buf[PATH_MAX];
    if (!armed || !p) return 0;
    if (p[0] != '/') {
        size_t n;
        if (!getcwd(buf, sizeof buf)) return 0;
        n = strlen(buf);
        snprintf(buf + n, sizeof buf - n, "/%s", p);
        p = buf;
    }
    return strncmp(p, prefix, prefix_len) == 0 &&
           (p[prefix_len] == '/' || p[prefix_len] == 0);
}

/* is a directory? directories are listed through another seam */
static int is_dir_open(int flags) { return (flags & O_DIRECTORY) != 0; }

static struct rule *hit(int cls)
{
    long k = counts[cls]++;
    int i;
    for (i = 0; i < nrules; i++) {
        struct rule *r = &rules[i];
        if (r->cls == cls && (r->nth == k || (r->sticky && k > r->nth))) {
            r->fired++;
            return r;
        }
    }
    return NULL;
}

#define WATCH(fd) ((fd) >= 0 && (fd) < MAXFD && armed && watched[fd])

static int after_open(int fd, int w)
{
    if (fd >= 0 && fd < MAXFD) watched[fd] = w;
    return fd;
}

#define OPEN_BODY(CALL, PATH, FLAGS)                                   \
    int w = under(PATH) && !is_dir_open(FLAGS);                        \
    if (w) {                                                           \
        struct rule *r = hit(C_OPEN);                                  \
        if (r && r->err) { errno = r->err; return -1; }                \
    }                                                                  \
    int fd = CALL;                                                     \
    if (w && fd >= 0 && ((FLAGS) & O_TRUNC)) add_log(2, fd, 0, NULL, 0); \
    return after_open(fd, w);

#define GETMODE(FLAGS)                                                 \
    mode_t mode = 0;                                                   \
    if ((FLAGS) & (O_CREAT | O_TMPFILE)) {                             \
        va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); \
    }

int open(const char *path, int flags, ...)
{ L(open); GETMODE(flags) OPEN_BODY(r_open(path, flags, mode), path, flags) }
int open64(const char *path, int flags, ...)
{ L(open64); GETMODE(flags) OPEN_BODY(r_open64(path, flags, mode), path, flags) }
int openat(int d, const char *path, int flags, ...)
{ L(openat); GETMODE(flags) OPEN_BODY(r_openat(d, path, flags, mode), path, flags) }
int openat64(int d, const char *path, int flags, ...)
{ L(openat64); GETMODE(flags) OPEN_BODY(r_openat64(d, path, flags, mode), path, flags) }

int close(int fd)
{
    L(close);
    if (WATCH(fd)) {
        struct rule *r = hit(C_CLOSE);
        watched[fd] = 0;
        if (r && r->err) { r_close(fd); errno = r->err; return -1; }
    }
    return r_close(fd);
}

static ssize_t clip_read(struct rule *r, size_t *n)
{
    if (!r) return 0;
    if (r->err) { errno = r->err; return -1; }
    if (r->keep >= 0 && (size_t)r->keep < *n) *n = r->keep > 0 ? r->keep : 1;
    return 0;
}

ssize_t read(int fd, void *b, size_t n)
{
    L(read);
    if (WATCH(fd) && n) { if (clip_read(hit(C_READ), &n) < 0) return -1; }
    return r_read(fd, b, n);
}
ssize_t pread(int fd, void *b, size_t n, off_t o)
{
    L(pread);
    if (WATCH(fd) && n) { if (clip_read(hit(C_READ), &n) < 0) return -1; }
    return r_pread(fd, b, n, o);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o)
{
    L(pread64);
    if (WATCH(fd) && n) { if (clip_read(hit(C_READ), &n) < 0) return -1; }
    return r_pread64(fd, b, n, o);
}

static ssize_t clip_write(int fd, size_t *n)
{
    struct rule *r = hit(C_WRITE);
    if (r) {
        if (r->err) { errno = r->err; return -1; }
        if (r->keep >= 0 && (size_t)r->keep < *n) *n = r->keep > 0 ? r->keep : 1;
    }
    if (budget >= 0) {
        if (budget == 0) { enospc_fired++; errno = ENOSPC; return -1; }
        if ((size_t)budget < *n) { *n = budget; enospc_fired++; }
        budget -= *n;
    }
    return 0;
}

ssize_t write(int fd, const void *b, size_t n)
{
    L(write);
    if (WATCH(fd) && n) {
        if (clip_write(fd, &n) < 0) return -1;
        off_t o = lseek(fd, 0, SEEK_CUR);
        ssize_t k = r_write(fd, b, n);
        if (k > 0) add_log(0, fd, o, b, k);
        return k;
    }
    return r_write(fd, b, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o)
{
    L(pwrite);
    if (WATCH(fd) && n) {
        if (clip_write(fd, &n) < 0) return -1;
        ssize_t k = r_pwrite(fd, b, n, o);
        if (k > 0) add_log(0, fd, o, b, k);
        return k;
    }
    return r_pwrite(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
{
    L(pwrite64);
    if (WATCH(fd) && n) {
        if (clip_write(fd, &n) < 0) return -1;
        ssize_t k = r_pwrite64(fd, b, n, o);
        if (k > 0) add_log(0, fd, o, b, k);
        return k;
    }
    return r_pwrite64(fd, b, n, o);
}
int ftruncate(int fd, off_t len)
{
    L(ftruncate);
    if (WATCH(fd)) {
        struct rule *r = hit(C_TRUNC);
        if (r && r->err) { errno = r->err; return -1; }
        int k = r_ftruncate(fd, len);
        if (k == 0) add_log(1, fd, len, NULL, 0);
        return k;
    }
    return r_ftruncate(fd, len);
}
int ftruncate64(int fd, off64_t len)
{
    L(ftruncate64);
    if (WATCH(fd)) {
        struct rule *r = hit(C_TRUNC);
        if (r && r->err) { errno = r->err; return -1; }
        int k = r_ftruncate64(fd, len);
        if (k == 0) add_log(1, fd, len, NULL, 0);
        return k;
    }
    return r_ftruncate64(fd, len);
}
int fsync(int fd)
{
    L(fsync);
    if (WATCH(fd)) { struct rule *r = hit(C_SYNC); if (r && r->err) { errno = r->err; return -1; } }
    return r_fsync(fd);
}
int fdatasync(int fd)
{
    L(fdatasync);
    if (WATCH(fd)) { struct rule *r = hit(C_SYNC); if (r && r->err) { errno = r->err; return -1; } }
    return r_fdatasync(fd);
}

/* stdio: glibc's own calls do not come through the functions above */
static FILE *fopen_common(FILE *f, int w)
{
    if (f) after_open(fileno(f), w);
    return f;
}
FILE *fopen(const char *p, const char *m)
{
    L(fopen);
    int w = under(p);
    if (w) { struct rule *r = hit(C_OPEN); if (r && r->err) { errno = r->err; return NULL; } }
    return fopen_common(r_fopen(p, m), w);
}
FILE *fopen64(const char *p, const char *m)
{
    L(fopen64);
    int w = under(p);
    if (w) { struct rule *r = hit(C_OPEN); if (r && r->err) { errno = r->err; return NULL; } }
    return fopen_common(r_fopen64(p, m), w);
}
FILE *fdopen(int fd, const char *m)
{
    L(fdopen);
    FILE *f = r_fdopen(fd, m);
    /* numpy duplicates the descriptor of a Python file before reading from it */
    if (f && armed && fd >= 0 && fd < MAXFD && !watched[fd]) {
        char link[64], buf[PATH_MAX];
        snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
        ssize_t n = readlink(link, buf, sizeof buf - 1);
        if (n > 0) { buf[n] = 0; watched[fd] = under(buf); }
    }
    return f;
}
size_t fread(void *b, size_t s, size_t n, FILE *f)
{
    L(fread);
    int fd = fileno(f);
    if (WATCH(fd) && s && n) {
        struct rule *r = hit(C_READ);
        if (r && r->err) { errno = r->err; return 0; }
        /* fread itself retries short reads: only errors can shorten it */
    }
    return r_fread(b, s, n, f);
}
size_t fwrite(const void *b, size_t s, size_t n, FILE *f)
{
    L(fwrite);
    int fd = fileno(f);
    if (WATCH(fd) && s && n) {
        struct rule *r = hit(C_WRITE);
        if (r && r->err) { errno = r->err; return 0; }
    }
    return r_fwrite(b, s, n, f);
}
int fclose(FILE *f)
{
    L(fclose);
    int fd = fileno(f);
    if (fd >= 0 && fd < MAXFD) watched[fd] = 0;
    return r_fclose(f);
}
