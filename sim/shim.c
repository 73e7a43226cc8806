/* LD_PRELOAD seam of the simulator.
 *
 * While inactive it only replaces entropy and clocks by fixed streams (so that
 * importing modules is repeatable). After phsim_activate(fd, root) every
 * file-system call on a path below root is announced on fd, is executed only
 * when the controller grants it, and reports its result. Calls that would
 * change anything outside root fail with EROFS and are reported.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { OP_OPEN = 1, OP_READ, OP_WRITE, OP_CLOSE, OP_RENAME, OP_UNLINK, OP_FSYNC,
       OP_OPENDIR, OP_STAT, OP_MKDIR, OP_RMDIR, OP_TRUNC, OP_LINK, OP_SYMLINK,
       OP_SLEEP, OP_LOCK, OP_DENIED, OP_CHDIR, OP_ACCESS, OP_CHMOD, OP_CALC };
enum { ACT_GO = 0, ACT_FAIL = 1, ACT_SHORT = 2 };

struct req { int32_t op, fd; int64_t a, b; int32_t l1, l2; };
struct grant { int32_t act, err; int64_t n; int64_t now; };
struct done { int32_t op, err; int64_t ret, ino; };

static int ctl = -1;
static int active = 0;
static int determinize = 0;
static char root[PATH_MAX];
static size_t rootlen;
static int64_t now_ns = 1500000000LL * 1000000000LL;
static uint64_t ent = 88172645463325252ULL;
static int simpid = 4242;
#define MAXFD 1024
static char tracked[MAXFD];     /* 1: regular file below root, 2: directory */
static int64_t fdino[MAXFD];

#define REAL(name) static __typeof__(&name) r; if (!r) r = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

static uint64_t xs(uint64_t *s) { uint64_t x = *s; x ^= x << 13; x ^= x >> 7; x ^= x << 17; return *s = x; }

__attribute__((constructor)) static void init(void) {
    if (getenv("PHSIM_DET")) determinize = 1;
}

static int64_t drift, slow;
void phsim_activate(int fd, const char *r, int64_t t, uint64_t entropy, int pid) {
    ctl = fd; now_ns = t; ent = entropy ? entropy : 1; simpid = pid;
    strncpy(root, r, sizeof root - 1); rootlen = strlen(root);
    determinize = 1; active = 1; drift = 0; slow = 0;
}
void phsim_deactivate(void) { active = 0; }
void phsim_log(const char *msg);

static void xsend(const void *p, size_t n) {
    while (send(ctl, p, n, MSG_NOSIGNAL) < 0) if (errno != EINTR) _exit(97);
}
static ssize_t xrecv(void *p, size_t n) {
    ssize_t k;
    while ((k = recv(ctl, p, n, 0)) < 0) if (errno != EINTR) _exit(97);
    if (k == 0) _exit(97);
    return k;
}

static struct grant ask(int op, int fd, int64_t a, int64_t b, const char *p1, const char *p2) {
    int save = errno;
    char buf[sizeof(struct req) + 2 * PATH_MAX];
    struct req *q = (struct req *)buf;
    memset(q, 0, sizeof *q);
    q->op = op; q->fd = fd; q->a = a; q->b = b;
    q->l1 = p1 ? (int)strlen(p1) : 0; q->l2 = p2 ? (int)strlen(p2) : 0;
    if (p1) memcpy(buf + sizeof *q, p1, q->l1);
    if (p2) memcpy(buf + sizeof *q + q->l1, p2, q->l2);
    xsend(buf, sizeof *q + q->l1 + q->l2);
    struct grant g;
    xrecv(&g, sizeof g);
    now_ns = g.now;
    errno = save;
    return g;
}
static void report(int op, int64_t ret, int64_t ino) {
    int save = errno;
    struct done d = { op, ret < 0 ? save : 0, ret, ino };
    xsend(&d, sizeof d);
    errno = save;
}
void phsim_log(const char *msg) { (void)msg; }
/* a point in the middle of a computation; -1 if an allocation is to fail */
int phsim_point(int64_t k, int64_t l) {
    struct grant g = ask(OP_CALC, -1, k, l, NULL, NULL);
    report(OP_CALC, 0, -1);
    return g.act ? -1 : 0;
}

/* -- paths ---------------------------------------------------------------- */
static int absolute(int dirfd, const char *p, char *out) {
    char tmp[2 * PATH_MAX];
    if (p[0] == '/') { if (strlen(p) >= PATH_MAX) return 0; strcpy(tmp, p); }
    else {
        char base[PATH_MAX];
        if (dirfd == AT_FDCWD) { if (syscall(SYS_getcwd, base, sizeof base) < 0) return 0; }
        else {
            char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
            ssize_t k = syscall(SYS_readlinkat, AT_FDCWD, l, base, sizeof base - 1);
            if (k < 0) return 0;
            base[k] = 0;
        }
        if (strlen(base) + strlen(p) + 2 > sizeof tmp) return 0;
        strcpy(tmp, base); strcat(tmp, "/"); strcat(tmp, p);
    }
    /* lexical normalisation */
    size_t o = 0; char *s = tmp;
    while (*s) {
        while (*s == '/') s++;
        char *e = s; while (*e && *e != '/') e++;
        size_t n = e - s;
        if (n == 0) break;
        if (n == 1 && s[0] == '.') { }
        else if (n == 2 && s[0] == '.' && s[1] == '.') { while (o > 0 && out[o - 1] != '/') o--; if (o > 0) o--; }
        else { if (o + n + 2 > PATH_MAX) return 0; out[o++] = '/'; memcpy(out + o, s, n); o += n; }
        s = e;
    }
    if (o == 0) out[o++] = '/';
    out[o] = 0;
    return 1;
}
static int inside(const char *abs) {
    return strncmp(abs, root, rootlen) == 0 && (abs[rootlen] == '/' || abs[rootlen] == 0);
}
static const char *rel(const char *abs) { return abs[rootlen] ? abs + rootlen + 1 : "."; }
/* 1: below root; 0: elsewhere or inactive */
static int mine(int dirfd, const char *p, char *abs) {
    if (!active || !p || ctl < 0) return 0;
    if (!absolute(dirfd, p, abs)) return 0;
    return inside(abs);
}
static int dev_ok(const char *abs) {
    return strncmp(abs, "/dev/", 5) == 0 || strncmp(abs, "/proc/self/", 11) == 0;
}
static int deny(const char *what, const char *p) {
    (void)what;
    ask(OP_DENIED, -1, 0, 0, p, NULL);
    errno = EROFS; report(OP_DENIED, -1, 0);
    errno = EROFS;
    return -1;
}

/* -- file times: those of the simulated clock -------------------------------- */
static int64_t gran = 1;
void phsim_gran(int64_t n) { gran = n > 0 ? n : 1; }
static void stamp(struct timespec t[2]) {
    int64_t v = now_ns - now_ns % gran;
    t[0].tv_sec = t[1].tv_sec = v / 1000000000LL; t[0].tv_nsec = t[1].tv_nsec = v % 1000000000LL;
}
static void touch_fd(int fd) {
    int save = errno; struct timespec t[2]; stamp(t);
    syscall(SYS_utimensat, fd, NULL, t, 0); errno = save;
}
static void touch_path(const char *abs) {
    int save = errno; struct timespec t[2]; stamp(t);
    syscall(SYS_utimensat, AT_FDCWD, abs, t, 0); errno = save;
}
static void touch_parent(const char *abs) {
    char d[PATH_MAX]; strcpy(d, abs);
    char *e = strrchr(d, '/');
    if (!e || (size_t)(e - d) < rootlen) return;
    *e = 0; touch_path(d);
}
static void fix_times(struct stat64 *st) { st->st_atim = st->st_mtim; st->st_ctim = st->st_mtim; }

/* -- open / close ---------------------------------------------------------- */
static int do_open(int dirfd, const char *p, int flags, mode_t mode) {
    char abs[PATH_MAX];
    if (!mine(dirfd, p, abs)) {
        if (active && (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) && absolute(dirfd, p, abs) && !dev_ok(abs))
            return deny("open", abs);
        return (int)syscall(SYS_openat, dirfd, p, flags, mode);
    }
    struct grant g = ask(OP_OPEN, -1, flags, mode, rel(abs), NULL);
    int fd, made = 0;
    if (g.act == ACT_FAIL) { errno = g.err; fd = -1; }
    else {
        int save = errno;
        if (flags & O_CREAT) made = syscall(SYS_faccessat, dirfd, p, F_OK) != 0;
        errno = save;
        fd = (int)syscall(SYS_openat, dirfd, p, flags | O_CLOEXEC, mode);
        if (fd >= 0 && (made || ((flags & O_TRUNC) && (flags & (O_WRONLY | O_RDWR))))) touch_fd(fd);
        if (fd >= 0 && made) touch_parent(abs);
    }
    int64_t ino = -1;
    if (fd >= 0 && fd < MAXFD) {
        struct stat st; fstat(fd, &st); ino = st.st_ino;
        tracked[fd] = S_ISDIR(st.st_mode) ? 2 : (S_ISREG(st.st_mode) ? 1 : 0); fdino[fd] = ino;
    }
    report(OP_OPEN, fd, ino);
    return fd;
}
#define OPENV mode_t m = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { OPENV return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { OPENV return do_open(AT_FDCWD, p, flags, m); }
int openat(int d, const char *p, int flags, ...) { OPENV return do_open(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { OPENV return do_open(d, p, flags, m); }
int __open64_2(const char *p, int flags) { return do_open(AT_FDCWD, p, flags, 0); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

#define TR(fd) (active && (fd) >= 0 && (fd) < MAXFD && tracked[fd])

int close(int fd) {
    if (!TR(fd)) return (int)syscall(SYS_close, fd);
    int dir = tracked[fd] == 2;
    tracked[fd] = 0;
    if (dir) return (int)syscall(SYS_close, fd);
    struct grant g = ask(OP_CLOSE, fd, fdino[fd], 0, NULL, NULL);
    int r = (int)syscall(SYS_close, fd);
    if (g.act == ACT_FAIL) { errno = g.err; r = -1; }
    report(OP_CLOSE, r, fdino[fd]);
    return r;
}
int dup(int fd) {
    int n = (int)syscall(SYS_dup, fd);
    if (n >= 0 && n < MAXFD && TR(fd)) { tracked[n] = tracked[fd]; fdino[n] = fdino[fd]; }
    return n;
}
int dup3(int a, int b, int f) {
    int n = (int)syscall(SYS_dup3, a, b, f);
    if (n >= 0 && n < MAXFD) { tracked[n] = TR(a) ? tracked[a] : 0; fdino[n] = TR(a) ? fdino[a] : 0; }
    return n;
}
int dup2(int a, int b) {
    int n = (int)syscall(SYS_dup2, a, b);
    if (n >= 0 && n < MAXFD && a != b) { tracked[n] = TR(a) ? tracked[a] : 0; fdino[n] = TR(a) ? fdino[a] : 0; }
    return n;
}

/* -- data ------------------------------------------------------------------ */
#define IO(OP, CALL, n, off) \
    struct grant g = ask(OP, fd, (int64_t)(n), off, NULL, NULL); ssize_t k; \
    if (g.act == ACT_FAIL) { errno = g.err; k = -1; } \
    else { size_t len = (n); if (g.act == ACT_SHORT && (size_t)g.n < len) len = g.n; k = CALL; } \
    if (OP == OP_WRITE && k > 0) touch_fd(fd); \
    report(OP, k, fdino[fd]); return k;

ssize_t read(int fd, void *b, size_t n) {
    if (!TR(fd)) return syscall(SYS_read, fd, b, n);
    IO(OP_READ, syscall(SYS_read, fd, b, len), n, -1)
}
ssize_t write(int fd, const void *b, size_t n) {
    if (!TR(fd)) return syscall(SYS_write, fd, b, n);
    IO(OP_WRITE, syscall(SYS_write, fd, b, len), n, -1)
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    if (!TR(fd)) return syscall(SYS_pread64, fd, b, n, o);
    IO(OP_READ, syscall(SYS_pread64, fd, b, len, o), n, o)
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    if (!TR(fd)) return syscall(SYS_pwrite64, fd, b, n, o);
    IO(OP_WRITE, syscall(SYS_pwrite64, fd, b, len, o), n, o)
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (!TR(fd) || c < 1) return syscall(SYS_readv, fd, v, c);
    return read(fd, v[0].iov_base, v[0].iov_len);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!TR(fd) || c < 1) return syscall(SYS_writev, fd, v, c);
    return write(fd, v[0].iov_base, v[0].iov_len);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
    if (TR(o) || TR(i)) { errno = EINVAL; return -1; }
    return syscall(SYS_sendfile, o, i, off, n);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return sendfile64(o, i, (off64_t *)off, n); }
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) {
    if (TR(a) || TR(b)) { errno = EINVAL; return -1; }
    return syscall(SYS_copy_file_range, a, x, b, y, n, f);
}
static int do_sync(int fd, long nr) {
    if (!TR(fd)) return (int)syscall(nr, fd);
    struct grant g = ask(OP_FSYNC, fd, fdino[fd], 0, NULL, NULL);
    int r = 0;
    if (g.act == ACT_FAIL) { errno = g.err; r = -1; }
    report(OP_FSYNC, r, fdino[fd]);
    return r;
}
int fsync(int fd) { return do_sync(fd, SYS_fsync); }
int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }
int ftruncate64(int fd, off64_t n) {
    if (!TR(fd)) return (int)syscall(SYS_ftruncate, fd, n);
    struct grant g = ask(OP_TRUNC, fd, n, fdino[fd], NULL, NULL);
    int r;
    if (g.act == ACT_FAIL) { errno = g.err; r = -1; } else { r = (int)syscall(SYS_ftruncate, fd, n); if (r == 0) touch_fd(fd); }
    report(OP_TRUNC, r, fdino[fd]);
    return r;
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }

/* -- names ------------------------------------------------------------------ */
#define ONEPATH(OP, dirfd, p, mut, CALL) \
    char abs[PATH_MAX]; \
    if (!mine(dirfd, p, abs)) { \
        if (active && mut && absolute(dirfd, p, abs) && !dev_ok(abs)) return deny(#OP, abs); \
        return (int)(CALL); } \
    struct grant g = ask(OP, -1, 0, 0, rel(abs), NULL); int r; \
    if (g.act == ACT_FAIL) { errno = g.err; r = -1; } else r = (int)(CALL); \
    if (r == 0 && mut) { if ((OP) == OP_TRUNC || (OP) == OP_MKDIR) touch_path(abs); if ((OP) != OP_TRUNC && (OP) != OP_CHMOD) touch_parent(abs); } \
    report(OP, r, -1); return r;
#define TWOPATH(OP, d1, p1, d2, p2, CALL) \
    char abs1[PATH_MAX], abs2[PATH_MAX]; \
    int m1 = mine(d1, p1, abs1), m2 = mine(d2, p2, abs2); \
    if (!m1 || !m2) { if (active) return deny(#OP, p1); return (int)(CALL); } \
    struct grant g = ask(OP, -1, 0, 0, rel(abs1), rel(abs2)); int r; \
    if (g.act == ACT_FAIL) { errno = g.err; r = -1; } else r = (int)(CALL); \
    if (r == 0) { touch_parent(abs1); touch_parent(abs2); } \
    report(OP, r, -1); return r;

int unlinkat(int d, const char *p, int f) { ONEPATH((f & AT_REMOVEDIR) ? OP_RMDIR : OP_UNLINK, d, p, 1, syscall(SYS_unlinkat, d, p, f)) }
int unlink(const char *p) { return unlinkat(AT_FDCWD, p, 0); }
int rmdir(const char *p) { return unlinkat(AT_FDCWD, p, AT_REMOVEDIR); }
int mkdirat(int d, const char *p, mode_t m) { ONEPATH(OP_MKDIR, d, p, 1, syscall(SYS_mkdirat, d, p, m)) }
int mkdir(const char *p, mode_t m) { return mkdirat(AT_FDCWD, p, m); }
int truncate64(const char *p, off64_t n) { ONEPATH(OP_TRUNC, AT_FDCWD, p, 1, syscall(SYS_truncate, p, n)) }
int truncate(const char *p, off_t n) { return truncate64(p, n); }
int chmod(const char *p, mode_t m) { ONEPATH(OP_CHMOD, AT_FDCWD, p, 1, syscall(SYS_fchmodat, AT_FDCWD, p, m)) }
int fchmodat(int d, const char *p, mode_t m, int f) { (void)f; ONEPATH(OP_CHMOD, d, p, 1, syscall(SYS_fchmodat, d, p, m)) }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { TWOPATH(OP_RENAME, d1, a, d2, b, syscall(SYS_renameat2, d1, a, d2, b, f)) }
int renameat(int d1, const char *a, int d2, const char *b) { return renameat2(d1, a, d2, b, 0); }
int rename(const char *a, const char *b) { return renameat2(AT_FDCWD, a, AT_FDCWD, b, 0); }
int linkat(int d1, const char *a, int d2, const char *b, int f) { TWOPATH(OP_LINK, d1, a, d2, b, syscall(SYS_linkat, d1, a, d2, b, f)) }
int link(const char *a, const char *b) { return linkat(AT_FDCWD, a, AT_FDCWD, b, 0); }
int symlinkat(const char *t, int d, const char *p) { ONEPATH(OP_SYMLINK, d, p, 1, syscall(SYS_symlinkat, t, d, p)) }
int symlink(const char *t, const char *p) { return symlinkat(t, AT_FDCWD, p); }

int fstat64(int fd, struct stat64 *st) {
    int r = (int)syscall(SYS_fstat, fd, st);
    if (r == 0 && TR(fd)) fix_times(st);
    return r;
}
int fstat(int fd, struct stat *st) { return fstat64(fd, (struct stat64 *)st); }
static int real_stat(int d, const char *p, struct stat64 *st, int f) {
    int r = (int)syscall(SYS_newfstatat, d, p, st, f);
    if (r == 0) fix_times(st);
    return r;
}
int fstatat64(int d, const char *restrict p, struct stat64 *restrict st, int f) {
    if (p && p[0] == 0) return (f & AT_EMPTY_PATH) ? fstat64(d, st) : (int)syscall(SYS_newfstatat, d, p, st, f);
    ONEPATH(OP_STAT, d, p, 0, (active && mine(d, p, abs) ? real_stat(d, p, st, f) : syscall(SYS_newfstatat, d, p, st, f)))
}
int fstatat(int d, const char *restrict p, struct stat *restrict st, int f) { return fstatat64(d, p, (struct stat64 *)st, f); }
int stat64(const char *restrict p, struct stat64 *restrict st) { return fstatat64(AT_FDCWD, p, st, 0); }
int stat(const char *restrict p, struct stat *restrict st) { return fstatat64(AT_FDCWD, p, (struct stat64 *)st, 0); }
int lstat64(const char *restrict p, struct stat64 *restrict st) { return fstatat64(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int lstat(const char *restrict p, struct stat *restrict st) { return fstatat64(AT_FDCWD, p, (struct stat64 *)st, AT_SYMLINK_NOFOLLOW); }
static int real_statx(int d, const char *p, int f, unsigned m, struct statx *sx) {
    int r = (int)syscall(SYS_statx, d, p, f, m, sx);
    if (r == 0) { sx->stx_atime = sx->stx_mtime; sx->stx_ctime = sx->stx_mtime; sx->stx_btime = sx->stx_mtime; }
    return r;
}
int statx(int d, const char *restrict p, int f, unsigned m, struct statx *restrict sx) {
    if (p && p[0] == 0) return TR(d) ? real_statx(d, p, f, m, sx) : (int)syscall(SYS_statx, d, p, f, m, sx);
    ONEPATH(OP_STAT, d, p, 0, (active && mine(d, p, abs) ? real_statx(d, p, f, m, sx) : syscall(SYS_statx, d, p, f, m, sx)))
}
int faccessat(int d, const char *p, int m, int f) { (void)f; ONEPATH(OP_ACCESS, d, p, 0, syscall(SYS_faccessat, d, p, m)) }
int access(const char *p, int m) { return faccessat(AT_FDCWD, p, m, 0); }

/* -- directory streams ------------------------------------------------------ */
struct ds { DIR *d; int n, pos, failat, err; struct dirent64 **e; };
#define MAXDS 64
static struct ds dst[MAXDS];
static int dcmp(const void *a, const void *b) {
    return strcmp((*(struct dirent64 *const *)a)->d_name, (*(struct dirent64 *const *)b)->d_name);
}
static struct ds *dfind(DIR *d) { for (int i = 0; i < MAXDS; i++) if (dst[i].d == d) return &dst[i]; return NULL; }
static void dfill(DIR *d, struct grant *g) {
    static struct dirent64 *(*rd)(DIR *);
    if (!rd) rd = (struct dirent64 *(*)(DIR *))dlsym(RTLD_NEXT, "readdir64");
    struct ds *s = dfind(NULL);
    if (!s) return;
    int cap = 64; s->n = 0; s->e = malloc(cap * sizeof *s->e);
    struct dirent64 *e;
    while ((e = rd(d))) {
        if (s->n == cap) s->e = realloc(s->e, (cap *= 2) * sizeof *s->e);
        s->e[s->n] = malloc(sizeof *e); memcpy(s->e[s->n], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e);
        s->n++;
    }
    qsort(s->e, s->n, sizeof *s->e, dcmp);
    uint64_t seed = (uint64_t)g->n;
    if (seed) for (int i = s->n - 1; i > 0; i--) {
        int j = (int)((xs(&seed) >> 11) % (uint64_t)(i + 1));
        struct dirent64 *t = s->e[i]; s->e[i] = s->e[j]; s->e[j] = t;
    }
    s->pos = 0; s->err = g->act == ACT_SHORT ? g->err : 0; s->failat = s->err ? (int)((uint64_t)g->n % (uint64_t)(s->n + 1)) : -1;
    s->d = d;
}
DIR *opendir(const char *p) {
    static DIR *(*r)(const char *); if (!r) r = (DIR *(*)(const char *))dlsym(RTLD_NEXT, "opendir");
    char abs[PATH_MAX];
    if (!mine(AT_FDCWD, p, abs)) return r(p);
    struct grant g = ask(OP_OPENDIR, -1, 0, 0, rel(abs), NULL);
    DIR *d = NULL;
    if (g.act == ACT_FAIL) errno = g.err; else { d = r(p); if (d) dfill(d, &g); }
    report(OP_OPENDIR, d ? 0 : -1, -1);
    return d;
}
DIR *fdopendir(int fd) {
    static DIR *(*r)(int); if (!r) r = (DIR *(*)(int))dlsym(RTLD_NEXT, "fdopendir");
    if (!TR(fd)) return r(fd);
    struct grant g = ask(OP_OPENDIR, fd, 0, 0, NULL, NULL);
    DIR *d = NULL;
    if (g.act == ACT_FAIL) errno = g.err; else { d = r(fd); if (d) dfill(d, &g); }
    report(OP_OPENDIR, d ? 0 : -1, -1);
    return d;
}
struct dirent64 *readdir64(DIR *d) {
    static struct dirent64 *(*r)(DIR *); if (!r) r = (struct dirent64 *(*)(DIR *))dlsym(RTLD_NEXT, "readdir64");
    struct ds *s = active ? dfind(d) : NULL;
    if (!s) return r(d);
    if (s->failat >= 0 && s->pos == s->failat) { errno = s->err; return NULL; }
    if (s->pos >= s->n) return NULL;
    return s->e[s->pos++];
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
void rewinddir(DIR *d) {
    static void (*r)(DIR *); if (!r) r = (void (*)(DIR *))dlsym(RTLD_NEXT, "rewinddir");
    struct ds *s = active ? dfind(d) : NULL;
    if (s) s->pos = 0; else r(d);
}
int closedir(DIR *d) {
    static int (*r)(DIR *); if (!r) r = (int (*)(DIR *))dlsym(RTLD_NEXT, "closedir");
    struct ds *s = d ? dfind(d) : NULL;
    if (s) { for (int i = 0; i < s->n; i++) free(s->e[i]); free(s->e); memset(s, 0, sizeof *s); }
    int fd = dirfd(d); if (fd >= 0 && fd < MAXFD) tracked[fd] = 0;
    return r(d);
}

/* -- locks (a blocked lock is a scheduling point, never a real wait) -------- */
int flock(int fd, int op) {
    if (!TR(fd)) return (int)syscall(SYS_flock, fd, op);
    for (;;) {
        ask(OP_LOCK, fd, op, 0, NULL, NULL);
        int r = (int)syscall(SYS_flock, fd, op | LOCK_NB);
        int e = errno;
        report(OP_LOCK, r, -1);
        errno = e;
        if (r == 0 || e != EWOULDBLOCK || (op & LOCK_NB)) return r;
    }
}
static int do_fcntl(int fd, int cmd, void *arg) {
    if (cmd == F_SETLKW && TR(fd)) {
        for (;;) {
            ask(OP_LOCK, fd, cmd, 0, NULL, NULL);
            int r = (int)syscall(SYS_fcntl, fd, F_SETLK, arg);
            int e = errno;
            report(OP_LOCK, r, -1);
            errno = e;
            if (r == 0 || (e != EAGAIN && e != EACCES)) return r;
        }
    }
    int r = (int)syscall(SYS_fcntl, fd, cmd, arg);
    if ((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && r >= 0 && r < MAXFD && TR(fd)) { tracked[r] = tracked[fd]; fdino[r] = fdino[fd]; }
    return r;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a); }

/* -- clocks, sleeps, entropy, identity -------------------------------------- */
void phsim_slow(int64_t n) { slow = n; }
static int64_t tick(void) { drift += 1000 + slow; return now_ns + drift; }
/* the interpreter itself looks at the monotonic clock when threads wait for it,
 * a number of times that nobody decides: then that clock only follows the simulator */
static int steady = 0;
void phsim_steady(int n) { steady = n; }
int clock_gettime(clockid_t c, struct timespec *t) {
    if (!determinize) return (int)syscall(SYS_clock_gettime, c, t);
    int64_t v = steady && c != CLOCK_REALTIME ? now_ns : tick(); t->tv_sec = v / 1000000000LL; t->tv_nsec = v % 1000000000LL; return 0;
}
time_t time(time_t *o) {
    if (!determinize) { struct timespec t; syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); if (o) *o = t.tv_sec; return t.tv_sec; }
    time_t v = tick() / 1000000000LL; if (o) *o = v; return v;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    (void)tz; struct timespec t; clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0;
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *t, struct timespec *rem) {
    if (!active) return syscall(SYS_clock_nanosleep, c, f, t, rem) < 0 ? errno : 0;
    int64_t v = t->tv_sec * 1000000000LL + t->tv_nsec; if (f) v -= now_ns; if (v < 0) v = 0;
    ask(OP_SLEEP, -1, v, 0, NULL, NULL); report(OP_SLEEP, 0, -1); return 0;
}
int nanosleep(const struct timespec *t, struct timespec *rem) { return clock_nanosleep(CLOCK_MONOTONIC, 0, t, rem); }
ssize_t getrandom(void *b, size_t n, unsigned f) {
    if (!determinize) return syscall(SYS_getrandom, b, n, f);
    unsigned char *p = b; for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(xs(&ent) >> 24); return (ssize_t)n;
}
int getentropy(void *b, size_t n) { getrandom(b, n, 0); return 0; }
pid_t getpid(void) { return active ? simpid : (pid_t)syscall(SYS_getpid); }
