/* Simulated disk: an LD_PRELOAD seam between the code under test and the files below one directory.
 *
 * The simulator arms it through a shared control block.  Every file operation below the prefix is counted; the block says
 * at which operation which fault happens.  All other files are left alone. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <limits.h>
#include <time.h>
#include <unistd.h>

enum { K_NONE, K_EIO, K_ENOSPC, K_SHORT, K_EINTR, K_CRASH, K_CLOSE, K_OPEN, K_READ, K_FSYNC, K_META, K_RATE };
#define C_OPEN 1      /* opening for writing, creating */
#define C_WRITE 2
#define C_META 4      /* rename, unlink, mkdir, truncate */
#define C_CLOSE 8     /* closing a file opened for writing */
#define C_SYNC 16
#define C_READ 32
#define C_ROPEN 64

struct ctl {
    uint32_t armed;      /* 0: everything passes and nothing is counted */
    uint32_t kind;
    uint32_t mask;       /* classes of operations counted */
    uint32_t arg;        /* bytes let through / number of failing operations (0: for ever) / rate in 1/1000 */
    uint64_t at;         /* number of the operation which fails, from 1 */
    uint64_t ops;        /* operations counted so far */
    uint64_t hits;       /* faults injected */
    uint64_t seed;
    uint32_t dead;       /* crashed: nothing reaches the disk any more */
    uint32_t powerloss;  /* 1: unsynced writes are lost when crashing */
    uint32_t scramble;   /* directory listing order, 0: as is */
    uint32_t sched;      /* number of scheduled threads (named zc0, zc1, ...), 0: run freely */
    int64_t clock_off;   /* seconds added to the wall clock */
    uint64_t switches;   /* scheduler: hand-overs made */
    uint64_t order;      /* scheduler: fingerprint of the order in which threads ran */
    uint64_t sched_seed;
    uint64_t arming;     /* number of this arming */
    uint64_t reserved[3];
    char prefix[512];
    uint64_t kinds[8];   /* operations per class */
    char last[512];      /* the operation that was hit */
};

static struct ctl *g_ctl;
static pthread_mutex_t g_mu = PTHREAD_MUTEX_INITIALIZER;
#define MAXFD 4096
static unsigned char g_fd[MAXFD];      /* 1: below the prefix, 2: opened for writing */
static char *g_path[MAXFD];

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__); \
    if (!real_##name) real_##name = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

__attribute__((constructor)) static void init(void)
{
    const char *p = getenv("SIMFS_CTL");
    if (!p) return;
    int fd = (int)syscall(SYS_openat, AT_FDCWD, p, O_RDWR | O_CLOEXEC, 0);
    if (fd < 0) return;
    void *m = mmap(NULL, sizeof(struct ctl), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    syscall(SYS_close, fd);
    if (m != MAP_FAILED) g_ctl = m;
}

/* below the prefix, whether or not faults are armed */
static int inside(const char *path)
{
    struct ctl *c = g_ctl;
    if (!c || !path || !c->prefix[0]) return 0;
    if (path[0] == '/') return strncmp(path, c->prefix, strlen(c->prefix)) == 0;
    char cwd[PATH_MAX];
    if (!getcwd(cwd, sizeof cwd)) return 0;
    size_t n = strlen(cwd);
    if (n + strlen(path) + 2 > sizeof cwd) return 0;
    cwd[n] = '/';
    strcpy(cwd + n + 1, path);
    return strncmp(cwd, c->prefix, strlen(c->prefix)) == 0;
}

static int below(const char *path) { return g_ctl && g_ctl->armed && inside(path); }

static uint32_t rnd(void)
{
    uint64_t x = g_ctl->seed ? g_ctl->seed : 88172645463325252ull;
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    g_ctl->seed = x;
    return (uint32_t)(x >> 20);
}

/* ------------------------------------------------------------------ undo log for power loss */
struct undo { int kind; char *path, *path2; off_t off, size; char *old; size_t n; int synced; ino_t ino; struct undo *next; };
static struct undo *g_undo;
enum { U_WRITE, U_TRUNC, U_CREATE, U_UNLINK, U_RENAME };

static struct undo *undo_add(int kind, const char *path)
{
    struct undo *u = calloc(1, sizeof *u);
    u->kind = kind; u->path = strdup(path); u->next = g_undo; g_undo = u;
    struct stat st;
    if (syscall(SYS_newfstatat, AT_FDCWD, path, &st, 0) == 0) u->ino = st.st_ino, u->size = st.st_size;
    return u;
}

static void undo_clear(void)
{
    while (g_undo) { struct undo *u = g_undo; g_undo = u->next; free(u->path); free(u->old); free(u); }
}

static void undo_write(int fd, off_t off, size_t n)
{
    struct ctl *c = g_ctl;
    if (!c->powerloss || fd >= MAXFD || !g_path[fd]) return;
    struct undo *u = undo_add(U_WRITE, g_path[fd]);
    u->off = off;
    if (off < u->size)
    {
        size_t m = (size_t)(u->size - off) < n ? (size_t)(u->size - off) : n;
        u->old = malloc(m);
        int r = (int)syscall(SYS_openat, AT_FDCWD, g_path[fd], O_RDONLY | O_CLOEXEC, 0);
        ssize_t k = r >= 0 ? syscall(SYS_pread64, r, u->old, m, off) : 0;
        if (r >= 0) syscall(SYS_close, r);
        u->n = k > 0 ? (size_t)k : 0;
    }
}

static void undo_sync(int fd)
{
    struct ctl *c = g_ctl;
    struct stat st;
    if (!c->powerloss || syscall(SYS_fstat, fd, &st)) return;
    for (struct undo *u = g_undo; u; u = u->next)
        if (u->ino == st.st_ino) u->synced = 1;
}

/* the power goes: of every write not yet synced, a seeded choice never reached the platter */
static void lose(void)
{
    struct ctl *c = g_ctl;
    if (!c->powerloss) return;
    uint32_t style = rnd() % 3;    /* all lost, each at random, none */
    for (struct undo *u = g_undo; u; u = u->next)
    {
        if (u->synced || style == 2 || (style == 1 && rnd() % 2)) continue;
        if (u->kind != U_WRITE && u->kind != U_TRUNC) continue;
        struct stat st;
        if (syscall(SYS_newfstatat, AT_FDCWD, u->path, &st, 0) || st.st_ino != u->ino) continue;
        int fd = (int)syscall(SYS_openat, AT_FDCWD, u->path, O_RDWR | O_CLOEXEC, 0);
        if (fd < 0) continue;
        if (u->n) syscall(SYS_pwrite64, fd, u->old, u->n, u->off);
        if (style == 0 || u->kind == U_TRUNC)
        {
            if (st.st_size > u->size) syscall(SYS_ftruncate, fd, u->size);
            else if (u->kind == U_TRUNC && u->n == 0 && st.st_size < u->size) syscall(SYS_ftruncate, fd, u->size);
        }
        syscall(SYS_close, fd);
    }
}

/* ------------------------------------------------------------------ the decision taken at every operation */
#define PASS 0
#define FAIL 1        /* errno set */
#define PART 2        /* *n shortened */
#define DROP 3        /* pretend: crashed */

static int decide(uint32_t cls, const char *what, size_t *n)
{
    static uint64_t arming;
    struct ctl *c = g_ctl;
    if (arming != c->arming) { undo_clear(); arming = c->arming; }
    if (c->dead) { errno = EIO; return DROP; }
    for (int i = 0; i < 8; ++i) if (cls == (1u << i)) c->kinds[i]++;
    if (!(c->mask & cls)) return PASS;
    c->ops++;
    int hit = c->kind == K_RATE ? rnd() % 1000 < c->arg :
              c->kind == K_CRASH || c->kind == K_SHORT || c->kind == K_EINTR ? c->ops == c->at :
              c->ops >= c->at && (c->arg == 0 || c->ops < c->at + c->arg);
    if (!hit || c->kind == K_NONE) return PASS;
    c->hits++;
    snprintf(c->last, sizeof c->last, "%s", what ? what : "");
    switch (c->kind)
    {
    case K_EIO: case K_CLOSE: case K_FSYNC: case K_READ: errno = EIO; return FAIL;
    case K_META: case K_OPEN: errno = rnd() % 2 ? EACCES : EMFILE; return FAIL;
    case K_ENOSPC:
        if (n && *n > 1 && c->ops == c->at) { *n = *n / 2; return PART; }   /* the last bytes that fit */
        if (cls == C_READ || cls == C_ROPEN) return PASS;
        errno = ENOSPC; return FAIL;
    case K_SHORT: if (n && *n > 1) { *n = 1 + c->arg % (*n - 1); return PART; } return PASS;
    case K_EINTR: if (cls == C_READ || cls == C_WRITE) { errno = EINTR; return FAIL; } return PASS;
    case K_RATE:
        if (n && *n > 1 && rnd() % 2) { *n = 1 + rnd() % (*n - 1); return PART; }
        if (cls == C_READ || cls == C_WRITE) { errno = EINTR; return FAIL; }
        return PASS;
    case K_CRASH:
        c->dead = 1;
        if (cls == C_WRITE && n) { *n = *n * (c->arg % 256) / 256; lose(); return PART; }   /* torn */
        lose();
        errno = EIO;
        return DROP;
    }
    return PASS;
}

/* ------------------------------------------------------------------ one thread at a time, chosen by seed at every operation */
static pthread_mutex_t s_mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t s_cv = PTHREAD_COND_INITIALIZER;
static int s_turn, s_here, s_gone[8];

static int my_index(void)
{
    char n[32] = "";
    if (pthread_getname_np(pthread_self(), n, sizeof n) || n[0] != 'z' || n[1] != 'c' || n[2] < '0' || n[2] > '7') return -1;
    return n[2] - '0';
}
static uint32_t srnd(void)
{
    uint64_t x = g_ctl->sched_seed ? g_ctl->sched_seed : 1;
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    g_ctl->sched_seed = x;
    return (uint32_t)(x >> 20);
}
static void wait_turn(int me)
{
    struct timespec t;
    syscall(SYS_clock_gettime, CLOCK_REALTIME, &t);
    t.tv_sec += 60;
    while (s_turn != me && g_ctl->sched)
        if (pthread_cond_timedwait(&s_cv, &s_mu, &t)) { g_ctl->sched = 0; break; }   /* seen as a harness error */
}
static void baton(const char *path)
{
    struct ctl *c = g_ctl;
    int me = my_index();
    if (me < 0 || me >= (int)c->sched) return;
    pthread_mutex_lock(&s_mu);
    int n = (int)c->sched;
    const char *b = path ? strrchr(path, '/') : NULL;
    if (b && !strcmp(b, "/.zc_begin"))
    {
        if (s_here == 0) { s_turn = (int)(srnd() % n); memset(s_gone, 0, sizeof s_gone); }
        if (++s_here == n) pthread_cond_broadcast(&s_cv);
        struct timespec t;
        syscall(SYS_clock_gettime, CLOCK_REALTIME, &t);
        t.tv_sec += 60;
        while (s_here < n) if (pthread_cond_timedwait(&s_cv, &s_mu, &t)) { c->sched = 0; break; }
        wait_turn(me);
        pthread_mutex_unlock(&s_mu);
        return;
    }
    int end = b && !strcmp(b, "/.zc_end");
    if (end) s_gone[me] = 1;
    if (end || srnd() % 1000 < 200)
    {
        int alive[8], k = 0;
        for (int i = 0; i < n; ++i) if (!s_gone[i]) alive[k++] = i;
        if (k)
        {
            s_turn = alive[srnd() % k];
            c->order = c->order * 1099511628211ull + s_turn + 1 + c->ops * 8;
            if (s_turn != me) { c->switches++; pthread_cond_broadcast(&s_cv); if (!end) wait_turn(me); }
        }
        else s_here = 0;
    }
    pthread_mutex_unlock(&s_mu);
}

#define LOCK pthread_mutex_lock(&g_mu)
#define UNLOCK do { int e_ = errno; pthread_mutex_unlock(&g_mu); errno = e_; } while (0)

static int tracked(int fd) { return g_ctl && g_ctl->armed && fd >= 0 && fd < MAXFD && g_fd[fd]; }

static void track(int fd, const char *path, int flags)
{
    if (fd < 0 || fd >= MAXFD) return;
    g_fd[fd] = 1 | ((flags & O_ACCMODE) != O_RDONLY ? 2 : 0);
    free(g_path[fd]);
    g_path[fd] = strdup(path);
}

static int do_open(int dirfd, const char *path, int flags, mode_t mode)
{
    if ((dirfd != AT_FDCWD && path[0] != '/') || (flags & O_DIRECTORY) || !below(path))
    {
        int in = path && (dirfd == AT_FDCWD || path[0] == '/') && !(flags & O_DIRECTORY) && inside(path);
        int fd = (int)syscall(SYS_openat, dirfd, path, flags, mode), e = errno;
        if (in && fd >= 0) { LOCK; track(fd, path, flags); UNLOCK; }
        errno = e;
        return fd;
    }
    if (g_ctl->sched) baton(path);
    LOCK;
    int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    int d = decide(w ? C_OPEN : C_ROPEN, path, NULL), fd = -1;
    if (d == DROP && !w) d = PASS;
    if (d == PASS)
    {
        struct ctl *c = g_ctl;
        if (w && c->powerloss && (flags & O_TRUNC)) undo_add(U_TRUNC, path);
        fd = (int)syscall(SYS_openat, dirfd, path, flags | O_CLOEXEC, mode);
        if (fd >= 0) track(fd, path, flags);
    }
    UNLOCK;
    return fd;
}

#define OPENV(name) \
    int name(const char *path, int flags, ...) { \
        mode_t m = 0; \
        if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } \
        return do_open(AT_FDCWD, path, flags, m); }
OPENV(open)
OPENV(open64)
#define OPENATV(name) \
    int name(int d, const char *path, int flags, ...) { \
        mode_t m = 0; \
        if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } \
        return do_open(d, path, flags, m); }
OPENATV(openat)
OPENATV(openat64)
int creat(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_WRONLY | O_CREAT | O_TRUNC, m); }
int creat64(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_WRONLY | O_CREAT | O_TRUNC, m); }

static FILE *do_fopen(FILE *(*real)(const char *, const char *), const char *path, const char *mode)
{
    int w = mode[0] != 'r' || strchr(mode, '+');
    if (!below(path))
    {
        int in = inside(path);
        FILE *p = real(path, mode);
        int e = errno;
        if (in && p) { LOCK; track(fileno(p), path, w ? O_WRONLY : O_RDONLY); UNLOCK; }
        errno = e;
        return p;
    }
    LOCK;
    FILE *f = NULL;
    int d = decide(w ? C_OPEN : C_ROPEN, path, NULL);
    if (d == DROP && !w) d = PASS;
    if (d == PASS)
    {
        f = real(path, mode);
        if (f) track(fileno(f), path, w ? O_WRONLY : O_RDONLY);
    }
    UNLOCK;
    return f;
}
FILE *fopen(const char *p, const char *m) { REAL(FILE *, fopen, const char *, const char *); return do_fopen(real_fopen, p, m); }
FILE *fopen64(const char *p, const char *m) { REAL(FILE *, fopen64, const char *, const char *); return do_fopen(real_fopen64, p, m); }

int fclose(FILE *f)
{
    REAL(int, fclose, FILE *);
    int fd = f ? fileno(f) : -1;
    if (!tracked(fd)) { if (fd >= 0 && fd < MAXFD) g_fd[fd] = 0; return real_fclose(f); }
    LOCK;
    int wr = g_fd[fd] & 2;
    g_fd[fd] = 0;
    int d = wr ? decide(C_CLOSE, g_path[fd], NULL) : PASS, e = errno;
    UNLOCK;
    int r = real_fclose(f);
    if (d == FAIL || d == DROP) { errno = e; return EOF; }
    return r;
}

int close(int fd)
{
    if (!tracked(fd)) { if (fd >= 0 && fd < MAXFD) g_fd[fd] = 0; return (int)syscall(SYS_close, fd); }
    LOCK;
    int wr = g_fd[fd] & 2;
    g_fd[fd] = 0;
    int d = wr ? decide(C_CLOSE, g_path[fd], NULL) : PASS, e = errno;
    int r = (int)syscall(SYS_close, fd);
    if (d == FAIL || d == DROP) { errno = e; r = -1; }
    UNLOCK;
    return r;
}

static ssize_t do_write(int fd, const void *b, size_t n, off_t off)
{
    if (!tracked(fd))
        return off < 0 ? syscall(SYS_write, fd, b, n) : syscall(SYS_pwrite64, fd, b, n, off);
    if (g_ctl->sched) baton(NULL);
    LOCK;
    size_t m = n;
    int d = decide(C_WRITE, g_path[fd], &m);
    ssize_t r = -1;
    if (d == PASS || d == PART)
    {
        undo_write(fd, off < 0 ? syscall(SYS_lseek, fd, 0, SEEK_CUR) : off, m);
        r = off < 0 ? syscall(SYS_write, fd, b, m) : syscall(SYS_pwrite64, fd, b, m, off);
        if (g_ctl->dead) { errno = EIO; r = -1; }
    }
    UNLOCK;
    return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, -1); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o); }

ssize_t writev(int fd, const struct iovec *v, int k)
{
    if (!tracked(fd)) return syscall(SYS_writev, fd, v, k);
    size_t n = 0;
    for (int i = 0; i < k; ++i) n += v[i].iov_len;
    char *b = malloc(n ? n : 1);
    n = 0;
    for (int i = 0; i < k; ++i) { memcpy(b + n, v[i].iov_base, v[i].iov_len); n += v[i].iov_len; }
    ssize_t r = do_write(fd, b, n, -1);
    int e = errno;
    free(b);
    errno = e;
    return r;
}

static ssize_t do_read(int fd, void *b, size_t n, off_t off)
{
    if (!tracked(fd))
        return off < 0 ? syscall(SYS_read, fd, b, n) : syscall(SYS_pread64, fd, b, n, off);
    if (g_ctl->sched) baton(NULL);
    LOCK;
    size_t m = n;
    int d = g_ctl->dead ? PASS : decide(C_READ, g_path[fd], &m);
    ssize_t r = -1;
    if (d == PASS || d == PART)
        r = off < 0 ? syscall(SYS_read, fd, b, m) : syscall(SYS_pread64, fd, b, m, off);
    UNLOCK;
    return r;
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, -1); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_read(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec *v, int k)
{
    if (!tracked(fd)) return syscall(SYS_readv, fd, v, k);
    ssize_t total = 0;
    for (int i = 0; i < k; ++i)
    {
        if (!v[i].iov_len) continue;
        ssize_t r = do_read(fd, v[i].iov_base, v[i].iov_len, -1);
        if (r < 0) return total ? total : r;
        total += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return total;
}

/* copies made inside the kernel are seen as plain writes: callers fall back */
ssize_t sendfile(int o, int i, off_t *p, size_t n) { if (tracked(o)) { errno = EINVAL; return -1; } return syscall(SYS_sendfile, o, i, p, n); }
ssize_t sendfile64(int o, int i, off64_t *p, size_t n) { if (tracked(o)) { errno = EINVAL; return -1; } return syscall(SYS_sendfile, o, i, p, n); }
ssize_t copy_file_range(int i, off64_t *a, int o, off64_t *b, size_t n, unsigned f)
{
    if (tracked(o)) { errno = ENOSYS; return -1; }
    return syscall(SYS_copy_file_range, i, a, o, b, n, f);
}

static int do_sync(int fd, long nr)
{
    if (!tracked(fd)) return (int)syscall(nr, fd);
    LOCK;
    int d = decide(C_SYNC, g_path[fd], NULL), r = -1;
    if (d == PASS || d == PART) { r = 0; undo_sync(fd); }      /* the platter is simulated */
    UNLOCK;
    return r;
}
int fsync(int fd) { return do_sync(fd, SYS_fsync); }
int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }

static int do_ftrunc(int fd, off_t n)
{
    if (!tracked(fd)) return (int)syscall(SYS_ftruncate, fd, n);
    LOCK;
    int d = decide(C_META, g_path[fd], NULL), r = -1;
    if (d == PASS) r = (int)syscall(SYS_ftruncate, fd, n);
    UNLOCK;
    return r;
}
int ftruncate(int fd, off_t n) { return do_ftrunc(fd, n); }
int ftruncate64(int fd, off64_t n) { return do_ftrunc(fd, n); }

static void undo_gone(const char *path)
{
    for (struct undo *u = g_undo; u; u = u->next)
        if (!strcmp(u->path, path)) u->synced = 1;
}

static int meta(const char *path) /* 0: go on */
{
    if (g_ctl->sched) baton(NULL);
    LOCK;
    int d = decide(C_META, path, NULL);
    if (d == PASS || d == PART) undo_gone(path);
    UNLOCK;
    return d == PASS || d == PART ? 0 : -1;
}
int rename(const char *a, const char *b)
{
    if ((below(a) || below(b)) && meta(b)) return -1;
    return (int)syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0);
}
int renameat(int x, const char *a, int y, const char *b)
{
    if ((below(a) || below(b)) && meta(b)) return -1;
    return (int)syscall(SYS_renameat2, x, a, y, b, 0);
}
int unlink(const char *p) { if (below(p) && meta(p)) return -1; return (int)syscall(SYS_unlinkat, AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int f)
{
    if (d == AT_FDCWD && below(p) && meta(p)) return -1;
    return (int)syscall(SYS_unlinkat, d, p, f);
}
int remove(const char *p)
{
    if (below(p) && meta(p)) return -1;
    int r = (int)syscall(SYS_unlinkat, AT_FDCWD, p, 0);
    return r && errno == EISDIR ? (int)syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR) : r;
}
int mkdir(const char *p, mode_t m) { if (below(p) && meta(p)) return -1; return (int)syscall(SYS_mkdirat, AT_FDCWD, p, m); }
int mkdirat(int d, const char *p, mode_t m)
{
    if (d == AT_FDCWD && below(p) && meta(p)) return -1;
    return (int)syscall(SYS_mkdirat, d, p, m);
}

/* called by the simulator between runs of one process */
void simfs_reset(void) { LOCK; undo_clear(); UNLOCK; }

/* ------------------------------------------------------------------ directory listings in another order */
struct listing { DIR *d; struct dirent64 *e; size_t n, i; struct listing *next; };
static struct listing *g_ls;

static struct listing *listing_of(DIR *d)
{
    REAL(struct dirent64 *, readdir64, DIR *);
    for (struct listing *l = g_ls; l; l = l->next) if (l->d == d) return l;
    struct listing *l = calloc(1, sizeof *l);
    l->d = d; l->next = g_ls; g_ls = l;
    struct dirent64 *e;
    size_t cap = 0;
    while ((e = real_readdir64(d)))
    {
        if (l->n == cap) l->e = realloc(l->e, (cap = cap ? 2 * cap : 64) * sizeof *l->e);
        memcpy(&l->e[l->n++], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e);
    }
    /* sorted first, so that the order depends on the seed alone */
    for (size_t i = 1; i < l->n; ++i)
        for (size_t j = i; j && strcmp(l->e[j - 1].d_name, l->e[j].d_name) > 0; --j)
        { struct dirent64 t = l->e[j]; l->e[j] = l->e[j - 1]; l->e[j - 1] = t; }
    uint64_t x = g_ctl->scramble * 0x9e3779b97f4a7c15ull + 1;
    for (size_t i = l->n; i > 1; --i)
    {
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        size_t j = x % i;
        struct dirent64 t = l->e[i - 1]; l->e[i - 1] = l->e[j]; l->e[j] = t;
    }
    return l;
}
struct dirent64 *readdir64(DIR *d)
{
    REAL(struct dirent64 *, readdir64, DIR *);
    if (!g_ctl || !g_ctl->scramble) return real_readdir64(d);
    LOCK;
    struct listing *l = listing_of(d);
    struct dirent64 *r = l->i < l->n ? &l->e[l->i++] : NULL;
    UNLOCK;
    return r;
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int closedir(DIR *d)
{
    REAL(int, closedir, DIR *);
    LOCK;
    for (struct listing **p = &g_ls; *p; p = &(*p)->next)
        if ((*p)->d == d) { struct listing *l = *p; *p = l->next; free(l->e); free(l); break; }
    UNLOCK;
    return real_closedir(d);
}

/* ------------------------------------------------------------------ the wall clock */
#include <time.h>
#include <sys/time.h>
int clock_gettime(clockid_t id, struct timespec *t)
{
    int r = (int)syscall(SYS_clock_gettime, id, t);
    if (r == 0 && id == CLOCK_REALTIME && g_ctl) t->tv_sec += g_ctl->clock_off;
    return r;
}
int gettimeofday(struct timeval *t, void *z)
{
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *t)
{
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (t) *t = s.tv_sec;
    return s.tv_sec;
}
