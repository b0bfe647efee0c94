/*
 * Monitor preloaded into detox: logs the calls that matter, and on request delays, fails, or ends
 * the run at one of them, plays another process that creates a name, presents directories the way
 * some file systems do, redirects system paths into the scratch directory, and counts memory.
 *
 * Configuration by environment:
 *   MON_LOG=path            event log, one line per call: name|path1|path2|ret|errno (paths in hex)
 *   MON_REDIR=from=to:...   path prefixes to redirect
 *   MON_FAIL=class:n:errno  fail the n-th (1-based) call of a class (or of a function); class "fs"
 *                           counts all; a negative n fails every |n|-th
 *   MON_KILL=n              kill the process right before the n-th fs call; -n: right after it
 *   MON_RACE=when:n:kind    create the destination: when=rename (before the n-th rename) or lstat
 *                           (after the n-th lstat that failed with ENOENT); kind=file|dir|link|fifo|hard
 *   MON_DELAY=us            wait up to this long before each rename
 *   MON_DIR=flags           s<seed> shuffle listing, r deliver renamed entries again, u DT_UNKNOWN
 *   MON_ALLOC=n             fail the n-th allocation made by the program; 0: only count
 *   MON_HEAP=1              log live heap at exit
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <malloc.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

static int ready, log_fd = -1;
static char *redir, *dirflags, *race_kind;
static char fail_class[16];
static long fail_n, fail_errno, fail_count;
static long kill_n, fs_count;
static unsigned long delay_us, delay_state, pause_us, steal_state;
static int steal_on;
static int race_rename, race_lstat;
static long race_n, race_count;
static long alloc_fail = -1, alloc_count, lib_alloc_count;
static int heap_on;
static long live_bytes, live_blocks, peak_bytes;
static uintptr_t exe_lo, exe_hi;
static __thread volatile int in_app_alloc, in_mon;   /* volatile: the compiler takes malloc() for a function that cannot see them */

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void __libc_free(void *);

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = dlsym(RTLD_NEXT, #name)

static int phdr(struct dl_phdr_info *i, size_t s, void *d)
{
    int k;
    uintptr_t lo = ~0ul, hi = 0;
    for (k = 0; k < i->dlpi_phnum; k++) {
        if (i->dlpi_phdr[k].p_type == PT_LOAD) {
            uintptr_t a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
            if (a < lo) lo = a;
            if (a + i->dlpi_phdr[k].p_memsz > hi) hi = a + i->dlpi_phdr[k].p_memsz;
        }
    }
    exe_lo = lo;
    exe_hi = hi;
    return 1;
}

static void put(char **w, char *end, const char *s) { while (*s && *w < end) *(*w)++ = *s++; }
static void hex(char **w, char *end, const char *s)
{
    static const char d[] = "0123456789abcdef";
    for (; s && *s && *w < end - 2; s++) { *(*w)++ = d[(unsigned char) *s >> 4]; *(*w)++ = d[*s & 15]; }
}

static void event(const char *name, const char *a, const char *b, long ret, int err)
{
    static char buf[40000];
    char num[64], *w = buf, *end = buf + sizeof(buf) - 100;
    int saved = errno;
    if (log_fd < 0) return;
    put(&w, end, name); put(&w, end, "|"); hex(&w, end, a); put(&w, end, "|"); hex(&w, end, b);
    snprintf(num, sizeof num, "|%ld|%d\n", ret, ret < 0 ? err : 0);
    put(&w, end + 90, num);
    syscall(SYS_write, log_fd, buf, w - buf);
    errno = saved;
}

__attribute__((constructor)) static void init(void)
{
    char *s;
    dl_iterate_phdr(phdr, NULL);
    if ((s = getenv("MON_LOG"))) {
        int fd = syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0644);
        if (fd >= 0) {
            log_fd = syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 200);
            if (log_fd < 0) log_fd = fd; else syscall(SYS_close, fd);
        }
    }
    redir = getenv("MON_REDIR");
    dirflags = getenv("MON_DIR");
    if ((s = getenv("MON_FAIL"))) sscanf(s, "%15[^:]:%ld:%ld", fail_class, &fail_n, &fail_errno);
    if ((s = getenv("MON_KILL"))) kill_n = atol(s);
    if ((s = getenv("MON_RACE"))) {
        race_rename = !strncmp(s, "rename:", 7);
        race_lstat = !strncmp(s, "lstat:", 6);
        s = strchr(s, ':') + 1;
        race_n = atol(s);
        race_kind = strchr(s, ':') + 1;
    }
    if ((s = getenv("MON_DELAY"))) { delay_us = atol(s); delay_state = syscall(SYS_getpid) * 2654435761u; }
    if ((s = getenv("MON_PAUSE"))) { pause_us = atol(s); delay_state += syscall(SYS_getpid) * 2246822519u; }
    if ((s = getenv("MON_STEAL"))) { steal_on = 1; steal_state = atol(s) * 2654435761u + 1; }
    if ((s = getenv("MON_HEAP"))) heap_on = 1;
    if ((s = getenv("MON_ALLOC"))) alloc_fail = atol(s);
    ready = 1;
}

__attribute__((destructor)) static void fini(void)
{
    char b[200];
    int i, fds = 0;
    if (heap_on || alloc_fail >= 0) {
        for (i = 0; i < 200; i++) if (i != log_fd && syscall(SYS_fcntl, i, F_GETFD) >= 0) fds++;
        snprintf(b, sizeof b, "exit|||%ld|0\n", 0L);
        event("heap", "", "", 0, 0);
        snprintf(b, sizeof b, "stats live_bytes=%ld live_blocks=%ld fds=%d peak=%ld app=%ld lib=%ld\n",
                 live_bytes, live_blocks, fds, peak_bytes, alloc_count, lib_alloc_count);
        if (log_fd >= 0) syscall(SYS_write, log_fd, b, strlen(b));
    }
}

/* ---- memory ---- */

static int from_app(void *ra) { return in_app_alloc || ((uintptr_t) ra >= exe_lo && (uintptr_t) ra < exe_hi); }

static int alloc_point(void *ra)
{
    if (!ready || alloc_fail < 0 || in_mon) return 0;
    if (from_app(ra)) {
        if (++alloc_count == alloc_fail) {
            event("allocfail", "", "", 0, 0);
            errno = ENOMEM;
            return 1;
        }
    } else lib_alloc_count++;
    return 0;
}

static void track(void *p, int sign)
{
    if (!heap_on || !p) return;
    live_bytes += sign * (long) malloc_usable_size(p);
    live_blocks += sign;
    if (live_bytes > peak_bytes) peak_bytes = live_bytes;
}

void *malloc(size_t n) { void *p; if (alloc_point(__builtin_return_address(0))) return NULL; p = __libc_malloc(n); track(p, 1); return p; }
void *calloc(size_t a, size_t b) { void *p; if (alloc_point(__builtin_return_address(0))) return NULL; p = __libc_calloc(a, b); track(p, 1); return p; }
void *realloc(void *q, size_t n)
{
    void *p;
    if (alloc_point(__builtin_return_address(0))) return NULL;
    track(q, -1);
    p = __libc_realloc(q, n);
    track(p ? p : (n ? q : NULL), 1);
    return p;
}
void free(void *p) { track(p, -1); __libc_free(p); }

#define APP_ALLOC(expr) do { int out = in_app_alloc; if (from_app(__builtin_return_address(0))) in_app_alloc = 1; expr; in_app_alloc = out; } while (0)

char *strdup(const char *s) { char *r; size_t n = strlen(s) + 1; APP_ALLOC(r = malloc(n)); if (r) memcpy(r, s, n); return r; }
char *strndup(const char *s, size_t m) { char *r; size_t n = strnlen(s, m); APP_ALLOC(r = malloc(n + 1)); if (r) { memcpy(r, s, n); r[n] = 0; } return r; }
/* the buffer of the stream is the library's: have it made before the line is */
static void have_buffer(FILE *f)
{
    int c, saved = errno;
    if (alloc_fail < 0 || f->_IO_buf_base) return;
    if ((c = getc(f)) != EOF) ungetc(c, f);
    errno = saved;
}
#define GETDELIM(NAME, D) REAL(ssize_t, NAME, char **, size_t *, int, FILE *); ssize_t r; have_buffer(f); APP_ALLOC(r = real(l, n, D, f)); return r;
ssize_t getdelim(char **l, size_t *n, int d, FILE *f) { GETDELIM(getdelim, d) }
ssize_t __getdelim(char **l, size_t *n, int d, FILE *f) { GETDELIM(__getdelim, d) }
ssize_t getline(char **l, size_t *n, FILE *f) { GETDELIM(getdelim, '\n') }
int vasprintf(char **s, const char *f, va_list a) { REAL(int, vasprintf, char **, const char *, va_list); int r; APP_ALLOC(r = real(s, f, a)); return r; }
int asprintf(char **s, const char *f, ...) { int r; va_list a; va_start(a, f); APP_ALLOC(r = vasprintf(s, f, a)); va_end(a); return r; }
void *reallocarray(void *p, size_t a, size_t b) { void *r; if (b && a > (size_t) -1 / b) { errno = ENOMEM; return NULL; } APP_ALLOC(r = realloc(p, a * b)); return r; }

/* ---- file system calls ---- */

static const char *map(const char *p, char *buf)
{
    char *s = redir;
    if (!redir || !p) return p;
    while (s && *s) {
        char *eq = strchr(s, '='), *end = strchr(s, ':');
        if (!eq) break;
        if (!end) end = s + strlen(s);
        if (!strncmp(p, s, eq - s)) {
            snprintf(buf, 8192, "%.*s%s", (int) (end - eq - 1), eq + 1, p + (eq - s));
            return buf;
        }
        s = *end ? end + 1 : end;
    }
    return p;
}

/* the path of a call relative to a directory descriptor, made absolute for the log */
static const char *at(int f, const char *p, char *buf)
{
    char link[40];
    ssize_t n;
    if (!p || *p == '/' || f == AT_FDCWD) return p;
    snprintf(link, sizeof link, "/proc/self/fd/%d", f);
    n = syscall(SYS_readlinkat, AT_FDCWD, link, buf, 8000);
    if (n <= 0) return p;
    if (*p) snprintf(buf + n, 8192 - n, "%s%s", buf[n - 1] == '/' ? "" : "/", p);
    else buf[n] = 0;
    return buf;
}

static unsigned long roll(unsigned long *state, unsigned long n)
{
    *state = *state * 6364136223846793005ul + 1442695040888963407ul;
    return (*state >> 33) % n;
}

/* another process: takes the entry away, or puts another one in its place */
static void steal(const char *a)
{
    const char *base = strrchr(a, '/');
    int saved = errno, what;
    static int count;
    char to[8192];
    struct stat st;
    base = base ? base + 1 : a;
    if ((strncmp(base, "Churn", 5) && strncmp(base, "churn", 5)) || base - a > 8000 || roll(&steal_state, 5)) return;
    in_mon = 1;
    if (syscall(SYS_newfstatat, AT_FDCWD, a, &st, AT_SYMLINK_NOFOLLOW) == 0) {
        what = roll(&steal_state, 4);
        snprintf(to, sizeof to, "%.*staken_%d", (int) (base - a), a, ++count);
        if (what == 0) syscall(SYS_unlinkat, AT_FDCWD, a, S_ISDIR(st.st_mode) ? AT_REMOVEDIR : 0);
        else syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, to, 1);
        if (what == 2 && S_ISDIR(st.st_mode)) syscall(SYS_mknodat, AT_FDCWD, a, S_IFREG | 0644, 0);
        else if (what == 2) syscall(SYS_mkdirat, AT_FDCWD, a, 0755);
        event("steal", a, to, what, 0);
    }
    in_mon = 0;
    errno = saved;
}

/* returns 1 when the call has to fail with fail_errno */
static int before(const char *cls, const char *name, const char *a, const char *b)
{
    if (!ready || in_mon) return 0;
    fs_count++;
    if (pause_us && roll(&delay_state, 2)) usleep(roll(&delay_state, pause_us));
    if (steal_on && (!strcmp(cls, "lstat") || !strcmp(cls, "opendir") || !strcmp(cls, "rename"))) steal(a);
    if (kill_n > 0 && fs_count == kill_n) { event("kill-before", a, b, fs_count, 0); syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) pause(); }
    if (fail_n && (!strcmp(fail_class, cls) || !strcmp(fail_class, name) || !strcmp(fail_class, "fs"))) {
        if (++fail_count == fail_n || (fail_n < 0 && fail_count % -fail_n == 0)) {
            char n[40];
            snprintf(n, sizeof n, "injected-%s", name);
            event(n, a, b, -1, fail_errno);
            errno = fail_errno;
            return 1;
        }
    }
    return 0;
}

static void after(const char *name, const char *a, const char *b, long ret)
{
    int saved = errno;
    if (!ready || in_mon) return;
    event(name, a, b, ret, saved);
    if (kill_n < 0 && fs_count == -kill_n) { event("kill-after", a, b, fs_count, 0); syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) pause(); }
    errno = saved;
}

static void create(const char *src, const char *path)
{
    int saved = errno, fd, r = -1;
    struct stat st;
    if (!strcmp(race_kind, "file")) {
        r = fd = syscall(SYS_openat, AT_FDCWD, path, O_WRONLY | O_CREAT | O_EXCL, 0644);
        if (fd >= 0) { syscall(SYS_write, fd, "intruder", 8); syscall(SYS_close, fd); }
    } else if (!strcmp(race_kind, "dir")) r = syscall(SYS_mkdirat, AT_FDCWD, path, 0755);
    else if (!strcmp(race_kind, "link")) r = syscall(SYS_symlinkat, "nowhere", AT_FDCWD, path);
    else if (!strcmp(race_kind, "fifo")) r = syscall(SYS_mknodat, AT_FDCWD, path, S_IFIFO | 0644, 0);
    else if (!strcmp(race_kind, "hard") && src) r = syscall(SYS_linkat, AT_FDCWD, src, AT_FDCWD, path, 0);
    event("race", path, race_kind, r < 0 ? -1 : 0, errno);
    errno = saved;
}

static void race_before_rename(const char *a, const char *b)
{
    if (delay_us) { delay_state = delay_state * 6364136223846793005ul + 1442695040888963407ul; usleep((delay_state >> 33) % delay_us); }
    if (race_rename && ++race_count == race_n) create(a, b);
}

/* directories presented in another order, or listing renamed entries again */
struct mondir { DIR *d; struct mondir *next; char path[8192]; struct dirent *list; int n, pos; };
static struct mondir *dirs;

static void note_rename(const char *a, const char *b)
{
    struct mondir *m;
    const char *sa = strrchr(b, '/');
    size_t n = sa ? (size_t) (sa - b) : 0;
    if (!dirflags || !strchr(dirflags, 'r')) return;
    for (m = dirs; m; m = m->next) {
        size_t l = strlen(m->path);
        while (l > 1 && m->path[l - 1] == '/') l--;
        if (l == n && !strncmp(m->path, b, n)) {
            struct dirent *e;
            in_mon = 1;
            m->list = __libc_realloc(m->list, (m->n + 1) * sizeof(struct dirent));
            in_mon = 0;
            e = &m->list[m->n++];
            memset(e, 0, sizeof *e);
            e->d_ino = 1;
            e->d_type = DT_UNKNOWN;
            snprintf(e->d_name, sizeof e->d_name, "%s", sa + 1);
            event("redeliver", b, "", 0, 0);
        }
    }
}

#define RENAME_BODY(NAME, F, PA, G, PB, CALL) \
    int r; char ba[8192], bb[8192], ca[8192], cb[8192]; const char *a = map(PA, ba), *b = map(PB, bb); \
    const char *la = at(F, a, ca), *lb = at(G, b, cb); \
    if (before("rename", NAME, la, lb)) return -1; \
    race_before_rename(la, lb); \
    r = CALL; after(NAME, la, lb, r); if (r == 0) note_rename(la, lb); return r;

int rename(const char *x, const char *y) { REAL(int, rename, const char *, const char *); RENAME_BODY("rename", AT_FDCWD, x, AT_FDCWD, y, real(a, b)) }
int renameat(int f, const char *x, int g, const char *y) { REAL(int, renameat, int, const char *, int, const char *); RENAME_BODY("renameat", f, x, g, y, real(f, a, g, b)) }
int renameat2(int f, const char *x, int g, const char *y, unsigned fl) { REAL(int, renameat2, int, const char *, int, const char *, unsigned); RENAME_BODY("renameat2", f, x, g, y, real(f, a, g, b, fl)) }
int link(const char *x, const char *y) { REAL(int, link, const char *, const char *); RENAME_BODY("link", AT_FDCWD, x, AT_FDCWD, y, real(a, b)) }
int linkat(int f, const char *x, int g, const char *y, int fl) { REAL(int, linkat, int, const char *, int, const char *, int); RENAME_BODY("linkat", f, x, g, y, real(f, a, g, b, fl)) }
int symlink(const char *x, const char *y) { REAL(int, symlink, const char *, const char *); RENAME_BODY("symlink", AT_FDCWD, x, AT_FDCWD, y, real(a, b)) }

#define SIMPLE(CLS, NAME, PA, CALL) SIMPLEAT(CLS, NAME, AT_FDCWD, PA, CALL)
#define SIMPLEAT(CLS, NAME, F, PA, CALL) \
    int r; char ba[8192], ca[8192]; const char *a = map(PA, ba), *la = at(F, a, ca); \
    if (before(CLS, NAME, la, "")) return -1; \
    r = CALL; after(NAME, la, "", r); return r;

int unlink(const char *x) { REAL(int, unlink, const char *); SIMPLE("remove", "unlink", x, real(a)) }
int unlinkat(int f, const char *x, int fl) { REAL(int, unlinkat, int, const char *, int); SIMPLEAT("remove", "unlinkat", f, x, real(f, a, fl)) }
int remove(const char *x) { REAL(int, remove, const char *); SIMPLE("remove", "remove", x, real(a)) }
int rmdir(const char *x) { REAL(int, rmdir, const char *); SIMPLE("remove", "rmdir", x, real(a)) }
int mkdir(const char *x, mode_t m) { REAL(int, mkdir, const char *, mode_t); SIMPLE("create", "mkdir", x, real(a, m)) }
int chmod(const char *x, mode_t m) { REAL(int, chmod, const char *, mode_t); SIMPLE("attr", "chmod", x, real(a, m)) }
int truncate(const char *x, off_t m) { REAL(int, truncate, const char *, off_t); SIMPLE("attr", "truncate", x, real(a, m)) }
int faccessat(int f, const char *x, int m, int fl) { REAL(int, faccessat, int, const char *, int, int); SIMPLEAT("lstat", "faccessat", f, x, real(f, a, m, fl)) }
int mkdirat(int f, const char *x, mode_t m) { REAL(int, mkdirat, int, const char *, mode_t); SIMPLEAT("create", "mkdirat", f, x, real(f, a, m)) }
int access(const char *x, int m) { REAL(int, access, const char *, int); SIMPLE("lstat", "access", x, real(a, m)) }

#define STATBODY(NAME, PA, CALL) STATBODYAT(NAME, AT_FDCWD, PA, CALL)
#define STATBODYAT(NAME, F, PA, CALL) \
    int r; char ba[8192], ca[8192]; const char *a = map(PA, ba), *la = at(F, a, ca); \
    if (before("lstat", NAME, la, "")) return -1; \
    r = CALL; after(NAME, la, "", r); \
    if (race_lstat && r < 0 && errno == ENOENT && ++race_count == race_n) create(NULL, la); \
    return r;

int lstat(const char *x, struct stat *s) { REAL(int, lstat, const char *, struct stat *); STATBODY("lstat", x, real(a, s)) }
int lstat64(const char *x, struct stat64 *s) { REAL(int, lstat64, const char *, struct stat64 *); STATBODY("lstat", x, real(a, s)) }
int stat(const char *x, struct stat *s) { REAL(int, stat, const char *, struct stat *); STATBODY("stat", x, real(a, s)) }
int stat64(const char *x, struct stat64 *s) { REAL(int, stat64, const char *, struct stat64 *); STATBODY("stat", x, real(a, s)) }
int fstatat(int f, const char *x, struct stat *s, int fl) { REAL(int, fstatat, int, const char *, struct stat *, int); STATBODYAT("fstatat", f, x, real(f, a, s, fl)) }
int statx(int f, const char *restrict x, int fl, unsigned m, struct statx *restrict s) { REAL(int, statx, int, const char *, int, unsigned, struct statx *); STATBODYAT("statxstat", f, x, real(f, a, fl, m, s)) }
int fstatat64(int f, const char *x, struct stat64 *s, int fl) { REAL(int, fstatat64, int, const char *, struct stat64 *, int); STATBODYAT("fstatat", f, x, real(f, a, s, fl)) }

FILE *fopen(const char *x, const char *m)
{
    REAL(FILE *, fopen, const char *, const char *);
    char ba[8192]; const char *a = map(x, ba); FILE *f;
    if (before("fopen", "fopen", a, m)) return NULL;
    f = real(a, m);
    after("fopen", a, m, f ? 0 : -1);
    return f;
}
FILE *fopen64(const char *x, const char *m)
{
    REAL(FILE *, fopen64, const char *, const char *);
    char ba[8192]; const char *a = map(x, ba); FILE *f;
    if (before("fopen", "fopen", a, m)) return NULL;
    f = real(a, m);
    after("fopen", a, m, f ? 0 : -1);
    return f;
}
#define OPENBODY(F, CALL) \
    char ba[8192], ca[8192]; const char *a = map(x, ba), *la = at(F, a, ca); int r; mode_t m = 0; \
    const char *cls = fl & O_DIRECTORY ? "opendir" : "fopen"; \
    if (fl & O_CREAT) { va_list v; va_start(v, fl); m = va_arg(v, mode_t); va_end(v); } \
    if (before(cls, fl & O_DIRECTORY ? cls : "open", la, "")) return -1; \
    r = CALL; after((fl & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR)) ? "open-w" : fl & O_DIRECTORY ? "opendir" : "open", la, "", r < 0 ? -1 : 0); return r;
int open(const char *x, int fl, ...) { REAL(int, open, const char *, int, ...); OPENBODY(AT_FDCWD, real(a, fl, m)) }
int open64(const char *x, int fl, ...) { REAL(int, open64, const char *, int, ...); OPENBODY(AT_FDCWD, real(a, fl, m)) }
int openat64(int f, const char *x, int fl, ...) { REAL(int, openat64, int, const char *, int, ...); OPENBODY(f, real(f, a, fl, m)) }
int openat(int f, const char *x, int fl, ...) { REAL(int, openat, int, const char *, int, ...); OPENBODY(f, real(f, a, fl, m)) }

static void opened(DIR *d, const char *a)
{
    struct mondir *m;
    if (dirflags) {
        in_mon = 1;
        m = __libc_calloc(1, sizeof *m);
        in_mon = 0;
        m->d = d;
        snprintf(m->path, sizeof m->path, "%s", a);
        m->next = dirs;
        dirs = m;
        if (strchr(dirflags, 's')) {
            REAL(struct dirent *, readdir, DIR *);
            struct dirent *e;
            unsigned seed = atoi(strchr(dirflags, 's') + 1);
            int i;
            in_mon = 1;
            while ((e = real(d))) {
                m->list = __libc_realloc(m->list, (m->n + 1) * sizeof *e);
                memcpy(&m->list[m->n], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e);
                m->n++;
            }
            in_mon = 0;
            for (i = m->n - 1; i > 0; i--) {
                struct dirent t;
                int j;
                seed = seed * 1103515245 + 12345;
                j = (seed >> 8) % (i + 1);
                t = m->list[i]; m->list[i] = m->list[j]; m->list[j] = t;
            }
        }
    }
}

DIR *opendir(const char *x)
{
    REAL(DIR *, opendir, const char *);
    char ba[8192]; const char *a = map(x, ba); DIR *d;
    if (before("opendir", "opendir", a, "")) return NULL;
    d = real(a);
    after("opendir", a, "", d ? 0 : -1);
    if (d) opened(d, a);
    return d;
}

DIR *fdopendir(int f)
{
    REAL(DIR *, fdopendir, int);
    char ba[8192]; const char *a = at(f, "", ba); DIR *d;
    int fl = syscall(SYS_fcntl, f, F_GETFL);
    if (fl < 0 || !(fl & O_DIRECTORY)) {        /* otherwise noted when it was opened */
        if (before("opendir", "opendir", a, "")) return NULL;
        d = real(f);
        after("opendir", a, "", d ? 0 : -1);
    } else d = real(f);
    if (d) opened(d, a);
    return d;
}

struct dirent *readdir(DIR *d)
{
    REAL(struct dirent *, readdir, DIR *);
    struct mondir *m;
    struct dirent *e;
    int saved = errno;
    static struct dirent give;
    if (before("readdir", "readdir", "", "")) return NULL;
    for (m = dirs; m && m->d != d; m = m->next);
    e = real(d);
    if (e) { after("readdir", e->d_name, "", 0); }
    else if (m && m->pos < m->n) {
        give = m->list[m->pos++];
        e = &give;
        errno = saved;
        after("readdir", e->d_name, "", 0);
    } else after("readdir", "", "", 0);
    if (e && dirflags && strchr(dirflags, 'u')) e->d_type = DT_UNKNOWN;
    return e;
}
struct dirent64 *readdir64(DIR *d) { return (struct dirent64 *) readdir(d); }

int closedir(DIR *d)
{
    REAL(int, closedir, DIR *);
    struct mondir **p, *m;
    int r, fail = before("closedir", "closedir", "", "");
    for (p = &dirs; (m = *p); p = &m->next) {
        if (m->d == d) { *p = m->next; in_mon = 1; __libc_free(m->list); __libc_free(m); in_mon = 0; break; }
    }
    r = real(d);
    if (fail) { errno = fail_errno; return -1; }
    after("closedir", "", "", r);
    return r;
}

/* renames made without the C library's wrappers */
long syscall(long n, ...)
{
    static long (*real)(long, ...);
    long a[6], r; int i; va_list v;
    if (!real) real = dlsym(RTLD_NEXT, "syscall");
    va_start(v, n);
    for (i = 0; i < 6; i++) a[i] = va_arg(v, long);
    va_end(v);
    if (ready && !in_mon && (n == SYS_renameat2 || n == SYS_renameat || n == SYS_rename)) {
        void *ra = __builtin_return_address(0);
        if ((uintptr_t) ra >= exe_lo && (uintptr_t) ra < exe_hi) {
            const char *x = (const char *) (n == SYS_rename ? a[0] : a[1]), *y = (const char *) (n == SYS_rename ? a[1] : a[3]);
            if (before("rename", "sys_rename", x, y)) return -1;
            race_before_rename(x, y);
            r = real(n, a[0], a[1], a[2], a[3], a[4], a[5]);
            after("sys_rename", x, y, r);
            if (r == 0) note_rename(x, y);
            return r;
        }
    }
    return real(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}
