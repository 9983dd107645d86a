#include "seams.h"
#include <linux/futex.h>
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <string>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

namespace seams {
bool active = false;
std::vector<Fault> faults;
uint64_t io_events = 0;
uint64_t op_count[K_N];
uint64_t sim_ns = 1600000000ull * 1000000000ull;
int64_t sim_step = 1000;
long sim_pages = 2097152;
uint64_t rng_state = 1;
uint64_t clock_calls = 0;
bool sys_full = false;
long quota = -1;
bool split_reads = false;
void (*env_hook)(const std::vector<std::string> &) = nullptr;
char *log_base = nullptr;
size_t log_cap = 0;
size_t *log_len = nullptr;
bool log_io = true;
bool par = false;
std::vector<int> schedule;
size_t sched_pos = 0;
uint64_t sched_switches = 0, sched_points = 0;

static std::string root;   // absolute path of the scratch folder, with a trailing slash
static const int MAXFD = 4096;
struct FdInfo { bool sim; bool w; bool eof; char path[120]; };
static FdInfo fdi[MAXFD];
static __thread int guard = 0;
static const char *KN[] = {"open_r", "open_w", "read", "write", "close", "stat", "any"};

struct Guard { Guard() { guard++; } ~Guard() { guard--; } };

static int log_thread();   // the simulated thread that logs, -1 outside threads
void logf(const char *fmt, ...) {
    if (!log_base) return;
    va_list ap;
    va_start(ap, fmt);
    char *buf = log_base + *log_len;
    size_t room = log_cap - *log_len;
    if (room < 16) return;
    int k = log_thread();
    int n = k >= 0 ? snprintf(buf, room, "@%d ", k) : 0;
    n += vsnprintf(buf + n, room - n, fmt, ap);
    va_end(ap);
    if (n < 0 || (size_t)n + 1 >= room) return;
    *log_len += n;
    log_base[(*log_len)++] = '\n';
}

void set_root(const std::string &r) { root = r; if (root.empty() || root.back() != '/') root += '/'; }

// The name of a simulated file, relative to the scratch folder, or null for any other path.
static const char *simpath(const char *p) {
    if (!p) return nullptr;
    if (p[0] != '/') return p;
    if (strncmp(p, root.c_str(), root.size()) == 0) return p + root.size();
    return nullptr;
}
static bool on() { return active && guard == 0; }

static int errno_of(const std::string &s) {
    static const std::map<std::string, int> m = {{"EIO", EIO}, {"ENOENT", ENOENT}, {"EACCES", EACCES}, {"EMFILE", EMFILE},
        {"ENFILE", ENFILE}, {"ENOSPC", ENOSPC}, {"EINTR", EINTR}, {"ESTALE", ESTALE}, {"EDQUOT", EDQUOT}, {"EROFS", EROFS},
        {"EISDIR", EISDIR}, {"ELOOP", ELOOP}, {"ENOMEM", ENOMEM}};
    auto i = m.find(s);
    return i == m.end() ? 0 : i->second;
}

// Counts the call and says which fault, if any, happens at it.
static Fault *hit(Kind k, const char *path) {
    io_events++;
    op_count[k]++;
    op_count[K_ANY]++;
    sched_point(KN[k]);
    Fault *res = nullptr;
    for (size_t i = 0; i < faults.size(); i++) {
        Fault &f = faults[i];
        if (f.kind != k && f.kind != K_ANY) continue;
        if (!f.path.empty() && (!path || f.path != path)) continue;
        uint64_t n = op_count[f.kind];
        bool now = (n == (uint64_t)f.nth) || (f.sticky && n > (uint64_t)f.nth);
        if (!now) continue;
        if (f.fired && !f.sticky) continue;
        if (!f.fired) logf("F %s %d %s %ld %s", KN[f.kind], f.nth, f.action.c_str(), f.arg, path ? path : "-");
        f.fired = true;
        if (f.action == "env") {
            Guard g;
            bool a = active;
            active = false;
            if (env_hook) env_hook(f.env);
            active = a;
            continue;
        }
        if (f.action == "crash" && k != K_WRITE) { logf("CRASH"); _exit(77); }
        if (f.action == "jump") { sim_ns += (uint64_t)f.arg; continue; }
        res = &f;
    }
    return res;
}

void op_begin() { memset(op_count, 0, sizeof op_count); }

template <class T> static T real(const char *n) { return (T)dlsym(RTLD_NEXT, n); }
#define REAL(ret, name, ...) static ret (*f_##name)(__VA_ARGS__) = nullptr; if (!f_##name) f_##name = real<ret (*)(__VA_ARGS__)>(#name)

static int raw_open(const char *p, int fl, mode_t m) { return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m); }
static ssize_t raw_read(int fd, void *b, size_t n) { return syscall(SYS_read, fd, b, n); }
static ssize_t raw_write(int fd, const void *b, size_t n) { return syscall(SYS_write, fd, b, n); }

static int sim_open(const char *p, int fl, mode_t m) {
    const char *sp = simpath(p);
    bool w = (fl & O_ACCMODE) != O_RDONLY;
    Fault *f = hit(w ? K_OPEN_W : K_OPEN_R, sp);
    int e = f ? errno_of(f->action) : 0;
    if (e) { if (log_io) logf("IO %s %s -> -%d", w ? "open_w" : "open_r", sp, e); errno = e; return -1; }
    int fd = raw_open(p, fl, m);
    int se = errno;
    if (fd >= 0 && fd < MAXFD) {
        fdi[fd].sim = true; fdi[fd].w = w; fdi[fd].eof = false;
        snprintf(fdi[fd].path, sizeof fdi[fd].path, "%s", sp);
    }
    if (log_io) logf("IO %s %s -> %s", w ? "open_w" : "open_r", sp, fd >= 0 ? "ok" : strerrorname_np(se));
    errno = se;
    return fd;
}

static ssize_t sim_read(int fd, void *b, size_t n, long off) {
    FdInfo &d = fdi[fd];
    Fault *f = hit(K_READ, d.path);
    if (f) {
        int e = errno_of(f->action);
        if (e) { errno = e; return -1; }
        if (f->action == "eof") { d.eof = true; }
        if (f->action == "short" && n > 1) n = (f->arg > 0 && (size_t)f->arg < n) ? (size_t)f->arg : 1;
    }
    if (d.eof) return 0;
    if (split_reads && n > 13) n = 13;
    ssize_t r = off >= 0 ? (ssize_t)syscall(SYS_pread64, fd, b, n, off) : raw_read(fd, b, n);
    if (f && f->action == "flip" && r > 0) ((unsigned char *)b)[(size_t)f->arg % r] ^= 0x40;
    return r;
}

static ssize_t sim_write1(int fd, const void *b, size_t n, long off) {
    FdInfo &d = fdi[fd];
    Fault *f = hit(K_WRITE, d.path);
    size_t lim = n;
    int e = 0;
    bool crash = false;
    if (f) {
        e = errno_of(f->action);
        if (e) { lim = 0; if (f->arg > 0) lim = std::min(n, (size_t)f->arg); if (lim > 0) { e = 0; } if (f->action == "ENOSPC") sys_full = true; }
        if (f->action == "short" && n > 1) lim = std::max<size_t>(1, n / 2);
        if (f->action == "crash") { crash = true; lim = f->arg < 0 ? 0 : std::min(n, (size_t)f->arg); }
    } else if (sys_full) { e = ENOSPC; lim = 0; }
    if (!e && quota >= 0) {
        if ((long)lim > quota) lim = quota;
        if (lim == 0 && n > 0) { e = ENOSPC; }
    }
    if (e) { if (log_io) logf("IO write %s -> -%d", d.path, e); errno = e; return -1; }
    ssize_t r = lim == 0 && n > 0 ? 0 : (off >= 0 ? (ssize_t)syscall(SYS_pwrite64, fd, b, lim, off) : raw_write(fd, b, lim));
    if (crash) { logf("CRASH"); _exit(77); }
    if (r > 0 && quota >= 0) quota -= r;
    return r;
}

// A write is done in steps, each of which can fail, run out of space or be the last one before a crash.
static ssize_t sim_write(int fd, const void *b, size_t n, long off) {
    const size_t STEP = 64;
    size_t done = 0;
    while (true) {
        size_t m = std::min(STEP, n - done);
        ssize_t r = sim_write1(fd, (const char *)b + done, m, off >= 0 ? off + (long)done : -1);
        if (r < 0) return done > 0 ? (ssize_t)done : -1;
        done += (size_t)r;
        if ((size_t)r < m || done >= n) return (ssize_t)done;
    }
}

static int sim_close(int fd) {
    FdInfo &d = fdi[fd];
    Fault *f = hit(K_CLOSE, d.path);
    d.sim = false;
    if (log_io && d.w) logf("IO close_w %s", d.path);
    int r = (int)syscall(SYS_close, fd);
    int e = f ? errno_of(f->action) : 0;
    if (e) { errno = e; return -1; }
    return r;
}

static bool simfd(int fd) { return on() && fd >= 0 && fd < MAXFD && fdi[fd].sim; }

// stdio: streams on simulated files are cookie streams over the functions above, so that stdio's own
// buffering and error handling stay real.
struct Cookie { int fd; };
static std::map<FILE *, int> *cookies = nullptr;
static pthread_mutex_t cookie_mx = PTHREAD_MUTEX_INITIALIZER;

static ssize_t ck_read(void *c, char *b, size_t n) { int fd = ((Cookie *)c)->fd; return on() && fdi[fd].sim ? sim_read(fd, b, n, -1) : raw_read(fd, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) {
    int fd = ((Cookie *)c)->fd;
    // Like the streams of the C library: goes on after a short write, until there is an error.
    size_t done = 0;
    while (done < n) {
        ssize_t r = on() && fdi[fd].sim ? sim_write(fd, b + done, n - done, -1) : raw_write(fd, b + done, n - done);
        if (r <= 0) break;
        done += (size_t)r;
    }
    return (ssize_t)done;
}
static int ck_seek(void *c, off64_t *off, int wh) {
    off_t r = lseek(((Cookie *)c)->fd, *off, wh);
    if (r < 0) return -1;
    *off = r;
    return 0;
}
static int ck_close(void *c) {
    int fd = ((Cookie *)c)->fd;
    delete (Cookie *)c;
    return on() && fdi[fd].sim ? sim_close(fd) : (int)syscall(SYS_close, fd);
}

static FILE *sim_fopen(const char *p, const char *mode) {
    int fl = 0;
    bool plus = strchr(mode, '+');
    if (mode[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
    else if (mode[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    else fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    int fd = sim_open(p, fl, 0666);
    if (fd < 0) return nullptr;
    Guard g;
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE *f = fopencookie(new Cookie{fd}, mode, io);
    pthread_mutex_t *m = &cookie_mx;
    if (!cookies) cookies = new std::map<FILE *, int>;
    (*cookies)[f] = fd;
    return f;
}

// ---- deterministic threads ------------------------------------------------------------------
static int cur = -1, nthr = 0;
static __thread int me = -1;
static int log_thread() { return par ? me : -1; }
static sem_t sem[16];
static bool done_[16];
static bool blocked_[16];

static int pick(int self, bool self_ok) {
    int r[16], n = 0;
    for (int i = 0; i < nthr; i++) if (!done_[i] && (i != self || self_ok)) r[n++] = i;
    if (n == 0) return self;
    int c = sched_pos < schedule.size() ? schedule[sched_pos] : -1;
    sched_pos++;
    if (c < 0) { // no choice planned: stay with the current thread, else go round
        if (self_ok && self >= 0 && !done_[self]) return self;
        for (int k = 0; k < n; k++) if (r[k] > self) return r[k];
        return r[0];
    }
    return r[c % n];
}
static void sw(int next) {
    if (next == me) return;
    sched_switches++;
    int self = me;
    cur = next;
    guard++;
    sem_post(&sem[next]);
    if (!done_[self]) while (sem_wait(&sem[self]) != 0) {}
    guard--;
}
void sched_point(const char *) {
    if (!par || me < 0) return;
    sched_points++;
    sw(pick(me, true));
}
static void yield_blocked() {
    sched_points++;
    sw(pick(me, false));
}
struct ThrArg { int id; void (*fn)(void *); void *arg; };
static void *thr_main(void *a) {
    ThrArg *t = (ThrArg *)a;
    me = t->id;
    guard++;
    while (sem_wait(&sem[me]) != 0) {}
    guard--;
    t->fn(t->arg);
    done_[me] = true;
    int n = pick(me, false);
    if (n != me) { cur = n; sched_switches++; guard++; sem_post(&sem[n]); guard--; }
    return nullptr;
}
void par_run(std::vector<void (*)(void *)> fns, std::vector<void *> args) {
    nthr = (int)fns.size();
    std::vector<pthread_t> th(nthr);
    std::vector<ThrArg> ta(nthr);
    for (int i = 0; i < nthr; i++) { sem_init(&sem[i], 0, 0); done_[i] = false; }
    par = true;
    for (int i = 0; i < nthr; i++) { ta[i] = {i, fns[i], args[i]}; guard++; pthread_create(&th[i], nullptr, thr_main, &ta[i]); guard--; }
    int first = pick(-1, false);
    guard++;
    sem_post(&sem[first]);
    guard--;
    for (int i = 0; i < nthr; i++) pthread_join(th[i], nullptr);
    par = false;
}
}  // namespace seams

using namespace seams;

extern "C" {
int open(const char *p, int fl, ...) {
    mode_t m = 0;
    if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
    if (on() && simpath(p)) return sim_open(p, fl, m);
    return raw_open(p, fl, m);
}
int open64(const char *p, int fl, ...) {
    mode_t m = 0;
    if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
    if (on() && simpath(p)) return sim_open(p, fl | O_LARGEFILE, m);
    return raw_open(p, fl | O_LARGEFILE, m);
}
int openat(int dfd, const char *p, int fl, ...) {
    mode_t m = 0;
    if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
    if (on() && (dfd == AT_FDCWD || p[0] == '/') && simpath(p)) return sim_open(p, fl, m);
    return (int)syscall(SYS_openat, dfd, p, fl, m);
}
int openat64(int dfd, const char *p, int fl, ...) {
    mode_t m = 0;
    if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
    if (on() && (dfd == AT_FDCWD || p[0] == '/') && simpath(p)) return sim_open(p, fl, m);
    return (int)syscall(SYS_openat, dfd, p, fl, m);
}
int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
ssize_t read(int fd, void *b, size_t n) { return simfd(fd) ? sim_read(fd, b, n, -1) : raw_read(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { return simfd(fd) ? sim_write(fd, b, n, -1) : raw_write(fd, b, n); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return simfd(fd) ? sim_read(fd, b, n, o) : syscall(SYS_pread64, fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return simfd(fd) ? sim_read(fd, b, n, o) : syscall(SYS_pread64, fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return simfd(fd) ? sim_write(fd, b, n, o) : syscall(SYS_pwrite64, fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return simfd(fd) ? sim_write(fd, b, n, o) : syscall(SYS_pwrite64, fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!simfd(fd)) return syscall(SYS_writev, fd, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; i++) {
        if (!v[i].iov_len) continue;
        ssize_t r = sim_write(fd, v[i].iov_base, v[i].iov_len, -1);
        if (r < 0) return t ? t : -1;
        t += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return t;
}
int close(int fd) {
    if (simfd(fd)) return sim_close(fd);
    if (fd >= 0 && fd < MAXFD) fdi[fd].sim = false;
    return (int)syscall(SYS_close, fd);
}
FILE *fopen(const char *p, const char *m) {
    if (on() && simpath(p)) return sim_fopen(p, m);
    REAL(FILE *, fopen, const char *, const char *);
    return f_fopen(p, m);
}
FILE *fopen64(const char *p, const char *m) {
    if (on() && simpath(p)) return sim_fopen(p, m);
    REAL(FILE *, fopen64, const char *, const char *);
    return f_fopen64(p, m);
}
int fclose(FILE *f) {
    REAL(int, fclose, FILE *);
    if (cookies) { auto i = cookies->find(f); if (i != cookies->end()) cookies->erase(i); }
    return f_fclose(f);
}
int fileno(FILE *f) {
    REAL(int, fileno, FILE *);
    if (cookies) { auto i = cookies->find(f); if (i != cookies->end()) return i->second; }
    return f_fileno(f);
}

// Metadata calls.
static int stat_fault(const char *p) {
    if (!on()) return 0;
    const char *sp = simpath(p);
    if (!sp) return 0;
    Fault *f = hit(K_STAT, sp);
    return f ? errno_of(f->action) : 0;
}
char *realpath(const char *p, char *out) {
    REAL(char *, realpath, const char *, char *);
    if (int e = stat_fault(p)) { errno = e; return nullptr; }
    return f_realpath(p, out);
}
int stat(const char *p, struct stat *b) {
    if (int e = stat_fault(p)) { errno = e; return -1; }
    REAL(int, stat, const char *, struct stat *);
    return f_stat(p, b);
}
int stat64(const char *p, struct stat64 *b) {
    if (int e = stat_fault(p)) { errno = e; return -1; }
    REAL(int, stat64, const char *, struct stat64 *);
    return f_stat64(p, b);
}
int statx(int d, const char *p, int fl, unsigned m, struct statx *b) {
    __asm__ volatile("" : "+r"(p), "+r"(b));   // declared nonnull, but Rust's runtime probes with null
    if (p && p[0]) if (int e = stat_fault(p)) { errno = e; return -1; }
    return (int)syscall(SYS_statx, d, p, fl, m, b);
}
int access(const char *p, int m) {
    if (int e = stat_fault(p)) { errno = e; return -1; }
    return (int)syscall(SYS_access, p, m);
}
int rename(const char *a, const char *b) {
    if (on() && (simpath(a) || simpath(b))) {
        Fault *f = hit(K_CLOSE, simpath(b) ? simpath(b) : simpath(a));
        int e = f ? errno_of(f->action) : 0;
        if (log_io) logf("IO rename %s %s", simpath(a) ? simpath(a) : a, simpath(b) ? simpath(b) : b);
        if (e) { errno = e; return -1; }
    }
    return (int)syscall(SYS_rename, a, b);
}
int unlink(const char *p) {
    if (on() && simpath(p)) { hit(K_ANY, simpath(p)); if (log_io) logf("IO unlink %s", simpath(p)); }
    return (int)syscall(SYS_unlink, p);
}
int remove(const char *p) {
    if (on() && simpath(p)) { hit(K_ANY, simpath(p)); if (log_io) logf("IO unlink %s", simpath(p)); }
    REAL(int, remove, const char *);
    return f_remove(p);
}
int mkdir(const char *p, mode_t m) {
    if (on() && simpath(p)) { hit(K_ANY, simpath(p)); if (log_io) logf("IO mkdir %s", simpath(p)); }
    return (int)syscall(SYS_mkdir, p, m);
}
int truncate(const char *p, off_t n) {
    if (on() && simpath(p)) { hit(K_ANY, simpath(p)); if (log_io) logf("IO truncate %s", simpath(p)); }
    return (int)syscall(SYS_truncate, p, n);
}
int ftruncate(int fd, off_t n) {
    if (simfd(fd)) { hit(K_ANY, fdi[fd].path); if (log_io) logf("IO truncate %s", fdi[fd].path); }
    return (int)syscall(SYS_ftruncate, fd, n);
}

// Time, randomness, machine size.
int clock_gettime(clockid_t c, struct timespec *t) {
    if (!on()) return (int)syscall(SYS_clock_gettime, c, t);
    clock_calls++;
    sched_point("clock");
    sim_ns += (uint64_t)sim_step;
    t->tv_sec = sim_ns / 1000000000ull;
    t->tv_nsec = sim_ns % 1000000000ull;
    return 0;
}
time_t time(time_t *t) {
    if (!on()) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
    clock_calls++;
    time_t v = sim_ns / 1000000000ull;
    if (t) *t = v;
    return v;
}
int gettimeofday(struct timeval *tv, void *) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
ssize_t getrandom(void *b, size_t n, unsigned fl) {
    if (!on()) return syscall(SYS_getrandom, b, n, fl);
    unsigned char *p = (unsigned char *)b;
    for (size_t i = 0; i < n; i++) {
        rng_state += 0x9E3779B97F4A7C15ull;
        uint64_t z = rng_state;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        p[i] = (unsigned char)(z >> 56);
    }
    return n;
}
int get_nprocs(void) { return 1; }
int get_nprocs_conf(void) { return 1; }
long sysconf(int n) {
    REAL(long, sysconf, int);
    if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return 1;
    if (n == _SC_PHYS_PAGES && active) return sim_pages;
    return f_sysconf(n);
}

// Locks, in deterministic-thread mode: a thread that would block gives way instead.
int pthread_mutex_lock(pthread_mutex_t *m) {
    REAL(int, pthread_mutex_lock, pthread_mutex_t *);
    if (!par || me < 0 || guard) return f_pthread_mutex_lock(m);
    sched_point("lock");
    for (;;) {
        int r = pthread_mutex_trylock(m);
        if (r != EBUSY) return r;
        yield_blocked();
    }
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
    REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t *);
    if (!par || me < 0 || guard) return f_pthread_rwlock_rdlock(m);
    sched_point("lock");
    for (;;) {
        int r = pthread_rwlock_tryrdlock(m);
        if (r != EBUSY) return r;
        yield_blocked();
    }
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) {
    REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t *);
    if (!par || me < 0 || guard) return f_pthread_rwlock_wrlock(m);
    sched_point("lock");
    for (;;) {
        int r = pthread_rwlock_trywrlock(m);
        if (r != EBUSY) return r;
        yield_blocked();
    }
}
// Rust's locks and C++ static initialisation wait on futexes through this function.
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && par && me >= 0 && !guard) {
        int op = (int)a[1] & 127;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            if (*(volatile int *)a[0] != (int)a[2]) { errno = EAGAIN; return -1; }
            yield_blocked();      // a spurious wakeup for the caller, which looks again
            return 0;
        }
        sched_point("futex");
    }
    register long r10 __asm__("r10") = a[3];
    register long r8 __asm__("r8") = a[4];
    register long r9 __asm__("r9") = a[5];
    long r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
int sched_yield(void) {
    if (par && me >= 0 && !guard) { yield_blocked(); return 0; }
    return (int)syscall(SYS_sched_yield);
}
}
