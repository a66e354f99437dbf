/* LD_PRELOAD shim used by the /verif checks.
 *
 * 1. Virtual time: once vt_enable() is called every clock the process reads is a variable, and every
 *    blocking wait (sleep, select, poll, epoll_wait - also the raw syscall() form libuv uses) advances that
 *    variable instead of waiting.  An "alarm" (vt_set_alarm) calls back into Python at an exact virtual time.
 * 2. Fault injection: write-like file operations on paths below a prefix are counted, and the k-th one can
 *    kill the process (after a partial write) or fail with a given errno.
 * Before vt_enable()/fi_arm() it is a pass-through.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/select.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>

#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)
#define NS 1000000000LL

static int vt_on;
static int64_t v_real, v_mono, v_tick, v_jitter;
static int64_t alarm_at = INT64_MAX;
static void (*alarm_cb)(void);
static int64_t n_waits, n_clock;

void vt_enable(int64_t real_ns, int64_t mono_ns, int64_t tick_ns) {
    v_real = real_ns; v_mono = mono_ns; v_tick = tick_ns; vt_on = 1;
}
void vt_disable(void) { vt_on = 0; }
void vt_set_cb(void (*cb)(void)) { alarm_cb = cb; }
void vt_set_alarm(int64_t real_ns) { alarm_at = real_ns; }
void vt_set_jitter(int64_t ns) { v_jitter = ns; }
int64_t vt_real(void) { return v_real; }
int64_t vt_waits(void) { return n_waits; }
/* step the wall clock only (as NTP or the user would); the monotonic clock is unaffected */
void vt_step_wall(int64_t ns) { v_real += ns; }

static int fire_alarm(void) {           /* returns 1 if the alarm fired */
    if (v_real >= alarm_at) {
        alarm_at = INT64_MAX;
        if (alarm_cb) alarm_cb();
        return 1;
    }
    return 0;
}
/* advance by d ns, stopping at alarms; returns 1 if an alarm fired on the way (time then stops there
 * only when stop_at_alarm) */
static int advance(int64_t d, int stop_at_alarm) {
    int fired = 0;
    n_waits++;
    while (d > 0) {
        int64_t step = d;
        if (alarm_at != INT64_MAX && alarm_at - v_real < step)
            step = alarm_at > v_real ? alarm_at - v_real : 0;
        v_real += step; v_mono += step; d -= step;
        if (fire_alarm()) { fired = 1; if (stop_at_alarm) return 1; }
        else if (step == 0) break;
    }
    if (fire_alarm()) fired = 1;
    return fired;
}
void vt_advance(int64_t d) { advance(d, 0); }

static int is_wall(clockid_t id) { return id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI; }
static int is_virtual(clockid_t id) {
    return is_wall(id) || id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_MONOTONIC_COARSE
        || id == CLOCK_BOOTTIME;
}
static void tick(void) { n_clock++; v_real += v_tick; v_mono += v_tick; }

int clock_gettime(clockid_t id, struct timespec *ts) {
    if (vt_on && is_virtual(id)) {
        tick();
        int64_t t = is_wall(id) ? v_real : v_mono;
        ts->tv_sec = t / NS; ts->tv_nsec = t % NS;
        return 0;
    }
    REAL(clock_gettime);
    return real(id, ts);
}
int gettimeofday(struct timeval *tv, void *tz) {
    if (vt_on) { tick(); tv->tv_sec = v_real / NS; tv->tv_usec = (v_real % NS) / 1000; return 0; }
    REAL(gettimeofday);
    return real(tv, tz);
}
time_t time(time_t *t) {
    if (vt_on) { tick(); if (t) *t = v_real / NS; return v_real / NS; }
    REAL(time);
    return real(t);
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec *req, struct timespec *rem) {
    if (vt_on && is_virtual(id)) {
        int64_t t = req->tv_sec * NS + req->tv_nsec;
        if (flags & TIMER_ABSTIME) t -= is_wall(id) ? v_real : v_mono;
        advance(t, 0);
        return 0;
    }
    REAL(clock_nanosleep);
    return real(id, flags, req, rem);
}
int nanosleep(const struct timespec *req, struct timespec *rem) {
    if (vt_on) { advance(req->tv_sec * NS + req->tv_nsec, 0); return 0; }
    REAL(nanosleep);
    return real(req, rem);
}
int usleep(useconds_t us) {
    if (vt_on) { advance((int64_t)us * 1000, 0); return 0; }
    REAL(usleep);
    return real(us);
}
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
    REAL(select);
    if (!vt_on || (tv && tv->tv_sec == 0 && tv->tv_usec == 0)) return real(n, r, w, e, tv);
    fd_set r0, w0, e0; struct timeval z;
    if (r) r0 = *r;
    if (w) w0 = *w;
    if (e) e0 = *e;
    int64_t left = tv ? tv->tv_sec * NS + tv->tv_usec * 1000LL : INT64_MAX / 4;
    for (;;) {
        z.tv_sec = z.tv_usec = 0;
        if (r) *r = r0;
        if (w) *w = w0;
        if (e) *e = e0;
        int rc = real(n, r, w, e, &z);
        if (rc != 0 || left <= 0) return rc;
        if (!tv && alarm_at == INT64_MAX) return real(n, r, w, e, NULL);
        int64_t before = v_real;
        advance(left, 1);
        left -= v_real - before;
    }
}
int poll(struct pollfd *fds, nfds_t n, int timeout) {
    REAL(poll);
    if (!vt_on || timeout == 0) return real(fds, n, timeout);
    int64_t left = timeout < 0 ? INT64_MAX / 4 : timeout * 1000000LL;
    for (;;) {
        int rc = real(fds, n, 0);
        if (rc != 0 || left <= 0) return rc;
        if (timeout < 0 && alarm_at == INT64_MAX) return real(fds, n, -1);
        int64_t before = v_real;
        advance(left, 1);
        left -= v_real - before;
    }
}

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    if (ret < 0 && ret > -4096) { errno = (int)-ret; return -1; }
    return ret;
}
static long v_epoll(long epfd, long ev, long maxev, long timeout_ms, long sig, long sz) {
    int64_t left = timeout_ms < 0 ? INT64_MAX / 4 : timeout_ms * 1000000LL;
    int first = 1;
    for (;;) {
        long rc = raw6(SYS_epoll_pwait, epfd, ev, maxev, 0, sig, sz);
        if (rc != 0 || left <= 0) return rc;
        if (timeout_ms < 0 && alarm_at == INT64_MAX) return raw6(SYS_epoll_pwait, epfd, ev, maxev, -1, sig, sz);
        if (first && v_jitter > 0 && timeout_ms > 0) { left += v_jitter; first = 0; }
        int64_t before = v_real;
        advance(left, 1);
        left -= v_real - before;
    }
}
int epoll_wait(int epfd, struct epoll_event *ev, int maxev, int timeout) {
    if (vt_on && timeout != 0) return (int)v_epoll(epfd, (long)ev, maxev, timeout, 0, 8);
    return (int)raw6(SYS_epoll_pwait, epfd, (long)ev, maxev, timeout, 0, 8);
}
int epoll_pwait(int epfd, struct epoll_event *ev, int maxev, int timeout, const sigset_t *ss) {
    if (vt_on && timeout != 0) return (int)v_epoll(epfd, (long)ev, maxev, timeout, (long)ss, 8);
    return (int)raw6(SYS_epoll_pwait, epfd, (long)ev, maxev, timeout, (long)ss, 8);
}
long syscall(long n, ...) {
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long),
         e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (vt_on && n == SYS_epoll_wait && (int)d != 0) return v_epoll(a, b, c, (int)d, 0, 8);
    if (vt_on && n == SYS_epoll_pwait && (int)d != 0) return v_epoll(a, b, c, (int)d, e, f);
    return raw6(n, a, b, c, d, e, f);
}

/* ---------------------------------------------------------------- fault injection */
static char fi_prefix[4096];
static int fi_mode;              /* 0 count only (when armed), 1 crash, 2 errno */
static int64_t fi_at, fi_count;
static int fi_errno, fi_partial_pct, fi_armed, fi_hits, fi_repeat;

void fi_arm(const char *prefix, int mode, int64_t at, int err, int partial_pct, int repeat) {
    snprintf(fi_prefix, sizeof fi_prefix, "%s", prefix);
    fi_mode = mode; fi_at = at; fi_errno = err; fi_partial_pct = partial_pct; fi_repeat = repeat;
    fi_count = 0; fi_hits = 0; fi_armed = 1;
}
void fi_disarm(void) { fi_armed = 0; }
static int fi_was;
void fi_pause(int on) { if (on) { fi_was = fi_armed; fi_armed = 0; } else fi_armed = fi_was; }
/* freeing space never fails for lack of space */
static int fi_frees(void) { return fi_mode == 2 && fi_errno == ENOSPC; }
int64_t fi_ops(void) { return fi_count; }
int fi_hit(void) { return fi_hits; }

static int under_path(int dirfd, const char *p) {
    char buf[PATH_MAX];
    if (p[0] == '/') return strncmp(p, fi_prefix, strlen(fi_prefix)) == 0;
    if (dirfd == AT_FDCWD) { if (!getcwd(buf, sizeof buf)) return 0; }
    else {
        char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
        ssize_t k = readlink(l, buf, sizeof buf - 1); if (k < 0) return 0; buf[k] = 0;
    }
    strncat(buf, "/", sizeof buf - strlen(buf) - 1);
    strncat(buf, p, sizeof buf - strlen(buf) - 1);
    return strncmp(buf, fi_prefix, strlen(fi_prefix)) == 0;
}
static int under_fd(int fd) {
    char l[64], buf[PATH_MAX];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t k = readlink(l, buf, sizeof buf - 1); if (k < 0) return 0; buf[k] = 0;
    return strncmp(buf, fi_prefix, strlen(fi_prefix)) == 0;
}
/* 0: go on, 1: fail with errno */
static int fi_step(void) {
    fi_count++;
    int hit = fi_repeat ? fi_count >= fi_at : fi_count == fi_at;
    if (!hit || !fi_mode) return 0;
    fi_hits++;
    if (fi_mode == 1) _exit(77);
    errno = fi_errno;
    return 1;
}
/* ---------------------------------------------------------------- operation hook
 * calls back into Python before a lock is asked for and before and after each write on files below a prefix */
static char hk_prefix[4096];
static void (*hk_cb)(const char *, int);
static int hk_busy;
static int under_fd_of(int fd, const char *prefix) {
    char l[64], buf[PATH_MAX];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t k = readlink(l, buf, sizeof buf - 1); if (k < 0) return 0; buf[k] = 0;
    return strncmp(buf, prefix, strlen(prefix)) == 0;
}
void hk_set(const char *prefix, void (*cb)(const char *, int)) {
    snprintf(hk_prefix, sizeof hk_prefix, "%s", prefix); hk_cb = cb;
}
static void hook(const char *op, int fd) {
    if (!hk_cb || hk_busy || !under_fd_of(fd, hk_prefix)) return;
    int e = errno;
    hk_busy = 1; hk_cb(op, fd); hk_busy = 0;
    errno = e;
}
int flock(int fd, int op) {
    if (op & 2) hook("lock", fd);            /* LOCK_EX */
    return (int)raw6(SYS_flock, fd, op, 0, 0, 0, 0);
}
ssize_t write(int fd, const void *buf, size_t n) {
    hook("write", fd);
    if (fi_armed && under_fd(fd)) {
        int64_t next = fi_count + 1;
        int hit = fi_mode && (fi_repeat ? next >= fi_at : next == fi_at);
        if (hit) {
            size_t part = n * fi_partial_pct / 100;
            if (part) raw6(SYS_write, fd, (long)buf, part, 0, 0, 0);
        }
        if (fi_step()) return -1;
    }
    ssize_t done = raw6(SYS_write, fd, (long)buf, n, 0, 0, 0);
    hook("written", fd);
    return done;
}
#define WR(fl) (((fl) & O_ACCMODE) != O_RDONLY)
int open64(const char *p, int fl, ...) {
    va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
    if (fi_armed && WR(fl) && under_path(AT_FDCWD, p) && fi_step()) return -1;
    return (int)raw6(SYS_openat, AT_FDCWD, (long)p, fl | O_LARGEFILE, m, 0, 0);
}
int open(const char *p, int fl, ...) {
    va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
    if (fi_armed && WR(fl) && under_path(AT_FDCWD, p) && fi_step()) return -1;
    return (int)raw6(SYS_openat, AT_FDCWD, (long)p, fl, m, 0, 0);
}
int openat64(int d, const char *p, int fl, ...) {
    va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
    if (fi_armed && WR(fl) && under_path(d, p) && fi_step()) return -1;
    return (int)raw6(SYS_openat, d, (long)p, fl | O_LARGEFILE, m, 0, 0);
}
int rename(const char *a, const char *b) {
    if (fi_armed && under_path(AT_FDCWD, b) && fi_step()) return -1;
    return (int)raw6(SYS_rename, (long)a, (long)b, 0, 0, 0, 0);
}
int renameat(int da, const char *a, int db, const char *b) {
    if (fi_armed && under_path(db, b) && fi_step()) return -1;
    return (int)raw6(SYS_renameat, da, (long)a, db, (long)b, 0, 0);
}
int unlink(const char *p) {
    if (fi_armed && under_path(AT_FDCWD, p) && !fi_frees() && fi_step()) return -1;
    return (int)raw6(SYS_unlink, (long)p, 0, 0, 0, 0, 0);
}
int unlinkat(int d, const char *p, int fl) {
    if (fi_armed && under_path(d, p) && !fi_frees() && fi_step()) return -1;
    return (int)raw6(SYS_unlinkat, d, (long)p, fl, 0, 0, 0);
}
int ftruncate64(int fd, off64_t len) {
    if (fi_armed && under_fd(fd) && !fi_frees() && fi_step()) return -1;
    return (int)raw6(SYS_ftruncate, fd, len, 0, 0, 0, 0);
}
int ftruncate(int fd, off_t len) { return ftruncate64(fd, len); }
