/* LD_PRELOAD shim: a virtual clock for the daemon under test.
 *
 * The daemon's idea of time (clock_gettime, gettimeofday, time) is
 * base + offset, where "offset" lives in a shared file that only the driver
 * advances, and blocking waits with a timeout never expire on their own; the
 * driver advances the clock and then sends SIGURG, which makes the wait
 * return EINTR so that the event loop looks at its timers again.  Timeouts
 * thereby become explicit, deterministic stimuli. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/select.h>
#include <time.h>
#include <unistd.h>

static volatile int64_t *offset_ns;
static int64_t *writers;       /* waits begun and ended for room to write into a full socket */
static int64_t base_real, base_mono;
#define real_clock_gettime(c, t) syscall(SYS_clock_gettime, c, t)
static int (*real_poll)(struct pollfd *, nfds_t, int);
static int (*real_epoll_wait)(int, struct epoll_event *, int, int);

static void on_sig(int s) { (void)s; }

static int64_t raw(clockid_t c)
{
    struct timespec t;
    real_clock_gettime(c, &t);
    return (int64_t)t.tv_sec * 1000000000LL + t.tv_nsec;
}

__attribute__((constructor)) static void init(void)
{
    const char *p = getenv("VCLOCK_FILE");
    int fd;
    struct sigaction sa = {0};
    real_poll = dlsym(RTLD_NEXT, "poll");
    real_epoll_wait = dlsym(RTLD_NEXT, "epoll_wait");
    if (!p)
        return;
    fd = open(p, O_RDWR);
    if (fd < 0)
        return;
    void *m = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if (m == MAP_FAILED)
        return;
    base_real = raw(CLOCK_REALTIME);
    base_mono = raw(CLOCK_MONOTONIC);
    sa.sa_handler = on_sig;
    sigaction(SIGURG, &sa, NULL);
    offset_ns = m;
    writers = (int64_t *)m + 1;
}

int clock_gettime(clockid_t c, struct timespec *t)
{
    int64_t v;
    if (!offset_ns)
        return real_clock_gettime(c, t);
    switch (c) {
    case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: v = base_real; break;
    case CLOCK_MONOTONIC: case CLOCK_MONOTONIC_COARSE:
    case CLOCK_MONOTONIC_RAW: case CLOCK_BOOTTIME: v = base_mono; break;
    default: return real_clock_gettime(c, t);
    }
    v += *offset_ns;
    t->tv_sec = v / 1000000000LL;
    t->tv_nsec = v % 1000000000LL;
    return 0;
}

int gettimeofday(struct timeval *tv, void *tz)
{
    struct timespec t;
    (void)tz;
    clock_gettime(CLOCK_REALTIME, &t);
    tv->tv_sec = t.tv_sec;
    tv->tv_usec = t.tv_nsec / 1000;
    return 0;
}

time_t time(time_t *r)
{
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (r)
        *r = t.tv_sec;
    return t.tv_sec;
}

int poll(struct pollfd *f, nfds_t n, int timeout)
{
    if (!real_poll)
        real_poll = dlsym(RTLD_NEXT, "poll");
    if (offset_ns && timeout > 0)
        timeout = -1;
    int w = 0, r, e;
    if (offset_ns && timeout)
        for (nfds_t i = 0; i < n; i++)
            w |= f[i].fd >= 0 && (f[i].events & POLLOUT);
    if (!w)
        return real_poll(f, n, timeout);
    __atomic_add_fetch(writers, 1, __ATOMIC_SEQ_CST);
    r = real_poll(f, n, timeout);
    e = errno;
    __atomic_add_fetch(writers + 1, 1, __ATOMIC_SEQ_CST);
    errno = e;
    return r;
}

int epoll_wait(int e, struct epoll_event *ev, int n, int timeout)
{
    if (!real_epoll_wait)
        real_epoll_wait = dlsym(RTLD_NEXT, "epoll_wait");
    if (offset_ns && timeout > 0)
        timeout = -1;
    return real_epoll_wait(e, ev, n, timeout);
}
