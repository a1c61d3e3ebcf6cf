/* LD_PRELOAD shim: with SFOX_TTY, standard output is a terminal 200 columns wide; the wall clock shows the second given in SFOX_NOW (seconds since 1970). */
#define _GNU_SOURCE
#include <time.h>
#include <stdlib.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <sys/ioctl.h>
#include <stdarg.h>
#include <errno.h>
static long now(void) { const char *s = getenv("SFOX_NOW"); return s ? atol(s) : 0; }
int clock_gettime(clockid_t c, struct timespec *ts) {
    if ((c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) && now()) { ts->tv_sec = now(); ts->tv_nsec = 0; return 0; }
    return syscall(SYS_clock_gettime, c, ts);
}
time_t time(time_t *t) {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec;
}
int gettimeofday(struct timeval *tv, void *tz) {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = 0; return 0;
}
int isatty(int fd) {
    struct { unsigned x[15]; } t;
    if (fd == 1 && getenv("SFOX_TTY")) return 1;
    return syscall(SYS_ioctl, fd, 0x5401 /* TCGETS */, &t) == 0;
}
int ioctl(int fd, unsigned long req, ...) {
    va_list ap; va_start(ap, req); void *a = va_arg(ap, void *); va_end(ap);
    if (req == TIOCGWINSZ && fd == 1 && getenv("SFOX_TTY")) {
        struct winsize *w = a; w->ws_row = 50; w->ws_col = 200; w->ws_xpixel = w->ws_ypixel = 0; return 0;
    }
    return syscall(SYS_ioctl, fd, req, a);
}
