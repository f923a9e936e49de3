/* Preloaded into the code under test: logs every sleep of half a second or more to AM_SLEEPS ("S seconds nanoseconds")
   and makes it last 0.3 s, so that a duration of hours is seen without waiting for it. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>

static const struct timespec *cut(const struct timespec *req, const struct timespec *from, struct timespec *small) {
    struct timespec d = *req;
    if (from) {
        d.tv_sec -= from->tv_sec;
        d.tv_nsec -= from->tv_nsec;
        if (d.tv_nsec < 0) d.tv_sec--, d.tv_nsec += 1000000000;
    }
    if (d.tv_sec == 0 && d.tv_nsec < 500000000) return NULL;
    const char *path = getenv("AM_SLEEPS");
    if (!path) return NULL;
    int fd = open(path, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0600);
    if (fd >= 0) {
        dprintf(fd, "S %lld %ld\n", (long long)d.tv_sec, d.tv_nsec);
        close(fd);
    }
    small->tv_sec = 0;
    small->tv_nsec = 300000000;
    return small;
}

int nanosleep(const struct timespec *req, struct timespec *rem) {
    static int (*real)(const struct timespec *, struct timespec *);
    if (!real) real = dlsym(RTLD_NEXT, "nanosleep");
    struct timespec s;
    const struct timespec *c = cut(req, NULL, &s);
    return real(c ? c : req, c ? NULL : rem);
}

int clock_nanosleep(clockid_t id, int flags, const struct timespec *req, struct timespec *rem) {
    static int (*real)(clockid_t, int, const struct timespec *, struct timespec *);
    if (!real) real = dlsym(RTLD_NEXT, "clock_nanosleep");
    struct timespec s, now;
    if (flags & TIMER_ABSTIME) clock_gettime(id, &now);
    const struct timespec *c = cut(req, flags & TIMER_ABSTIME ? &now : NULL, &s);
    return c ? real(CLOCK_MONOTONIC, 0, c, NULL) : real(id, flags, req, rem);
}
