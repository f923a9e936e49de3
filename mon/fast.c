/* Preloaded into the code under test: its clocks run AM_SPEED times faster from its start on, so that an exchange of
   milliseconds is, to the code, one of seconds or hours. Nothing waits longer or shorter for it. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <time.h>

static int (*real)(clockid_t, struct timespec *);
static struct timespec base[2];
static long speed = 1;

__attribute__((constructor)) static void begin(void) {
    const char *s = getenv("AM_SPEED");
    real = dlsym(RTLD_NEXT, "clock_gettime");
    real(CLOCK_REALTIME, &base[0]);
    real(CLOCK_MONOTONIC, &base[1]);
    if (s && atol(s) > 0) speed = atol(s);
}

int clock_gettime(clockid_t id, struct timespec *t) {
    if (!real) real = dlsym(RTLD_NEXT, "clock_gettime");
    int r = real(id, t);
    if (r || (id != CLOCK_REALTIME && id != CLOCK_MONOTONIC) || !base[0].tv_sec) return r;
    const struct timespec *b = &base[id == CLOCK_MONOTONIC];
    __int128 ns = ((__int128)(t->tv_sec - b->tv_sec) * 1000000000 + (t->tv_nsec - b->tv_nsec)) * speed + (__int128)b->tv_sec * 1000000000 + b->tv_nsec;
    t->tv_sec = ns / 1000000000;
    t->tv_nsec = ns % 1000000000;
    return 0;
}
