/* Preloaded into the code under test: every timeout it sets on a socket or a poll passes a hundred times faster, so that a
   server that takes half a second is, to a limit written in the code, one that takes the better part of a minute. Without limits it changes nothing. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <poll.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/time.h>

#define FASTER 100

int setsockopt(int fd, int level, int name, const void *value, socklen_t size) {
    static int (*real)(int, int, int, const void *, socklen_t);
    if (!real) real = dlsym(RTLD_NEXT, "setsockopt");
    struct timeval t;
    if (level == SOL_SOCKET && (name == SO_RCVTIMEO || name == SO_SNDTIMEO) && size == sizeof t) {
        memcpy(&t, value, sizeof t);
        long long us = t.tv_sec * 1000000LL + t.tv_usec;
        if (us > 0) {
            us = us / FASTER ? us / FASTER : 1;
            t.tv_sec = us / 1000000;
            t.tv_usec = us % 1000000;
            return real(fd, level, name, &t, sizeof t);
        }
    }
    return real(fd, level, name, value, size);
}

int poll(struct pollfd *fds, nfds_t n, int ms) {
    static int (*real)(struct pollfd *, nfds_t, int);
    if (!real) real = dlsym(RTLD_NEXT, "poll");
    return real(fds, n, ms > 0 ? (ms + FASTER - 1) / FASTER : ms);
}
