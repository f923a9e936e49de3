/* Preloaded into the code under test: answers name lookups from a table, gives each address a behaviour, sends every
   connection to a local server instead, and logs what was asked for. It observes and injects; it judges nothing.

   AM_TABLE, read at every call: "host NAME ADDR..." | "addr ADDR KIND MS" (KIND ok, slow, refuse, late, hang) | "lookup MS" | "hold NAME" | "server4 PORT" | "server6 PORT"
   AM_LOG, appended: "G name" lookup, "C id addr port" attempt, "E id errno localport" its end.
   AM_GEN, a mapped counter: a hanging connect, or the lookup of a held name, ends once it changes.
   A limit the code puts on a connect passes a hundred times faster. */
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <time.h>
#include <unistd.h>

static volatile long counter;

static void note(const char *format, ...) {
    const char *path = getenv("AM_LOG");
    if (!path) return;
    char line[1400];
    va_list ap;
    va_start(ap, format);
    int n = vsnprintf(line, sizeof line, format, ap);
    va_end(ap);
    if (n >= (int)sizeof line) n = sizeof line - 1;
    int fd = open(path, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0600);
    if (fd < 0) return;
    if (write(fd, line, n) < 0) {}
    close(fd);
}

static char *table(void) {
    const char *path = getenv("AM_TABLE");
    int fd = path ? open(path, O_RDONLY | O_CLOEXEC) : -1;
    if (fd < 0) return NULL;
    size_t cap = 1 << 16, n = 0;
    char *text = malloc(cap + 1);
    for (ssize_t r; (r = read(fd, text + n, cap - n)) > 0; n += r) {}
    close(fd);
    text[n] = 0;
    return text;
}

static volatile unsigned long *generation(void) {
    static volatile unsigned long *page;
    static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
    pthread_mutex_lock(&lock);
    if (!page) {
        const char *path = getenv("AM_GEN");
        int fd = path ? open(path, O_RDONLY | O_CLOEXEC) : -1;
        if (fd >= 0) {
            void *p = mmap(NULL, 4096, PROT_READ, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) page = p;
            close(fd);
        }
    }
    pthread_mutex_unlock(&lock);
    return page;
}

static struct addrinfo *node(const char *addr, unsigned short port, const struct addrinfo *hints) {
    struct addrinfo *a = calloc(1, sizeof *a + sizeof(struct sockaddr_in6));
    struct sockaddr_in *v4 = (void *)(a + 1);
    struct sockaddr_in6 *v6 = (void *)(a + 1);
    a->ai_addr = (void *)(a + 1);
    a->ai_socktype = hints && hints->ai_socktype ? hints->ai_socktype : SOCK_STREAM;
    a->ai_protocol = IPPROTO_TCP;
    if (inet_pton(AF_INET, addr, &v4->sin_addr) == 1) {
        a->ai_family = v4->sin_family = AF_INET;
        v4->sin_port = htons(port);
        a->ai_addrlen = sizeof *v4;
    } else if (inet_pton(AF_INET6, addr, &v6->sin6_addr) == 1) {
        a->ai_family = v6->sin6_family = AF_INET6;
        v6->sin6_port = htons(port);
        a->ai_addrlen = sizeof *v6;
    } else {
        free(a);
        return NULL;
    }
    return a;
}

int getaddrinfo(const char *name, const char *service, const struct addrinfo *hints, struct addrinfo **out) {
    note("G %s\n", name ? name : "(null)");
    *out = NULL;
    if (!name) return EAI_NONAME;
    unsigned short port = service ? atoi(service) : 0;
    struct addrinfo *self = node(name, port, hints);
    if (self) {
        *out = self;
        return 0;
    }
    char *text = table(), *save = NULL;
    struct addrinfo **tail = out;
    if (text) {
        for (char *line = strtok_r(text, "\n", &save); line; line = strtok_r(NULL, "\n", &save)) {
            char *rest = NULL, *word = strtok_r(line, " ", &rest);
            if (word && !strcmp(word, "lookup") && (word = strtok_r(NULL, " ", &rest))) usleep(atoi(word) * 1000);
            if (word && !strcmp(word, "hold") && (word = strtok_r(NULL, " ", &rest)) && !strcasecmp(word, name)) {
                volatile unsigned long *gen = generation();
                unsigned long before = gen ? *gen : 0;
                while (gen && *gen == before) usleep(2000);
                continue;
            }
            if (!word || strcmp(word, "host")) continue;
            word = strtok_r(NULL, " ", &rest);
            if (!word || strcasecmp(word, name)) continue;
            while ((word = strtok_r(NULL, " ", &rest)))
                if ((*tail = node(word, port, hints))) tail = &(*tail)->ai_next;
        }
        free(text);
    }
    return *out ? 0 : EAI_NONAME;
}

/* A connect that was asked not to wait, until it is polled to its end. */
struct pending {
    int used, six, ms, error, server4, server6;
    long id;
    char kind[16];
    struct timespec since;
    unsigned long before;
};
static struct pending *waiting[65536];
static int (*real_connect)(int, const struct sockaddr *, socklen_t);

static long elapsed(const struct timespec *since) {
    struct timespec now;
    clock_gettime(CLOCK_MONOTONIC, &now);
    return (now.tv_sec - since->tv_sec) * 1000 + (now.tv_nsec - since->tv_nsec) / 1000000;
}

/* Whether the address has answered by now. */
static int ripe(const struct pending *p) {
    if (!strcmp(p->kind, "hang")) {
        volatile unsigned long *gen = generation();
        return !gen || *gen != p->before;
    }
    return elapsed(&p->since) >= p->ms;
}

/* The end of a connect whose address has answered. */
static int conclude(int fd, const struct pending *p) {
    int result = -1, error = 0, local = 0;
    if (!strcmp(p->kind, "hang")) error = ETIMEDOUT;
    else if (!strcmp(p->kind, "refuse")) error = ECONNREFUSED;
    else if (!strcmp(p->kind, "late")) error = EHOSTUNREACH;
    else {
        struct sockaddr_in to4 = {.sin_family = AF_INET, .sin_port = htons(p->server4), .sin_addr = {htonl(INADDR_LOOPBACK)}};
        struct sockaddr_in6 to6 = {.sin6_family = AF_INET6, .sin6_port = htons(p->server6), .sin6_addr = IN6ADDR_LOOPBACK_INIT};
        int flags = fcntl(fd, F_GETFL);
        fcntl(fd, F_SETFL, flags & ~O_NONBLOCK);
        result = p->six ? real_connect(fd, (void *)&to6, sizeof to6) : real_connect(fd, (void *)&to4, sizeof to4);
        if (result) error = errno;
        fcntl(fd, F_SETFL, flags);
        struct sockaddr_in6 mine;
        socklen_t n = sizeof mine;
        if (!getsockname(fd, (void *)&mine, &n)) local = ntohs(mine.sin6_port);
    }
    note("E %ld %d %d\n", p->id, error, local);
    errno = error;
    return result;
}

int connect(int fd, const struct sockaddr *sa, socklen_t len) {
    if (!real_connect) real_connect = dlsym(RTLD_NEXT, "connect");
    if (sa->sa_family != AF_INET && sa->sa_family != AF_INET6) return real_connect(fd, sa, len);
    struct pending p = {.used = 1, .kind = "ok", .id = __sync_add_and_fetch(&counter, 1), .six = sa->sa_family == AF_INET6};
    volatile unsigned long *gen = generation();
    p.before = gen ? *gen : 0;
    clock_gettime(CLOCK_MONOTONIC, &p.since);
    char addr[64] = "";
    const struct sockaddr_in *v4 = (void *)sa;
    const struct sockaddr_in6 *v6 = (void *)sa;
    inet_ntop(sa->sa_family, p.six ? (void *)&v6->sin6_addr : (void *)&v4->sin_addr, addr, sizeof addr);
    note("C %ld %s %d\n", p.id, addr, ntohs(p.six ? v6->sin6_port : v4->sin_port));
    char *text = table(), *save = NULL;
    if (text) {
        for (char *line = strtok_r(text, "\n", &save); line; line = strtok_r(NULL, "\n", &save)) {
            char name[128], k[16];
            int m = 0, port;
            if (sscanf(line, "server4 %d", &port) == 1) p.server4 = port;
            else if (sscanf(line, "server6 %d", &port) == 1) p.server6 = port;
            else if (sscanf(line, "addr %127s %15s %d", name, k, &m) >= 2 && !strcmp(name, addr)) {
                strcpy(p.kind, k);
                p.ms = m;
            }
        }
        free(text);
    }
    if ((fcntl(fd, F_GETFL) & O_NONBLOCK) && fd >= 0 && fd < 65536) {
        struct pending *copy = malloc(sizeof p);
        *copy = p;
        waiting[fd] = copy;
        errno = EINPROGRESS;
        return -1;
    }
    if (!strcmp(p.kind, "hang")) while (!ripe(&p)) usleep(10000);
    else if (p.ms) usleep(p.ms * 1000);
    return conclude(fd, &p);
}

/* Of a connect under way, a limit on the waiting passes a hundred times faster. */
int poll(struct pollfd *fds, nfds_t n, int ms) {
    static int (*real)(struct pollfd *, nfds_t, int);
    if (!real) real = dlsym(RTLD_NEXT, "poll");
    struct pending *p = n == 1 && fds->fd >= 0 && fds->fd < 65536 ? waiting[fds->fd] : NULL;
    if (!p || !p->used) return real(fds, n, ms);
    struct timespec since;
    clock_gettime(CLOCK_MONOTONIC, &since);
    while (!ripe(p)) {
        if (ms >= 0 && elapsed(&since) >= (ms + 99) / 100) return 0;
        usleep(1000);
    }
    p->error = conclude(fds->fd, p) ? errno : 0;
    p->used = 0;
    fds->revents = POLLOUT | (p->error ? POLLERR | POLLHUP : 0);
    return 1;
}

int getsockopt(int fd, int level, int name, void *value, socklen_t *size) {
    static int (*real)(int, int, int, void *, socklen_t *);
    if (!real) real = dlsym(RTLD_NEXT, "getsockopt");
    if (level == SOL_SOCKET && name == SO_ERROR && fd >= 0 && fd < 65536 && waiting[fd] && !waiting[fd]->used && waiting[fd]->error && *size >= sizeof(int)) {
        *(int *)value = waiting[fd]->error;
        waiting[fd]->error = 0;
        return 0;
    }
    return real(fd, level, name, value, size);
}

int close(int fd) {
    static int (*real)(int);
    if (!real) real = dlsym(RTLD_NEXT, "close");
    if (fd >= 0 && fd < 65536 && waiting[fd]) {
        free(waiting[fd]);
        waiting[fd] = NULL;
    }
    return real(fd);
}
