// Preloaded into a program under test: what the system says about the moment and the machine is chosen by the
// environment variable MC_CIRC, "key=value;key=value" (see circumstances in harness/src/env.rs).
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/utsname.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>

extern char **environ;

static const char *variable(const char *name) {
    size_t n = strlen(name);
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, name, n) && (*e)[n] == '=')
            return *e + n + 1;
    return NULL;
}

static const char *get(const char *key) {
    const char *s = variable("MC_CIRC");
    size_t n = strlen(key);
    while (s && *s) {
        if (!strncmp(s, key, n) && s[n] == '=')
            return s + n + 1;
        s = strchr(s, ';');
        if (s)
            s++;
    }
    return NULL;
}

// Whatever environment variable the program asks for has the chosen value; but for what this library and the loader
// go by, and the size of the stacks of threads.
char *getenv(const char *name) {
    static char value[256];
    const char *v = get("variables");
    if (!v || !strncmp(name, "LD_", 3) || !strncmp(name, "MC_", 3) || !strcmp(name, "RUST_MIN_STACK"))
        return (char *)variable(name);
    size_t l = strcspn(v, ";");
    if (l >= sizeof value)
        l = sizeof value - 1;
    memcpy(value, v, l);
    value[l] = 0;
    return value;
}
char *secure_getenv(const char *name) {
    return getenv(name);
}

int clock_gettime(clockid_t c, struct timespec *t) {
    const char *v = get("time");
    if (v) {
        t->tv_sec = atoll(v);
        const char *n = get("nanos");
        t->tv_nsec = n ? atol(n) : 0;
        return 0;
    }
    return syscall(SYS_clock_gettime, c, t);
}
int gettimeofday(struct timeval *restrict t, void *restrict z) {
    struct timespec s;
    (void)z;
    clock_gettime(CLOCK_REALTIME, &s);
    t->tv_sec = s.tv_sec;
    t->tv_usec = s.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *t) {
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (t)
        *t = s.tv_sec;
    return s.tv_sec;
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
    const char *v = get("random");
    if (v) {
        unsigned x = atoi(v);
        for (size_t i = 0; i < n; i++)
            ((unsigned char *)b)[i] = x + i * (x >> 8);
        return n;
    }
    return syscall(SYS_getrandom, b, n, f);
}
int isatty(int fd) {
    const char *v = get("tty");
    if (v && strchr(v, '0' + fd) && strchr(v, '0' + fd) < v + strcspn(v, ";"))
        return 1;
    errno = ENOTTY;
    return 0;
}
#define NUMBER(type, name, key, call)                                                                                   \
    type name(void) {                                                                                                   \
        const char *v = get(key);                                                                                       \
        return v ? (type)atoll(v) : (type)syscall(call);                                                                \
    }
NUMBER(uid_t, getuid, "user", SYS_getuid)
NUMBER(uid_t, geteuid, "user", SYS_geteuid)
NUMBER(gid_t, getgid, "user", SYS_getgid)
NUMBER(gid_t, getegid, "user", SYS_getegid)
NUMBER(pid_t, getpid, "process", SYS_getpid)
NUMBER(pid_t, getppid, "process", SYS_getppid)
int gethostname(char *b, size_t n) {
    const char *v = get("host");
    if (!v)
        v = "host";
    size_t l = strcspn(v, ";");
    memset(b, 0, n);
    memcpy(b, v, l < n ? l : n);
    return 0;
}
int uname(struct utsname *u) {
    int r = syscall(SYS_uname, u);
    if (get("host"))
        gethostname(u->nodename, sizeof u->nodename);
    return r;
}
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) {
    const char *v = get("processors");
    if (v) {
        memset(s, 0, n);
        for (int i = 0; i < atoi(v) && (size_t)i < 8 * n; i++)
            ((unsigned char *)s)[i / 8] |= 1 << i % 8;
        return 0;
    }
    long r = syscall(SYS_sched_getaffinity, p, n, s);
    return r < 0 ? -1 : 0;
}

// Which files are looked at: each is noted in the file MC_CIRC names as "log" (a line "c PATH" if it may be created,
// else "r PATH"), and the one it names as "redirect" is taken to be the one it names as "to".
static const char *looked_at(int at, const char *path, int creates) {
    static __thread char full[2 * PATH_MAX], to[PATH_MAX];
    const char *log = get("log"), *from = get("redirect"), *dest = get("to");
    if ((!log && !from) || !path || !*path || (at != AT_FDCWD && *path != '/'))
        return path;
    size_t n = 0;
    if (*path != '/') {
        if (syscall(SYS_getcwd, full, PATH_MAX) < 0)
            return path;
        n = strlen(full);
        full[n++] = '/';
    }
    snprintf(full + n, sizeof full - n, "%s", path);
    int e = errno;
    if (log) {
        char name[PATH_MAX];
        snprintf(name, sizeof name, "%.*s", (int)strcspn(log, ";"), log);
        int fd = syscall(SYS_openat, AT_FDCWD, name, O_WRONLY | O_APPEND | O_CREAT, 0600);
        if (fd >= 0) {
            char line[2 * PATH_MAX + 4];
            int l = snprintf(line, sizeof line, "%c %s\n", creates ? 'c' : 'r', full);
            syscall(SYS_write, fd, line, l);
            syscall(SYS_close, fd);
        }
    }
    errno = e;
    if (from && dest && strcspn(from, ";") == strlen(full) && !strncmp(from, full, strlen(full))) {
        snprintf(to, sizeof to, "%.*s", (int)strcspn(dest, ";"), dest);
        return to;
    }
    return path;
}

#define MODE(f)                                                                                                         \
    mode_t mode = 0;                                                                                                    \
    if (f & (O_CREAT | O_TMPFILE)) {                                                                                    \
        va_list a;                                                                                                      \
        va_start(a, f);                                                                                                 \
        mode = va_arg(a, mode_t);                                                                                       \
        va_end(a);                                                                                                      \
    }
#define OPEN(name)                                                                                                      \
    int name(const char *p, int f, ...) {                                                                               \
        MODE(f)                                                                                                         \
        return syscall(SYS_openat, AT_FDCWD, looked_at(AT_FDCWD, p, f & O_CREAT), f, mode);                            \
    }
#define OPENAT(name)                                                                                                    \
    int name(int d, const char *p, int f, ...) {                                                                        \
        MODE(f)                                                                                                         \
        return syscall(SYS_openat, d, looked_at(d, p, f & O_CREAT), f, mode);                                          \
    }
OPEN(open)
OPEN(open64)
OPENAT(openat)
OPENAT(openat64)
#define STAT(name, type, flags)                                                                                         \
    int name(const char *p, struct type *s) {                                                                           \
        return syscall(SYS_newfstatat, AT_FDCWD, looked_at(AT_FDCWD, p, 0), s, flags);                                 \
    }
STAT(stat, stat, 0)
STAT(stat64, stat64, 0)
STAT(lstat, stat, AT_SYMLINK_NOFOLLOW)
STAT(lstat64, stat64, AT_SYMLINK_NOFOLLOW)
int fstatat(int d, const char *restrict p, struct stat *restrict s, int f) {
    return syscall(SYS_newfstatat, d, looked_at(d, p, 0), s, f);
}
int fstatat64(int d, const char *restrict p, struct stat64 *restrict s, int f) {
    return syscall(SYS_newfstatat, d, looked_at(d, p, 0), s, f);
}
int statx(int d, const char *restrict p, int f, unsigned m, struct statx *restrict s) {
    return syscall(SYS_statx, d, looked_at(d, p, 0), f, m, s);
}
int access(const char *p, int m) {
    return syscall(SYS_faccessat, AT_FDCWD, looked_at(AT_FDCWD, p, 0), m);
}
int faccessat(int d, const char *p, int m, int f) {
    (void)f;
    return syscall(SYS_faccessat, d, looked_at(d, p, 0), m);
}
DIR *opendir(const char *p) {
    int fd = syscall(SYS_openat, AT_FDCWD, looked_at(AT_FDCWD, p, 0), O_RDONLY | O_DIRECTORY | O_CLOEXEC);
    return fd < 0 ? NULL : fdopendir(fd);
}
