/* Preloaded into some generator processes (C11).
 * VSHIM_SHIFT: another machine at another time.
 * VSHIM_LOG=file: notes the variables and paths the generator asks for.
 * VSHIM_PATH=p VSHIM_TO=q: accesses to p go to q. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sched.h>
#include <string.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/utsname.h>
#include <time.h>
#include <unistd.h>
#define SHIFT 86400L * 4321 + 43210

extern char **environ;
static char *own(const char *n) {
    size_t l = strlen(n);
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1;
    return 0;
}
static int on(void) { return own("VSHIM_SHIFT") != 0; }
static volatile int window;
static void note(const char *kind, const char *what) {
    if (!window || !what) return;
    const char *f = own("VSHIM_LOG");
    if (!f) return;
    int fd = syscall(SYS_openat, AT_FDCWD, f, O_WRONLY | O_CREAT | O_APPEND, 0600);
    if (fd < 0) return;
    char b[1200];
    int n = snprintf(b, sizeof b, "%s %.1000s\n", kind, what);
    if (write(fd, b, n)) {}
    syscall(SYS_close, fd);
}
char *getenv(const char *n) {
    if (!strcmp(n, "VERIF_GEN_BEGIN")) window = 1;
    else if (!strcmp(n, "VERIF_GEN_END")) window = 0;
    else note("env", n);
    return own(n);
}
static const char *path(const char *p) {
    note("path", p);
    const char *from = own("VSHIM_PATH"), *to = own("VSHIM_TO");
    return window && p && from && to && !strcmp(p, from) ? to : p;
}
#define REAL(r, n, ...) r (*real)(__VA_ARGS__) = (r (*)(__VA_ARGS__))dlsym(RTLD_NEXT, n)
#define MODE va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a)
int open(const char *p, int fl, ...) { MODE; REAL(int, "open", const char *, int, ...); return real(path(p), fl, m); }
int open64(const char *p, int fl, ...) { MODE; REAL(int, "open64", const char *, int, ...); return real(path(p), fl, m); }
int openat(int d, const char *p, int fl, ...) { MODE; REAL(int, "openat", int, const char *, int, ...); return real(d, path(p), fl, m); }
int openat64(int d, const char *p, int fl, ...) { MODE; REAL(int, "openat64", int, const char *, int, ...); return real(d, path(p), fl, m); }
int statx(int d, const char *restrict p, int fl, unsigned m, struct statx *restrict b) {
    REAL(int, "statx", int, const char *, int, unsigned, struct statx *);
    return real(d, path(p), fl, m, b);
}
int stat64(const char *restrict p, struct stat64 *restrict b) { REAL(int, "stat64", const char *, struct stat64 *); return real(path(p), b); }
int lstat64(const char *restrict p, struct stat64 *restrict b) { REAL(int, "lstat64", const char *, struct stat64 *); return real(path(p), b); }
int access(const char *p, int m) { REAL(int, "access", const char *, int); return real(path(p), m); }
int faccessat(int d, const char *p, int m, int f) { REAL(int, "faccessat", int, const char *, int, int); return real(d, path(p), m, f); }
ssize_t readlink(const char *restrict p, char *restrict b, size_t n) { REAL(ssize_t, "readlink", const char *, char *, size_t); return real(path(p), b, n); }
DIR *opendir(const char *p) { REAL(DIR *, "opendir", const char *); return real(path(p)); }

int clock_gettime(clockid_t c, struct timespec *t) {
    static int (*real)(clockid_t, struct timespec *);
    if (!real) real = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
    int r = real(c, t);
    if (on() && r == 0 && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) t->tv_sec += SHIFT;
    return r;
}
int gettimeofday(struct timeval *t, void *z) {
    struct timespec s;
    if (clock_gettime(CLOCK_REALTIME, &s)) return -1;
    t->tv_sec = s.tv_sec;
    t->tv_usec = s.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *p) {
    struct timespec s;
    if (clock_gettime(CLOCK_REALTIME, &s)) return -1;
    if (p) *p = s.tv_sec;
    return s.tv_sec;
}
pid_t getpid(void) { return on() ? 4321 : syscall(SYS_getpid); }
pid_t getppid(void) { return on() ? 4320 : syscall(SYS_getppid); }
uid_t getuid(void) { return on() ? 1234 : syscall(SYS_getuid); }
uid_t geteuid(void) { return on() ? 1234 : syscall(SYS_geteuid); }
int gethostname(char *n, size_t l) {
    if (!on()) {
        REAL(int, "gethostname", char *, size_t);
        return real(n, l);
    }
    strncpy(n, "elsewhere", l);
    return 0;
}
int uname(struct utsname *u) {
    if (!on()) return syscall(SYS_uname, u);
    memset(u, 0, sizeof *u);
    strcpy(u->sysname, "Other");
    strcpy(u->nodename, "elsewhere");
    strcpy(u->release, "9.9");
    strcpy(u->machine, "m99");
    return 0;
}
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) {
    if (!on()) {
        REAL(int, "sched_getaffinity", pid_t, size_t, cpu_set_t *);
        return real(p, n, s);
    }
    memset(s, 0, n);
    CPU_SET_S(0, n, s);
    CPU_SET_S(1, n, s);
    CPU_SET_S(2, n, s);
    return 0;
}
