/* Preloaded shim: counts the system calls that change files whose name contains
   ".prgdb" and, when armed, kills the process or lets calls fail at a chosen one. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <sys/types.h>
#include <unistd.h>

static long counter, target = -1, failing;
static int mode; /* 0 kill before the call, 1 kill in the middle of a write, 2 this call fails, 3 this and all further calls fail, 4 kill after the call */

void shim_arm(long n, int m) { counter = 0; target = n; mode = m; failing = 0; }
long shim_count(void) { return counter; }
long shim_hits(void) { return failing; }

static int tracked_name(const char *p) { return p && strstr(p, ".prgdb") != NULL; }

static int tracked(int fd)
{
    char link[64], name[4096];
    ssize_t n;
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    n = readlink(link, name, sizeof name - 1);
    if (n <= 0) return 0;
    name[n] = 0;
    return tracked_name(name);
}

static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }

/* 0: go on, 1: fail, 2: die in the middle, 3: die afterwards */
static int step(void)
{
    counter++;
    if (target < 0) return 0;
    if (counter == target) {
        if (mode == 0) die();
        if (mode == 1) return 2;
        if (mode == 4) return 3;
        failing++;
        return 1;
    }
    if (counter > target && mode == 3) { failing++; return 1; }
    return 0;
}

#define REAL(name) static typeof(name) *real; if (!real) real = (typeof(name) *)dlsym(RTLD_NEXT, #name)

#define WRITER(name, proto, half, full)                                   \
    ssize_t name proto                                                    \
    {                                                                     \
        REAL(name);                                                       \
        if (tracked(fd)) {                                                \
            ssize_t r;                                                    \
            switch (step()) {                                             \
            case 1: errno = ENOSPC; return -1;                            \
            case 2: real half; die();                                     \
            case 3: r = real full; (void)r; die();                        \
            }                                                             \
        }                                                                 \
        return real full;                                                 \
    }

WRITER(write, (int fd, const void *buf, size_t n), (fd, buf, n / 2), (fd, buf, n))
WRITER(pwrite, (int fd, const void *buf, size_t n, off_t o), (fd, buf, n / 2, o), (fd, buf, n, o))
WRITER(pwrite64, (int fd, const void *buf, size_t n, off64_t o), (fd, buf, n / 2, o), (fd, buf, n, o))

#define OTHER(type, name, proto, cond, err, full)                         \
    type name proto                                                       \
    {                                                                     \
        REAL(name);                                                       \
        if (cond) {                                                       \
            switch (step()) {                                             \
            case 1: errno = err; return -1;                               \
            case 2: die();                                                \
            case 3: real full; die();                                     \
            }                                                             \
        }                                                                 \
        return real full;                                                 \
    }

OTHER(int, ftruncate, (int fd, off_t n), tracked(fd), EIO, (fd, n))
OTHER(int, ftruncate64, (int fd, off64_t n), tracked(fd), EIO, (fd, n))
OTHER(int, fsync, (int fd), tracked(fd), EIO, (fd))
OTHER(int, fdatasync, (int fd), tracked(fd), EIO, (fd))
OTHER(int, unlink, (const char *p), tracked_name(p), EACCES, (p))
