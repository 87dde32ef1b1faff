/* LD_PRELOAD: numbers every call that changes a file and, at a chosen one, kills the
   process or lets the call fail.
   FIO_AT=n      the n-th call (from 1)
   FIO_MODE      kill: die before it;  torn: do half of the write, then die;
                 enospc / eio: it fails with that error;  sticky: it and all later ones fail (ENOSPC);
                 short: half of the write is done, the rest fails;
                 partial: half of the write is done and that is said, without an error
   FIO_LOG       file to which every call is written: number, kind, path, "+" inside H5Fflush, H5Dclose or H5Fclose
   FIO_CLOCK=s   CLOCK_MONOTONIC advances by s seconds with every look
   FIO_STDIO     streams opened for writing take part too (their own writes and closes), and so do closes of descriptors
   FIO_SELF      only in the program of that name
   FIO_ONLY      only calls on files whose path contains this text (by the descriptor) */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

static long count, at = -1;
static int mode; /* 0 none 1 kill 2 torn 3 enospc 4 eio 5 sticky 6 short 7 partial */
static int stdio;
static int logfd = -1;
static const char *only;
static int ready;

static void init(void)
{
    if (ready) return;
    ready = 1;
    const char *a = getenv("FIO_AT"), *m = getenv("FIO_MODE"), *l = getenv("FIO_LOG");
    only = getenv("FIO_ONLY");
    const char *self = getenv("FIO_SELF");
    if (self && !strstr(program_invocation_short_name, self)) { mode = 0; return; }
    if (a) at = atol(a);
    if (m) mode = !strcmp(m, "kill") ? 1 : !strcmp(m, "torn") ? 2 : !strcmp(m, "enospc") ? 3 : !strcmp(m, "eio") ? 4 : !strcmp(m, "sticky") ? 5 : !strcmp(m, "short") ? 6 : !strcmp(m, "partial") ? 7 : 0;
    stdio = getenv("FIO_STDIO") != NULL;
    if (l) logfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND, 0600);
}

static __thread int inside;
static char fdpath[4096];

static int regular(int fd)
{
    struct stat s;
    if (fd == logfd) return 0;
    if (fstat(fd, &s) || !S_ISREG(s.st_mode)) return 0;
    char p[64];
    sprintf(p, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(p, fdpath, sizeof fdpath - 1);
    fdpath[n < 0 ? 0 : n] = 0;
    return !only || strstr(fdpath, only);
}

/* 0: go on;  1: fail with errno;  2: half */
static int hit(const char *what, const char *path)
{
    if (only && !strstr(path, only)) return 0;
    long n = __sync_add_and_fetch(&count, 1);
    if (logfd >= 0) { char b[5000]; int k = snprintf(b, sizeof b, "%ld %s %s%s\n", n, what, path, inside ? " +" : ""); if (syscall(SYS_write, logfd, b, (size_t)k) < 0) {} }
    if (at < 0 || (mode == 5 ? n < at : n != at)) return 0;
    switch (mode)
    {
    case 1: kill(getpid(), SIGKILL); for (;;) pause();
    case 2: return 2;
    case 3: case 5: errno = ENOSPC; return 1;
    case 4: errno = EIO; return 1;
    case 6: return 2;
    case 7: return 3;
    }
    return 0;
}

static void after_half(void)
{
    if (mode == 2) { kill(getpid(), SIGKILL); for (;;) pause(); }
}

ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
{
    init();
    if (regular(fd))
    {
        int h = hit("pwrite", fdpath);
        if (h == 1) return -1;
        if (h == 2) { if (n > 1) syscall(SYS_pwrite64, fd, b, n / 2, o); after_half(); errno = ENOSPC; return -1; }
        if (h == 3) return syscall(SYS_pwrite64, fd, b, n > 1 ? n / 2 : n, o);
    }
    return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }

ssize_t write(int fd, const void *b, size_t n)
{
    init();
    if (regular(fd))
    {
        int h = hit("write", fdpath);
        if (h == 1) return -1;
        if (h == 2) { if (n > 1) syscall(SYS_write, fd, b, n / 2); after_half(); errno = ENOSPC; return -1; }
        if (h == 3) return syscall(SYS_write, fd, b, n > 1 ? n / 2 : n);
    }
    return syscall(SYS_write, fd, b, n);
}

int ftruncate64(int fd, off64_t o)
{
    init();
    if (regular(fd)) { int h = hit("ftruncate", fdpath); if (h == 1 || h == 2) { after_half(); errno = mode == 4 ? EIO : ENOSPC; return -1; } }
    return syscall(SYS_ftruncate, fd, o);
}
int ftruncate(int fd, off_t o) { return ftruncate64(fd, o); }

static int do_open(int dir, const char *p, int fl, mode_t m)
{
    init();
    if ((fl & (O_CREAT | O_TRUNC)) && (fl & O_ACCMODE) != O_RDONLY)
    {
        int h = hit("open", p);
        if (h && h != 3) { after_half(); if (h == 2) errno = ENOSPC; return -1; }
    }
    return syscall(SYS_openat, dir, p, fl, m);
}
#define ARG mode_t m = 0; if (fl & O_CREAT) { va_list v; va_start(v, fl); m = va_arg(v, mode_t); va_end(v); }
int open(const char *p, int fl, ...) { ARG return do_open(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { ARG return do_open(AT_FDCWD, p, fl, m); }

int close(int fd)
{
    init();
    if (stdio && fd > 2 && regular(fd))
    {
        int fl = fcntl(fd, F_GETFL);
        int h = (fl & O_ACCMODE) == O_RDONLY ? 0 : hit("close", fdpath);
        syscall(SYS_close, fd);
        if (h == 1 || h == 2) { after_half(); errno = mode == 4 ? EIO : ENOSPC; return -1; }
        return 0;
    }
    return syscall(SYS_close, fd);
}

/* stdio closes and writes inside libc: take the streams over */
static ssize_t cwrite(void *c, const char *b, size_t n)
{
    size_t done = 0;
    /* libc goes on after an incomplete write by itself only for its own streams */
    while (done < n)
    {
        ssize_t r = write((int)(long)c, b + done, n - done);
        if (r < 0) return done ? (ssize_t)done : 0;
        done += r;
    }
    return done;
}
static int cseek(void *c, off64_t *o, int w)
{
    off64_t r = lseek((int)(long)c, *o, w);
    if (r < 0) return -1;
    *o = r;
    return 0;
}
static ssize_t cread(void *c, char *b, size_t n) { return read((int)(long)c, b, n); }
static int cclose(void *c) { return close((int)(long)c); }

static FILE *(*real_fopen)(const char *, const char *);
FILE *fopen(const char *p, const char *md)
{
    init();
    if (!real_fopen) real_fopen = dlsym(RTLD_NEXT, "fopen");
    if (!strpbrk(md, "wa+")) return real_fopen(p, md);
    if (stdio)
    {
        int rw = strchr(md, '+') ? O_RDWR : O_WRONLY;
        int fd = open(p, rw | (md[0] == 'r' ? 0 : O_CREAT) | (md[0] == 'w' ? O_TRUNC : md[0] == 'a' ? O_APPEND : 0), 0666);
        if (fd < 0) return NULL;
        cookie_io_functions_t f = {cread, cwrite, cseek, cclose};
        return fopencookie((void *)(long)fd, md, f);
    }
    int h = hit("open", p);
    if (h && h != 3) { after_half(); errno = ENOSPC; return NULL; }
    return real_fopen(p, md);
}
FILE *fopen64(const char *p, const char *md) { return fopen(p, md); }

int mkdir(const char *p, mode_t m)
{
    init();
    int h = hit("mkdir", p);
    if (h && h != 3) { after_half(); errno = mode == 4 ? EIO : ENOSPC; return -1; }
    return syscall(SYS_mkdirat, AT_FDCWD, p, m);
}

int clock_gettime(clockid_t c, struct timespec *t)
{
    static int set = -1;
    static long step, now = 1000;
    if (set < 0) { const char *s = getenv("FIO_CLOCK"); set = s != NULL; if (s) step = atol(s); }
    if (set && c == CLOCK_MONOTONIC) { now += step; t->tv_sec = now; t->tv_nsec = 0; return 0; }
    return syscall(SYS_clock_gettime, c, t);
}

/* marks of HDF5 writing its buffers out */
int H5Fflush(long id, int scope)
{
    static int (*real)(long, int);
    if (!real) real = dlsym(RTLD_NEXT, "H5Fflush");
    inside++;
    int r = real(id, scope);
    inside--;
    return r;
}
int H5Fclose(long id)
{
    static int (*real)(long);
    if (!real) real = dlsym(RTLD_NEXT, "H5Fclose");
    inside++;
    int r = real(id);
    inside--;
    return r;
}
int H5Dclose(long id)
{
    static int (*real)(long);
    if (!real) real = dlsym(RTLD_NEXT, "H5Dclose");
    inside++;
    int r = real(id);
    inside--;
    return r;
}
