/* The file system seam of the translation generator: preloaded into cmake, it numbers every operation on files below
 * FS_DIR and lets one of them fail, fall short, or be the last one the process makes.
 * FS_PLAN="<index> <kind> <arg>", FS_LOG: file that gets one line per operation. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static const char* g_dir;
static long g_index = -1, g_arg, g_n;
static char g_kind[16];
static int g_log = -1;
static char g_mine[1024];

static void init(void)
{
    static int done;
    if (done) return;
    done = 1;
    g_dir = getenv("FS_DIR");
    const char* p = getenv("FS_PLAN");
    if (p) sscanf(p, "%ld %15s %ld", &g_index, g_kind, &g_arg);
    const char* l = getenv("FS_LOG");
    if (l) g_log = (int)syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND, 0600);
}
static const char* tail(const char* p)
{
    const char* s = strrchr(p, '/');
    return s ? s + 1 : p;
}
static void note(const char* op, const char* what, long n)
{
    char b[512];
    const int k = snprintf(b, sizeof b, "%ld %s %s %ld\n", g_n, op, what, n);
    if (g_log >= 0) syscall(SYS_write, g_log, b, (size_t)k);
}
static int mine_path(const char* p)
{
    init();
    return g_dir && p && strncmp(p, g_dir, strlen(g_dir)) == 0;
}
static int mine_fd(int fd) { return fd >= 0 && fd < (int)sizeof g_mine && g_mine[fd]; }
/* 0: go on; 1: fail with errno set; 2: fall short */
static int point(const char* op, const char* what, long n)
{
    note(op, what, n);
    if (g_n++ != g_index) return 0;
    if (!strcmp(g_kind, "crash")) syscall(SYS_exit_group, 137);
    if (!strcmp(g_kind, "enospc")) return errno = ENOSPC, 1;
    if (!strcmp(g_kind, "eio")) return errno = EIO, 1;
    if (!strcmp(g_kind, "eacces")) return errno = EACCES, 1;
    if (!strcmp(g_kind, "emfile")) return errno = EMFILE, 1;
    return 2; /* short, torn */
}
static void opened(int fd)
{
    if (fd >= 0 && fd < (int)sizeof g_mine) g_mine[fd] = 1;
}
#define REAL(r, name, args) static r(*real) args; if (!real) real = (r(*) args)dlsym(RTLD_NEXT, #name)

static FILE* do_fopen(FILE* (*real)(const char*, const char*), const char* p, const char* m)
{
    if (!mine_path(p)) return real(p, m);
    const int w = strpbrk(m, "wa+") != NULL;
    if (point(w ? "open-write" : "open-read", tail(p), 0) == 1) return NULL;
    FILE* f = real(p, m);
    if (f) opened(fileno(f));
    return f;
}
FILE* fopen(const char* p, const char* m) { REAL(FILE*, fopen, (const char*, const char*)); return do_fopen(real, p, m); }
FILE* fopen64(const char* p, const char* m) { REAL(FILE*, fopen64, (const char*, const char*)); return do_fopen(real, p, m); }
static int do_open(int (*real)(const char*, int, ...), const char* p, int fl, mode_t mode)
{
    if (!mine_path(p)) return real(p, fl, mode);
    if (point((fl & O_ACCMODE) != O_RDONLY ? "open-write" : "open-read", tail(p), 0) == 1) return -1;
    const int fd = real(p, fl, mode);
    opened(fd);
    return fd;
}
int open(const char* p, int fl, ...)
{
    REAL(int, open, (const char*, int, ...));
    va_list a;
    va_start(a, fl);
    const mode_t m = va_arg(a, mode_t);
    va_end(a);
    return do_open(real, p, fl, m);
}
int open64(const char* p, int fl, ...)
{
    REAL(int, open64, (const char*, int, ...));
    va_list a;
    va_start(a, fl);
    const mode_t m = va_arg(a, mode_t);
    va_end(a);
    return do_open(real, p, fl, m);
}
ssize_t read(int fd, void* b, size_t n)
{
    REAL(ssize_t, read, (int, void*, size_t));
    if (!mine_fd(fd)) return real(fd, b, n);
    const int k = point("read", "-", (long)n);
    if (k == 1) return -1;
    if (k == 2 && n > 1) n = 1 + (size_t)g_arg % (n - 1);
    return real(fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n)
{
    REAL(ssize_t, write, (int, const void*, size_t));
    if (!mine_fd(fd)) return real(fd, b, n);
    const int k = point("write", "-", (long)n);
    if (k == 1) {
        const int e = errno;
        real(fd, b, n ? (size_t)g_arg % n : 0);
        return errno = e, -1;
    }
    if (k == 2) {
        const ssize_t r = real(fd, b, n > 1 ? 1 + (size_t)g_arg % (n - 1) : n);
        if (!strcmp(g_kind, "torn")) syscall(SYS_exit_group, 137);
        return r;
    }
    return real(fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c)
{
    REAL(ssize_t, writev, (int, const struct iovec*, int));
    if (!mine_fd(fd)) return real(fd, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; ++i) {
        const ssize_t r = write(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0) return t ? t : r;
        t += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return t;
}
int fclose(FILE* f)
{
    REAL(int, fclose, (FILE*));
    const int fd = fileno(f);
    if (mine_fd(fd)) {
        point("close", "-", 0);
        g_mine[fd] = 0;
    }
    return real(f);
}
int close(int fd)
{
    REAL(int, close, (int));
    if (mine_fd(fd)) {
        point("close", "-", 0);
        g_mine[fd] = 0;
    }
    return real(fd);
}
int rename(const char* a, const char* b)
{
    REAL(int, rename, (const char*, const char*));
    if (mine_path(b) && point("rename", tail(b), 0) == 1) return -1;
    return real(a, b);
}
int unlink(const char* a)
{
    REAL(int, unlink, (const char*));
    if (mine_path(a) && point("unlink", tail(a), 0) == 1) return -1;
    return real(a);
}
int mkdir(const char* a, mode_t m)
{
    REAL(int, mkdir, (const char*, mode_t));
    if (mine_path(a) && point("mkdir", tail(a), 0) == 1) return -1;
    return real(a, m);
}
