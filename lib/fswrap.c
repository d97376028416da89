// Interposed file-system calls (-Wl,--wrap=... of fswrap.wrap): observation, fault injection, crash points, and
// containment: nothing outside the scratch root may be changed.
#define _GNU_SOURCE
#include "dsched.h"
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

static fs_fault_fn hook;
static uint64_t calls, outside;
static char root[512];
static char fdpath[1024][256];

void fs_hook(fs_fault_fn f) { hook = f; calls = 0; outside = 0; }
uint64_t fs_calls(void) { return calls; }
uint64_t fs_outside(void) { return outside; }
void fs_root(const char* r) { snprintf(root, sizeof root, "%s", r); }

// 1 when path may be changed
static int inside(const char* p)
{
    char b[1100];
    if (!root[0]) return 1;
    if (p[0] != '/') { char c[512]; if (!getcwd(c, sizeof c)) return 0; snprintf(b, sizeof b, "%s/%s", c, p); p = b; }
    size_t n = strlen(root);
    return !strncmp(p, root, n) && (p[n] == '/' || !p[n]) && !strstr(p, "/../");
}

// returns errno to fail with, or 0
static int decide(int op, const char* a, const char* b, int* after)
{
    *after = 0;
    if (!hook) return 0;
    ds_yield();
    if (op != FS_STAT && op != FS_WRITE && op != FS_CLOSE && (!inside(a) || (b && !inside(b)))) { ++outside; return EACCES; }
    int r = hook(op, a, b, calls++);
    if (r == FS_CRASH_BEFORE) _exit(99);
    if (r == FS_CRASH_AFTER || r == FS_CRASH_HALF) { *after = r; return 0; }
    return r > 0 ? r : 0;
}
static void finish(int after) { if (after) _exit(99); if (hook) ds_yield(); }

// (string functions are intercepted by the race detector, which must not see what is only this file's)
static void keep(int fd, const char* p)
{
    volatile char* d = fdpath[fd]; size_t i = 0;
    for (; p[i] && i + 1 < sizeof fdpath[0]; ++i) d[i] = p[i];
    d[i] = 0;
}
extern FILE* __real_fopen64(const char*, const char*);
FILE* __wrap_fopen64(const char* p, const char* m)
{
    int after, e = decide(FS_OPEN, p, 0, &after);
    if (e) { errno = e; return 0; }
    FILE* f = __real_fopen64(p, m);
    int s = errno;
    if (f && hook && fileno(f) < 1024) keep(fileno(f), p);
    finish(after); errno = s;
    return f;
}
extern FILE* __real_fopen(const char*, const char*);
FILE* __wrap_fopen(const char* p, const char* m) { return __wrap_fopen64(p, m); }

static const char* fdname(int fd) { return hook && fd > 2 && fd < 1024 && fdpath[fd][0] ? fdpath[fd] : 0; }

extern ssize_t __real_write(int, const void*, size_t);
extern ssize_t __real_writev(int, const struct iovec*, int);
ssize_t __wrap_write(int fd, const void* b, size_t n)
{
    const char* p = fdname(fd);
    if (!p) return __real_write(fd, b, n);
    int after, e = decide(FS_WRITE, p, 0, &after);
    if (e) { errno = e; return -1; }
    if (after == FS_CRASH_HALF) { if (__real_write(fd, b, n / 2)) {} _exit(99); }
    ssize_t r = __real_write(fd, b, n);
    finish(after);
    return r;
}
ssize_t __wrap_writev(int fd, const struct iovec* v, int n)
{
    const char* p = fdname(fd);
    if (!p) return __real_writev(fd, v, n);
    int after, e = decide(FS_WRITE, p, 0, &after);
    if (e) { errno = e; return -1; }
    if (after == FS_CRASH_HALF) { if (n && __real_write(fd, v[0].iov_base, v[0].iov_len / 2)) {} _exit(99); }
    ssize_t r = __real_writev(fd, v, n);
    finish(after);
    return r;
}
extern int __real_fclose(FILE*);
int __wrap_fclose(FILE* f)
{
    int fd = fileno(f), after = 0;
    const char* p = fdname(fd);
    if (p) { decide(FS_CLOSE, p, 0, &after); fdpath[fd][0] = 0; }
    int r = __real_fclose(f);
    if (p) finish(after);
    return r;
}
extern int __real_rename(const char*, const char*);
int __wrap_rename(const char* a, const char* b)
{
    int after, e = decide(FS_RENAME, a, b, &after);
    if (e) { errno = e; return -1; }
    int r = __real_rename(a, b), s = errno;
    finish(after); errno = s;
    return r;
}
#define ONE(NAME, OP) \
    extern int __real_##NAME(const char*); \
    int __wrap_##NAME(const char* a) { int after, e = decide(OP, a, 0, &after); if (e) { errno = e; return -1; } int r = __real_##NAME(a), s = errno; finish(after); errno = s; return r; }
ONE(remove, FS_REMOVE)
ONE(unlink, FS_REMOVE)
ONE(rmdir, FS_REMOVE)
extern int __real_unlinkat(int, const char*, int);
int __wrap_unlinkat(int d, const char* a, int fl)
{
    if (!hook) return __real_unlinkat(d, a, fl);
    ++outside; errno = EACCES; return -1;       // recursive removal has no business here
}
extern int __real_mkdir(const char*, mode_t);
int __wrap_mkdir(const char* a, mode_t m)
{
    int after, e = decide(FS_MKDIR, a, 0, &after);
    if (e) { errno = e; return -1; }
    int r = __real_mkdir(a, m), s = errno;
    finish(after); errno = s;
    return r;
}
extern int __real_truncate(const char*, off_t);
int __wrap_truncate(const char* a, off_t n)
{
    int after, e = decide(FS_OPEN, a, 0, &after);
    if (e) { errno = e; return -1; }
    int r = __real_truncate(a, n);
    finish(after);
    return r;
}
extern int __real_stat(const char*, struct stat*);
int __wrap_stat(const char* a, struct stat* st)
{
    int after, e = decide(FS_STAT, a, 0, &after);
    if (e) { errno = e; return -1; }
    int r = __real_stat(a, st), s = errno;
    finish(after); errno = s;
    return r;
}
