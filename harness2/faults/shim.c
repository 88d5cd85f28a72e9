// Preloaded into the program under test: notes each operation on a file below
// MCXF_ROOT in MCXF_LOG, and lets one of them fail (MCXF_FAIL = "op path n action":
// the n-th `op` on `path` gives error `action`, or does one byte only, or ends the
// program before ("kill") or after it ("die")).
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 4096
static char *names[MAXFD];
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static int logfd = -2;
static char want_op[32], want_path[1024], want_action[32];
static int want_n, seen_n;
static const char *root;

static void setup(void) {
    if (logfd != -2) return;
    root = getenv("MCXF_ROOT");
    const char *l = getenv("MCXF_LOG");
    logfd = l ? syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600) : -1;
    if (getenv("MCXF_STD")) { names[1] = strdup(">1"); names[2] = strdup(">2"); }
    const char *f = getenv("MCXF_FAIL");
    if (!f || sscanf(f, "%31s %1023s %d %31s", want_op, want_path, &want_n, want_action) != 4) want_op[0] = 0;
}
// the path below the root, or NULL
static const char *below(const char *path, char *buf) {
    setup();
    if (!root || !path) return NULL;
    size_t n = strlen(root);
    if (path[0] != '/') {
        char cwd[2048];
        if (!getcwd(cwd, sizeof cwd)) return NULL;
        snprintf(buf, 4096, "%s/%s", cwd, path);
    } else snprintf(buf, 4096, "%s", path);
    if (strncmp(buf, root, n) || buf[n] != '/') return NULL;
    char *p = buf + n + 1;
    // `./` and doubled slashes
    for (char *q; (q = strstr(p, "/./"));) memmove(q, q + 2, strlen(q + 2) + 1);
    while (p[0] == '.' && p[1] == '/') p += 2;
    return p;
}
// 0: go on, 1: fails with errno, 2: one byte only, 3: ends after it
static int step(const char *op, const char *p) {
    pthread_mutex_lock(&lock);
    if (logfd >= 0) {
        char line[4200];
        int n = snprintf(line, sizeof line, "%s %s\n", op, p);
        syscall(SYS_write, logfd, line, n);
    }
    int r = 0;
    if (want_op[0] && !strcmp(op, want_op) && !strcmp(p, want_path) && (seen_n++ == want_n || (seen_n > want_n && strchr(want_action, '+')))) {
        if (!strcmp(want_action, "kill")) syscall(SYS_exit_group, 77);
        if (!strcmp(want_action, "short")) r = 2;
        else if (!strcmp(want_action, "die")) r = 3;
        else { errno = atoi(want_action); r = 1; }
    }
    pthread_mutex_unlock(&lock);
    return r;
}
static int opened(int fd, const char *p) {
    if (fd >= 0 && fd < MAXFD) { free(names[fd]); names[fd] = p ? strdup(p) : NULL; }
    return fd;
}
static int do_open(int dir, const char *path, int flags, mode_t mode) {
    char buf[4096];
    const char *p = dir == AT_FDCWD || path[0] == '/' ? below(path, buf) : NULL;
    if (p && !(flags & O_DIRECTORY)) {
        int s = step((flags & O_ACCMODE) == O_RDONLY ? "openr" : "openw", p);
        if (s == 1) return -1;
        int fd = opened(syscall(SYS_openat, dir, path, flags, mode), p);
        if (s == 3) syscall(SYS_exit_group, 77);
        return fd;
    }
    return opened(syscall(SYS_openat, dir, path, flags, mode), NULL);
}
#define OPEN(name) int name(const char *path, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a); return do_open(AT_FDCWD, path, flags, m); }
OPEN(open) OPEN(open64)
#define OPENAT(name) int name(int dir, const char *path, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a); return do_open(dir, path, flags, m); }
OPENAT(openat) OPENAT(openat64)
int close(int fd) { opened(fd, NULL); return syscall(SYS_close, fd); }
ssize_t read(int fd, void *b, size_t n) {
    if (fd >= 0 && fd < MAXFD && names[fd]) {
        int s = step("read", names[fd]);
        if (s == 1) return -1;
        if (s == 2 && n > 1) n = 1;
    }
    return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
    int s = 0;
    setup();
    if (fd >= 0 && fd < MAXFD && names[fd]) {
        s = step("write", names[fd]);
        if (s == 1) return -1;
        if (s == 2 && n > 1) n = 1;
    }
    ssize_t r = syscall(SYS_write, fd, b, n);
    if (s == 3) syscall(SYS_exit_group, 77);
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    setup();
    if (fd >= 0 && fd < MAXFD && names[fd]) {
        // one piece at a time
        for (int i = 0; i < n; i++)
            if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
        return 0;
    }
    return syscall(SYS_writev, fd, v, n);
}
