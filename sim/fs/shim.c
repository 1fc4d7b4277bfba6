/* Interposes the file-system calls, clocks and sleeps of a simulated client process. Every call that touches
   a path below the prefix is announced to the scheduler (the parent process, over a SOCK_SEQPACKET socket),
   which decides when it happens and whether it fails, is cut short or is the last thing the process does.
   Calls that would change anything outside the prefix are refused and reported. Inert until fs_arm(). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/random.h>
#include <time.h>
#include <unistd.h>

static int armed, sock = -1, vpid;
static char prefix[PATH_MAX];
static size_t prefixlen;
static uint64_t vtime = 1700000000ull * 1000000000ull, rnd;
static unsigned char tracked[1024];
struct reply { int32_t action, arg; uint64_t vtime; };
enum { GO, FAIL, SHORT, CRASH, CRASH_SHORT, WOULD };

void fs_arm(int s, const char *p, int pid, unsigned long long seed) {
    sock = s; vpid = pid; rnd = seed; snprintf(prefix, sizeof prefix, "%s", p); prefixlen = strlen(prefix); armed = 1;
}
void fs_disarm(void) { armed = 0; }
/* events of the harness itself: output, exit */
void fs_send(const char *m, long n) { syscall(SYS_write, sock, m, n); }

static void die(void) { syscall(SYS_exit_group, 99); __builtin_unreachable(); }

static struct reply ask(const char *op, const char *a, const char *b, long n) {
    char buf[3 * PATH_MAX];
    struct reply r = {0};
    int l = snprintf(buf, sizeof buf, "A%s%c%s%c%s%c%ld", op, 0, a ? a : "", 0, b ? b : "", 0, n);
    int e = errno;
    if (syscall(SYS_write, sock, buf, l) != l || syscall(SYS_read, sock, &r, sizeof r) != sizeof r)
        die();
    errno = e;
    vtime = r.vtime;
    if (r.action == CRASH)
        die();
    return r;
}
/* result of the announced call: return value, errno, inode, offset and data written */
static void tell(long ret, long ino, long off, const void *data, size_t n) {
    int e = errno;
    char h[160];
    int l = snprintf(h, sizeof h, "R%ld%c%d%c%ld%c%ld%c", ret, 0, ret < 0 ? e : 0, 0, ino, 0, off, 0);
    struct iovec v[2] = {{h, (size_t)l}, {(void *)data, n}};
    if (syscall(SYS_writev, sock, v, n ? 2 : 1) < 0)
        die();
    errno = e;
}
static int under(const char *abs) { return !strncmp(abs, prefix, prefixlen) && (abs[prefixlen] == '/' || !abs[prefixlen]); }
static const char *resolve(int dirfd, const char *p, char *out) {
    if (p[0] == '/')
        snprintf(out, PATH_MAX, "%s", p);
    else {
        char d[PATH_MAX], l[64];
        ssize_t k;
        if (dirfd == AT_FDCWD)
            k = syscall(SYS_readlink, "/proc/self/cwd", d, sizeof d - 1);
        else {
            snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
            k = syscall(SYS_readlink, l, d, sizeof d - 1);
        }
        if (k < 0)
            k = 0;
        d[k] = 0;
        snprintf(out, PATH_MAX, "%.2000s/%.2000s", d, p);
    }
    return out;
}
static long inode(int fd) { struct stat st; return syscall(SYS_fstat, fd, &st) ? 0 : (long)st.st_ino; }
static int istracked(int fd) { return armed && fd >= 0 && fd < (int)sizeof tracked && tracked[fd]; }
#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)
#define FAILWITH(r) do { if ((r).action == FAIL) { errno = (r).arg; tell(-1, 0, 0, 0, 0); return -1; } } while (0)
static int escape(const char *op, const char *p) { ask("escape", op, p, 0); tell(-1, 0, 0, 0, 0); errno = EACCES; return -1; }

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    if (!armed)
        return syscall(SYS_openat, dirfd, path, flags, mode);
    char p[PATH_MAX];
    resolve(dirfd, path, p);
    int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (!under(p)) {
        if (wr && strncmp(p, "/dev/", 5))
            return escape("open", p);
        return syscall(SYS_openat, dirfd, path, flags, mode);
    }
    char how[64];
    snprintf(how, sizeof how, "%s%s%s%s", wr ? "w" : "r", flags & O_CREAT ? "c" : "", flags & O_TRUNC ? "t" : "", flags & O_EXCL ? "x" : "");
    struct reply r = ask("open", p, how, 0);
    FAILWITH(r);
    int fd = syscall(SYS_openat, dirfd, path, flags, mode);
    if (fd >= 0 && fd < (int)sizeof tracked)
        tracked[fd] = 1 + !!wr;
    tell(fd < 0 ? -1 : 0, fd < 0 ? 0 : inode(fd), 0, 0, 0);
    if (r.action == CRASH_SHORT)
        die();
    return fd;
}
#define OPENFN(name, at) int name(const char *path, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | __O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap); return do_open(AT_FDCWD, path, flags, m); }
OPENFN(open, 0)
OPENFN(open64, 0)
#define OPENATFN(name) int name(int dirfd, const char *path, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | __O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap); return do_open(dirfd, path, flags, m); }
OPENATFN(openat)
OPENATFN(openat64)
int creat(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_TRUNC | O_WRONLY, m); }

int close(int fd) {
    if (!istracked(fd))
        return syscall(SYS_close, fd);
    struct reply r = ask("close", tracked[fd] == 2 ? "w" : "r", 0, inode(fd));
    long ino = inode(fd);
    tracked[fd] = 0;
    int e = syscall(SYS_close, fd);
    if (r.action == FAIL) { errno = r.arg; e = -1; } /* as Linux does: reported, but closed */
    tell(e, ino, 0, 0, 0);
    return e;
}
static ssize_t wr(int fd, const void *b, size_t n, off_t at) {
    if (!istracked(fd))
        return at < 0 ? syscall(SYS_write, fd, b, n) : syscall(SYS_pwrite64, fd, b, n, at);
    struct reply r = ask("write", 0, 0, (long)n);
    FAILWITH(r);
    if ((r.action == SHORT || r.action == CRASH_SHORT) && (size_t)r.arg < n)
        n = r.arg;
    if (n > 150000)
        n = 150000;
    ssize_t k = at < 0 ? syscall(SYS_write, fd, b, n) : syscall(SYS_pwrite64, fd, b, n, at);
    long off = at < 0 ? syscall(SYS_lseek, fd, 0, SEEK_CUR) - (k > 0 ? k : 0) : at;
    tell(k, inode(fd), off, b, k > 0 ? k : 0);
    if (r.action == CRASH_SHORT)
        die();
    return k;
}
ssize_t write(int fd, const void *b, size_t n) { return wr(fd, b, n, -1); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return wr(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return wr(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!istracked(fd))
        return syscall(SYS_writev, fd, v, c);
    for (int i = 0; i < c; i++)
        if (v[i].iov_len)
            return wr(fd, v[i].iov_base, v[i].iov_len, -1);
    return 0;
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { if (armed && (istracked(o) || istracked(i))) { errno = EINVAL; return -1; } return syscall(SYS_sendfile, o, i, off, n); }
ssize_t copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t n, unsigned f) { if (armed && istracked(o)) { errno = EXDEV; return -1; } return syscall(SYS_copy_file_range, i, oi, o, oo, n, f); }
static ssize_t rd(int fd, void *b, size_t n, off_t at) {
    if (!istracked(fd))
        return at < 0 ? syscall(SYS_read, fd, b, n) : syscall(SYS_pread64, fd, b, n, at);
    struct reply r = ask("read", 0, 0, (long)n);
    FAILWITH(r);
    if (r.action == SHORT && (size_t)r.arg < n)
        n = r.arg;
    ssize_t k = at < 0 ? syscall(SYS_read, fd, b, n) : syscall(SYS_pread64, fd, b, n, at);
    tell(k, inode(fd), 0, 0, 0);
    return k;
}
ssize_t read(int fd, void *b, size_t n) { return rd(fd, b, n, -1); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return rd(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return rd(fd, b, n, o); }

#define SIMPLE(call, op, a, b, n, ino, dead) \
    struct reply r = ask(op, a, b, n); FAILWITH(r); long k = call; tell(k, ino, 0, 0, 0); if (dead && r.action == CRASH_SHORT) die(); return k
static int trunc_(int fd, off_t n) { if (!istracked(fd)) return syscall(SYS_ftruncate, fd, n); SIMPLE(syscall(SYS_ftruncate, fd, n), "ftruncate", 0, 0, n, inode(fd), 1); }
int ftruncate(int fd, off_t n) { return trunc_(fd, n); }
int ftruncate64(int fd, off64_t n) { return trunc_(fd, n); }
static int truncp(const char *path, off_t n) {
    if (!armed) return syscall(SYS_truncate, path, n);
    char p[PATH_MAX]; resolve(AT_FDCWD, path, p);
    if (!under(p)) return escape("truncate", p);
    struct stat st; long ino = stat(p, &st) ? 0 : (long)st.st_ino;
    SIMPLE(syscall(SYS_truncate, path, n), "truncate", p, 0, n, ino, 1);
}
int truncate(const char *p, off_t n) { return truncp(p, n); }
int truncate64(const char *p, off64_t n) { return truncp(p, n); }
static int sync_(int nr, int fd) { if (!istracked(fd)) return syscall(nr, fd); SIMPLE(syscall(nr, fd), "fsync", 0, 0, 0, inode(fd), 0); }
int fsync(int fd) { return sync_(SYS_fsync, fd); }
int fdatasync(int fd) { return sync_(SYS_fdatasync, fd); }
static int fall_(int fd, off_t o, off_t n) { if (!istracked(fd)) return syscall(SYS_fallocate, fd, 0, o, n) ? errno : 0; return EOPNOTSUPP; }
int posix_fallocate(int fd, off_t o, off_t n) { return fall_(fd, o, n); }
int posix_fallocate64(int fd, off64_t o, off64_t n) { return fall_(fd, o, n); }

static int two(const char *op, int fa, const char *a, int fb, const char *b, unsigned fl) {
    int sy = op[0] == 'r' ? SYS_renameat2 : SYS_linkat;
    if (!armed) return sy == SYS_renameat2 ? syscall(sy, fa, a, fb, b, fl) : syscall(sy, fa, a, fb, b, fl);
    char p[PATH_MAX], q[PATH_MAX];
    resolve(fa, a, p); resolve(fb, b, q);
    if (!under(p) || !under(q)) return escape(op, under(p) ? q : p);
    SIMPLE(syscall(sy, fa, a, fb, b, fl), op, p, q, 0, 0, 1);
}
int rename(const char *a, const char *b) { return two("rename", AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int fa, const char *a, int fb, const char *b) { return two("rename", fa, a, fb, b, 0); }
int renameat2(int fa, const char *a, int fb, const char *b, unsigned fl) { return two("rename", fa, a, fb, b, fl); }
int link(const char *a, const char *b) { return two("link", AT_FDCWD, a, AT_FDCWD, b, 0); }
int linkat(int fa, const char *a, int fb, const char *b, int fl) { return two("link", fa, a, fb, b, fl); }
static int unl(int fd, const char *path, int fl) {
    if (!armed) return syscall(SYS_unlinkat, fd, path, fl);
    char p[PATH_MAX]; resolve(fd, path, p);
    if (!under(p)) return escape("unlink", p);
    SIMPLE(syscall(SYS_unlinkat, fd, path, fl), "unlink", p, 0, fl, 0, 1);
}
int unlink(const char *p) { return unl(AT_FDCWD, p, 0); }
int unlinkat(int fd, const char *p, int fl) { return unl(fd, p, fl); }
int rmdir(const char *p) { return unl(AT_FDCWD, p, AT_REMOVEDIR); }
int remove(const char *p) { return unl(AT_FDCWD, p, 0); }
static int mkd(int fd, const char *path, mode_t m) {
    if (!armed) return syscall(SYS_mkdirat, fd, path, m);
    char p[PATH_MAX]; resolve(fd, path, p);
    if (!under(p)) return escape("mkdir", p);
    SIMPLE(syscall(SYS_mkdirat, fd, path, m), "mkdir", p, 0, 0, 0, 1);
}
int mkdir(const char *p, mode_t m) { return mkd(AT_FDCWD, p, m); }
int mkdirat(int fd, const char *p, mode_t m) { return mkd(fd, p, m); }
static int syml(const char *t, int fd, const char *path) {
    if (!armed) return syscall(SYS_symlinkat, t, fd, path);
    char p[PATH_MAX]; resolve(fd, path, p);
    if (!under(p)) return escape("symlink", p);
    SIMPLE(syscall(SYS_symlinkat, t, fd, path), "symlink", t, p, 0, 0, 1);
}
int symlink(const char *t, const char *p) { return syml(t, AT_FDCWD, p); }
int symlinkat(const char *t, int fd, const char *p) { return syml(t, fd, p); }
static int meta(const char *op, int fd, const char *path, long (*f)(int, const char *, long, long), long x, long y) {
    if (!armed) return f(fd, path, x, y);
    char p[PATH_MAX];
    if (path) { resolve(fd, path, p); if (!under(p)) return escape(op, p); } else { if (!istracked(fd)) return f(fd, path, x, y); p[0] = 0; }
    SIMPLE(f(fd, path, x, y), op, p, 0, x, 0, 1);
}
static long f_chmod(int fd, const char *p, long x, long y) { (void)y; return p ? syscall(SYS_fchmodat, fd, p, x) : syscall(SYS_fchmod, fd, x); }
static long f_chown(int fd, const char *p, long x, long y) { return p ? syscall(SYS_fchownat, fd, p, x, y, 0) : syscall(SYS_fchown, fd, x, y); }
int chmod(const char *p, mode_t m) { return meta("chmod", AT_FDCWD, p, f_chmod, m, 0); }
int fchmod(int fd, mode_t m) { return meta("chmod", fd, 0, f_chmod, m, 0); }
int fchmodat(int fd, const char *p, mode_t m, int fl) { (void)fl; return meta("chmod", fd, p, f_chmod, m, 0); }
int chown(const char *p, uid_t u, gid_t g) { return meta("chown", AT_FDCWD, p, f_chown, u, g); }
int fchown(int fd, uid_t u, gid_t g) { return meta("chown", fd, 0, f_chown, u, g); }
int fchownat(int fd, const char *p, uid_t u, gid_t g, int fl) { (void)fl; return meta("chown", fd, p, f_chown, u, g); }

/* looking at names: a scheduling point that may fail */
static int st(int fd, const char *path, struct stat *s, int fl) {
    if (!armed || !path || (!path[0])) return syscall(SYS_newfstatat, fd, path, s, fl);
    char p[PATH_MAX]; resolve(fd, path, p);
    if (!under(p)) return syscall(SYS_newfstatat, fd, path, s, fl);
    struct reply r = ask("stat", p, 0, 0); FAILWITH(r);
    int k = syscall(SYS_newfstatat, fd, path, s, fl); tell(k, 0, 0, 0, 0); return k;
}
int stat(const char *p, struct stat *s) { return st(AT_FDCWD, p, s, 0); }
int stat64(const char *p, struct stat64 *s) { return st(AT_FDCWD, p, (struct stat *)s, 0); }
int lstat(const char *p, struct stat *s) { return st(AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char *p, struct stat64 *s) { return st(AT_FDCWD, p, (struct stat *)s, AT_SYMLINK_NOFOLLOW); }
int fstatat(int fd, const char *p, struct stat *s, int fl) { return st(fd, p, s, fl); }
int fstatat64(int fd, const char *p, struct stat64 *s, int fl) { return st(fd, p, (struct stat *)s, fl); }

/* locks: never block in the kernel; the scheduler waits until another process has released something */
static int lock_(int fd, const char *op, int wait, int unlock, long (*f)(int, void *), void *arg) {
    if (!istracked(fd)) return f(fd, arg);
    for (;;) {
        struct reply r = ask(op, unlock ? "u" : wait ? "w" : "t", 0, inode(fd));
        FAILWITH(r);
        long k = f(fd, arg);
        if (k < 0 && wait && (errno == EWOULDBLOCK || errno == EACCES)) { tell(-2, 0, 0, 0, 0); continue; }
        tell(k, inode(fd), 0, 0, 0);
        return k;
    }
}
static long f_flock(int fd, void *a) { return syscall(SYS_flock, fd, *(int *)a | ((*(int *)a & LOCK_UN) ? 0 : LOCK_NB)); }
int flock(int fd, int op) { return lock_(fd, "flock", !(op & LOCK_NB), !!(op & LOCK_UN), f_flock, &op); }
struct fc { int cmd; void *l; };
static long f_fcntl(int fd, void *a) { struct fc *c = a; return syscall(SYS_fcntl, fd, c->cmd == F_SETLKW ? F_SETLK : c->cmd == F_OFD_SETLKW ? F_OFD_SETLK : c->cmd, c->l); }
static int fcntl_(int fd, int cmd, void *arg) {
    if (istracked(fd) && (cmd == F_SETLK || cmd == F_SETLKW || cmd == F_OFD_SETLK || cmd == F_OFD_SETLKW)) {
        struct fc c = {cmd, arg};
        return lock_(fd, "lockf", cmd == F_SETLKW || cmd == F_OFD_SETLKW, ((struct flock *)arg)->l_type == F_UNLCK, f_fcntl, &c);
    }
    int k = syscall(SYS_fcntl, fd, cmd, arg);
    if (istracked(fd) && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && k >= 0 && k < (int)sizeof tracked) tracked[k] = tracked[fd];
    return k;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return fcntl_(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return fcntl_(fd, cmd, a); }
int dup(int fd) { int k = syscall(SYS_dup, fd); if (istracked(fd) && k >= 0 && k < (int)sizeof tracked) tracked[k] = tracked[fd]; return k; }

/* time, randomness, identity */
static void nap(const struct timespec *t) { char b[1]; (void)b; ask("sleep", 0, 0, t->tv_sec * 1000000000l + t->tv_nsec); tell(0, 0, 0, 0, 0); }
int clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *rem) {
    if (!armed) return syscall(SYS_clock_nanosleep, c, fl, t, rem) ? errno : 0;
    struct timespec d = *t;
    if (fl & TIMER_ABSTIME) { long n = t->tv_sec * 1000000000l + t->tv_nsec - (long)vtime; if (n < 0) n = 0; d.tv_sec = n / 1000000000l; d.tv_nsec = n % 1000000000l; }
    nap(&d); return 0;
}
int nanosleep(const struct timespec *t, struct timespec *rem) { if (!armed) return syscall(SYS_nanosleep, t, rem); nap(t); return 0; }
int clock_gettime(clockid_t c, struct timespec *t) {
    if (!armed) return syscall(SYS_clock_gettime, c, t);
    t->tv_sec = vtime / 1000000000ull; t->tv_nsec = vtime % 1000000000ull; vtime += 1000; return 0;
}
time_t time(time_t *t) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (t) *t = s.tv_sec; return s.tv_sec; }
pid_t getpid(void) { return armed ? vpid : (pid_t)syscall(SYS_getpid); }
ssize_t getrandom(void *b, size_t n, unsigned fl) {
    if (!armed) return syscall(SYS_getrandom, b, n, fl);
    for (size_t i = 0; i < n; i++) { rnd = rnd * 6364136223846793005ull + 1442695040888963407ull; ((unsigned char *)b)[i] = rnd >> 56; }
    return n;
}
/* no child processes from inside a simulated client */
pid_t fork(void) { if (armed) { errno = EAGAIN; return -1; } static pid_t (*real)(void); if (!real) real = (pid_t (*)(void))dlsym(RTLD_NEXT, "fork"); return real(); }
pid_t vfork(void) { return fork(); }
int posix_spawn(pid_t *p, const char *path, const void *a, const void *b, char *const *c, char *const *d) { (void)p; (void)path; (void)a; (void)b; (void)c; (void)d; return EAGAIN; }
int system(const char *c) { (void)c; errno = EAGAIN; return -1; }
