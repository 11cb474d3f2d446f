/* Simulation seam (LD_PRELOAD).  Dormant until sim_arm() is called in a forked
 * simulated process.  Once armed, every libc call that reaches the file system
 * below the run's root (and descriptors 1 and 2), the clocks, sleeps, entropy,
 * pid, host name, locale encoding, locks and process creation is either decided
 * by, or takes its value from, the simulator on the other end of a
 * SOCK_SEQPACKET socket.  Exactly one simulated process runs at a time: a
 * process proceeds past a seam only when the simulator answers.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <langinfo.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/random.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/utsname.h>
#include <time.h>
#include <unistd.h>

#undef open
#undef open64

enum {
  OP_OPEN = 1, OP_READ, OP_WRITE, OP_CLOSE, OP_STAT, OP_FSTAT, OP_MKDIR, OP_RMDIR,
  OP_UNLINK, OP_RENAME, OP_LINK, OP_SYMLINK, OP_TRUNC, OP_FTRUNC, OP_FSYNC,
  OP_ACCESS, OP_OPENDIR, OP_CHMOD, OP_UTIME, OP_READLINK, OP_LOCK, OP_SLEEP,
  OP_ESCAPE, OP_SPAWN, OP_THREAD, OP_POINT
};
enum { A_GO = 0, A_FAIL, A_SHORT, A_CRASH_BEFORE, A_CRASH_PART, A_CRASH_AFTER, A_SIGINT, A_ENV };

struct req { int32_t op, fd; int64_t a, b, prev_ret; int32_t prev_errno, l1, l2, pad; };
struct rep { int32_t action, err; int64_t arg, now, mono; };

#define MAXFD 4096
static int armed, ctrl = -1;
static pid_t realpid;
static char root[PATH_MAX]; static size_t rootlen;
static char cwdbuf[PATH_MAX];
static char tracked[MAXFD];         /* 1: below root, 2: std stream */
static int64_t t_real, t_mono;
static uint64_t rngstate; static int simpid; static char simhost[65], codeset[32], entropy_path[PATH_MAX];
static int64_t prev_ret; static int prev_errno;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static uint64_t dirseed;

#define REAL(name) static __typeof__(&name) r_##name; if (!r_##name) r_##name = (__typeof__(&name))dlsym(RTLD_NEXT, #name)
static long sys3(long n, long a, long b, long c) { return syscall(n, a, b, c); }

static int on(void) { return armed; }

static uint64_t rnd64(void) { uint64_t z = (rngstate += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }

static void die(void) { syscall(SYS_kill, realpid, SIGKILL); for (;;) syscall(SYS_pause); }

static struct rep rpc(int op, int fd, int64_t a, int64_t b, const char *p1, const char *p2) {
  static char buf[sizeof(struct req) + 2 * PATH_MAX];
  struct rep rp; memset(&rp, 0, sizeof rp);
  pthread_mutex_lock(&mu);
  struct req *q = (struct req *)buf; memset(q, 0, sizeof *q);
  q->op = op; q->fd = fd; q->a = a; q->b = b; q->prev_ret = prev_ret; q->prev_errno = prev_errno;
  size_t n = sizeof *q;
  if (p1) { q->l1 = strnlen(p1, PATH_MAX - 1); memcpy(buf + n, p1, q->l1); n += q->l1; }
  if (p2) { q->l2 = strnlen(p2, PATH_MAX - 1); memcpy(buf + n, p2, q->l2); n += q->l2; }
  prev_ret = 0; prev_errno = 0;
  long r;
  do r = syscall(SYS_sendto, ctrl, buf, n, MSG_NOSIGNAL, 0, 0); while (r < 0 && errno == EINTR);
  if (r < 0) die();
  do r = syscall(SYS_recvfrom, ctrl, &rp, sizeof rp, 0, 0, 0); while (r < 0 && errno == EINTR);
  if (r != (long)sizeof rp) die();
  t_real = rp.now; t_mono = rp.mono;
  pthread_mutex_unlock(&mu);
  if (rp.action == A_CRASH_BEFORE) die();
  if (rp.action == A_SIGINT) { kill(realpid, SIGINT); rp.action = A_GO; }
  return rp;
}
static void done(int64_t ret) { prev_ret = ret; prev_errno = ret < 0 ? errno : 0; }

/* lexical absolute path; returns 1 if below root */
static int norm(int dirfd, const char *p, char *out) {
  char tmp[2 * PATH_MAX]; 
  if (p[0] == '/') snprintf(tmp, sizeof tmp, "%s", p);
  else if (dirfd == AT_FDCWD) snprintf(tmp, sizeof tmp, "%s/%s", cwdbuf, p);
  else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
    ssize_t k = syscall(SYS_readlink, l, tmp, PATH_MAX - 1); if (k < 0) k = 0; tmp[k] = 0;
    strncat(tmp, "/", 2); strncat(tmp, p, PATH_MAX - 2); }
  size_t o = 0; char *s = tmp;
  while (*s) {
    while (*s == '/') s++;
    if (!*s) break;
    char *e = s; while (*e && *e != '/') e++;
    size_t n = e - s;
    if (n == 1 && s[0] == '.') {}
    else if (n == 2 && s[0] == '.' && s[1] == '.') { while (o > 0 && out[--o] != '/'); }
    else { if (o + n + 2 > PATH_MAX) break; out[o++] = '/'; memcpy(out + o, s, n); o += n; }
    s = e;
  }
  if (!o) out[o++] = '/';
  out[o] = 0;
  return strncmp(out, root, rootlen) == 0 && (out[rootlen] == '/' || out[rootlen] == 0);
}
static int isdev(const char *p) { return !strcmp(p, "/dev/null") || !strcmp(p, "/dev/tty"); }
#define FD_OK(fd) ((fd) >= 0 && (fd) < MAXFD)

void sim_arm(int cfd, const char *r, uint64_t seed, int64_t now, int64_t mono, int pid,
             const char *host, const char *cs, const char *entropy) {
  ctrl = cfd; snprintf(root, sizeof root, "%s", r); rootlen = strlen(root);
  rngstate = seed; dirseed = seed * 31 + 7; t_real = now; t_mono = mono; simpid = pid;
  snprintf(simhost, sizeof simhost, "%s", host); snprintf(codeset, sizeof codeset, "%s", cs);
  snprintf(entropy_path, sizeof entropy_path, "%s", entropy);
  if (syscall(SYS_getcwd, cwdbuf, sizeof cwdbuf) < 0) cwdbuf[0] = 0;
  realpid = syscall(SYS_getpid); tracked[1] = tracked[2] = 2; armed = 1;
}
void sim_codeset(const char *cs) { snprintf(codeset, sizeof codeset, "%s", cs); }
void sim_disarm(void) { armed = 0; }
/* an explicit scheduling point (process start, end, between invocations) */
void sim_point(int64_t a) { if (on()) { rpc(OP_POINT, -1, a, 0, 0, 0); } }

/* ---------------------------------------------------------------- open */
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  char ap[PATH_MAX];
  if (!on()) return syscall(SYS_openat, dirfd, path, flags, mode);
  int in = norm(dirfd, path, ap);
  int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  if (!in) {
    if (!strcmp(ap, "/dev/urandom") || !strcmp(ap, "/dev/random"))
      return syscall(SYS_openat, AT_FDCWD, entropy_path, O_RDONLY | (flags & O_CLOEXEC), 0);
    if (wr && !isdev(ap)) { rpc(OP_ESCAPE, -1, OP_OPEN, flags, ap, 0); errno = EACCES; return -1; }
    return syscall(SYS_openat, dirfd, path, flags, mode);
  }
  struct rep rp = rpc(OP_OPEN, -1, flags, mode, ap, 0);
  if (rp.action == A_FAIL) { errno = rp.err; done(-1); return -1; }
  int fd = syscall(SYS_openat, dirfd, path, flags, mode);
  if (rp.action == A_CRASH_PART || rp.action == A_CRASH_AFTER) die();
  if (FD_OK(fd)) tracked[fd] = 1;
  done(fd);
  return fd;
}
#define OPENBODY(dfd) mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); } return do_open(dfd, path, flags, m)
int open(const char *path, int flags, ...) { OPENBODY(AT_FDCWD); }
int open64(const char *path, int flags, ...) { OPENBODY(AT_FDCWD); }
int openat(int d, const char *path, int flags, ...) { OPENBODY(d); }
int openat64(int d, const char *path, int flags, ...) { OPENBODY(d); }
int __open64_2(const char *path, int flags) { return do_open(AT_FDCWD, path, flags, 0); }
int __open_2(const char *path, int flags) { return do_open(AT_FDCWD, path, flags, 0); }
int __openat64_2(int d, const char *path, int flags) { return do_open(d, path, flags, 0); }
int creat(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *path, mode_t m) { return creat(path, m); }

/* ---------------------------------------------------------------- read / write */
static ssize_t do_read(int fd, void *b, size_t n, int64_t off) {
  if (!on() || !FD_OK(fd) || tracked[fd] != 1)
    return off >= 0 ? syscall(SYS_pread64, fd, b, n, off) : syscall(SYS_read, fd, b, n);
  struct rep rp = rpc(OP_READ, fd, n, off, 0, 0);
  if (rp.action == A_FAIL) { errno = rp.err; done(-1); return -1; }
  if (rp.action == A_SHORT && rp.arg > 0 && (uint64_t)rp.arg < n) n = rp.arg;
  ssize_t r = off >= 0 ? syscall(SYS_pread64, fd, b, n, off) : syscall(SYS_read, fd, b, n);
  if (rp.action == A_CRASH_PART || rp.action == A_CRASH_AFTER) die();
  done(r); return r;
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, -1); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t l) { (void)l; return do_read(fd, b, n, -1); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_read(fd, b, n, o); }
static ssize_t do_write(int fd, const void *b, size_t n, int64_t off) {
  if (!on() || !FD_OK(fd) || !tracked[fd])
    return off >= 0 ? syscall(SYS_pwrite64, fd, b, n, off) : syscall(SYS_write, fd, b, n);
  struct rep rp = rpc(OP_WRITE, fd, n, off, 0, 0);
  if (rp.action == A_FAIL) {
    if (rp.err == EPIPE) kill(realpid, SIGPIPE);
    errno = rp.err; done(-1); return -1; }
  if ((rp.action == A_SHORT || rp.action == A_CRASH_PART) && (uint64_t)rp.arg < n) n = rp.arg;
  ssize_t r = off >= 0 ? syscall(SYS_pwrite64, fd, b, n, off) : syscall(SYS_write, fd, b, n);
  if (rp.action == A_CRASH_PART || rp.action == A_CRASH_AFTER) die();
  done(r); return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, -1); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!on() || !FD_OK(fd) || !tracked[fd]) return syscall(SYS_writev, fd, v, c);
  ssize_t t = 0;
  for (int i = 0; i < c; i++) { ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, -1); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; }
  return t;
}
ssize_t readv(int fd, const struct iovec *v, int c) {
  if (!on() || !FD_OK(fd) || tracked[fd] != 1) return syscall(SYS_readv, fd, v, c);
  ssize_t t = 0;
  for (int i = 0; i < c; i++) { ssize_t r = do_read(fd, v[i].iov_base, v[i].iov_len, -1); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; }
  return t;
}
/* bulk copies: make callers fall back to read/write, which are simulated */
ssize_t sendfile64(int o, int i, off64_t *p, size_t n) { if (on()) { errno = EINVAL; return -1; } return syscall(SYS_sendfile, o, i, p, n); }
ssize_t sendfile(int o, int i, off_t *p, size_t n) { return sendfile64(o, i, p, n); }
ssize_t copy_file_range(int i, off64_t *a, int o, off64_t *b, size_t n, unsigned f) { if (on()) { errno = ENOSYS; return -1; } return syscall(SYS_copy_file_range, i, a, o, b, n, f); }

int close(int fd) {
  if (!on() || !FD_OK(fd) || !tracked[fd]) return sys3(SYS_close, fd, 0, 0);
  if (fd == ctrl) { errno = EBADF; return -1; }
  struct rep rp = rpc(OP_CLOSE, fd, 0, 0, 0, 0);
  int r = sys3(SYS_close, fd, 0, 0); tracked[fd] = 0;
  if (rp.action == A_CRASH_PART || rp.action == A_CRASH_AFTER) die();
  if (rp.action == A_FAIL) { errno = rp.err; done(-1); return -1; }
  done(r); return r;
}
int dup(int fd) { int r = sys3(SYS_dup, fd, 0, 0); if (on() && FD_OK(fd) && FD_OK(r)) tracked[r] = tracked[fd]; return r; }
int dup2(int a, int b) { int r = sys3(SYS_dup2, a, b, 0); if (on() && FD_OK(a) && FD_OK(r)) tracked[r] = tracked[a]; return r; }
int dup3(int a, int b, int f) { int r = sys3(SYS_dup3, a, b, f); if (on() && FD_OK(a) && FD_OK(r)) tracked[r] = tracked[a]; return r; }

/* ---------------------------------------------------------------- metadata */
#define PATHOP(dfd, p, OP, A, B, CALL, WRITES) do { \
  char ap_[PATH_MAX]; \
  if (!on()) return CALL; \
  int in_ = norm(dfd, p, ap_); \
  if (!in_) { if (WRITES) { rpc(OP_ESCAPE, -1, OP, 0, ap_, 0); errno = EACCES; return -1; } return CALL; } \
  struct rep rp_ = rpc(OP, -1, A, B, ap_, 0); \
  if (rp_.action == A_FAIL) { errno = rp_.err; done(-1); return -1; } \
  int rr_ = CALL; \
  if (rp_.action == A_CRASH_PART || rp_.action == A_CRASH_AFTER) die(); \
  done(rr_); return rr_; } while (0)

int stat64(const char *p, struct stat64 *s) { PATHOP(AT_FDCWD, p, OP_STAT, 0, 0, syscall(SYS_newfstatat, AT_FDCWD, p, s, 0), 0); }
int stat(const char *p, struct stat *s) { return stat64(p, (struct stat64 *)s); }
int lstat64(const char *p, struct stat64 *s) { PATHOP(AT_FDCWD, p, OP_STAT, 1, 0, syscall(SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW), 0); }
int lstat(const char *p, struct stat *s) { return lstat64(p, (struct stat64 *)s); }
int fstatat64(int d, const char *p, struct stat64 *s, int f) { if (p && !*p) return syscall(SYS_newfstatat, d, p, s, f); PATHOP(d, p, OP_STAT, 2, f, syscall(SYS_newfstatat, d, p, s, f), 0); }
int fstatat(int d, const char *p, struct stat *s, int f) { return fstatat64(d, p, (struct stat64 *)s, f); }
int fstat64(int fd, struct stat64 *s) {
  if (!on() || !FD_OK(fd) || tracked[fd] != 1) return syscall(SYS_fstat, fd, s);
  struct rep rp = rpc(OP_FSTAT, fd, 0, 0, 0, 0);
  if (rp.action == A_FAIL) { errno = rp.err; done(-1); return -1; }
  int r = syscall(SYS_fstat, fd, s);
  if (rp.action == A_CRASH_PART || rp.action == A_CRASH_AFTER) die();
  done(r); return r;
}
int fstat(int fd, struct stat *s) { return fstat64(fd, (struct stat64 *)s); }
int access(const char *p, int m) { PATHOP(AT_FDCWD, p, OP_ACCESS, m, 0, syscall(SYS_faccessat, AT_FDCWD, p, m), 0); }
int faccessat(int d, const char *p, int m, int f) { PATHOP(d, p, OP_ACCESS, m, f, syscall(SYS_faccessat, d, p, m), 0); }
int mkdir(const char *p, mode_t m) { PATHOP(AT_FDCWD, p, OP_MKDIR, m, 0, syscall(SYS_mkdir, p, m), 1); }
int mkdirat(int d, const char *p, mode_t m) { PATHOP(d, p, OP_MKDIR, m, 0, syscall(SYS_mkdirat, d, p, m), 1); }
int rmdir(const char *p) { PATHOP(AT_FDCWD, p, OP_RMDIR, 0, 0, syscall(SYS_rmdir, p), 1); }
int unlink(const char *p) { PATHOP(AT_FDCWD, p, OP_UNLINK, 0, 0, syscall(SYS_unlink, p), 1); }
int unlinkat(int d, const char *p, int f) { PATHOP(d, p, OP_UNLINK, f, 0, syscall(SYS_unlinkat, d, p, f), 1); }
int remove(const char *p) { struct stat64 s; if (syscall(SYS_newfstatat, AT_FDCWD, p, &s, AT_SYMLINK_NOFOLLOW) == 0 && S_ISDIR(s.st_mode)) return rmdir(p); return unlink(p); }
int truncate64(const char *p, off64_t l) { PATHOP(AT_FDCWD, p, OP_TRUNC, l, 0, syscall(SYS_truncate, p, l), 1); }
int truncate(const char *p, off_t l) { return truncate64(p, l); }
int ftruncate64(int fd, off64_t l) {
  if (!on() || !FD_OK(fd) || tracked[fd] != 1) return syscall(SYS_ftruncate, fd, l);
  struct rep rp = rpc(OP_FTRUNC, fd, l, 0, 0, 0);
  if (rp.action == A_FAIL) { errno = rp.err; done(-1); return -1; }
  int r = syscall(SYS_ftruncate, fd, l);
  if (rp.action == A_CRASH_PART || rp.action == A_CRASH_AFTER) die();
  done(r); return r;
}
int ftruncate(int fd, off_t l) { return ftruncate64(fd, l); }
int fsync(int fd) {
  if (!on() || !FD_OK(fd) || tracked[fd] != 1) return sys3(SYS_fsync, fd, 0, 0);
  struct rep rp = rpc(OP_FSYNC, fd, 0, 0, 0, 0);
  if (rp.action == A_FAIL) { errno = rp.err; done(-1); return -1; }
  if (rp.action == A_CRASH_PART || rp.action == A_CRASH_AFTER) die();
  done(0); return 0;
}
int fdatasync(int fd) { return fsync(fd); }
int chmod(const char *p, mode_t m) { PATHOP(AT_FDCWD, p, OP_CHMOD, m, 0, syscall(SYS_chmod, p, m), 1); }
int fchmodat(int d, const char *p, mode_t m, int f) { (void)f; PATHOP(d, p, OP_CHMOD, m, 0, syscall(SYS_fchmodat, d, p, m), 1); }
int utimensat(int d, const char *p, const struct timespec t[2], int f) { if (!p) return syscall(SYS_utimensat, d, p, t, f); PATHOP(d, p, OP_UTIME, 0, 0, syscall(SYS_utimensat, d, p, t, f), 1); }
ssize_t readlink(const char *p, char *b, size_t n) { PATHOP(AT_FDCWD, p, OP_READLINK, 0, 0, syscall(SYS_readlink, p, b, n), 0); }
int symlink(const char *t, const char *p) { PATHOP(AT_FDCWD, p, OP_SYMLINK, 0, 0, syscall(SYS_symlink, t, p), 1); }
int symlinkat(const char *t, int d, const char *p) { PATHOP(d, p, OP_SYMLINK, 0, 0, syscall(SYS_symlinkat, t, d, p), 1); }
int mkfifo(const char *p, mode_t m) { PATHOP(AT_FDCWD, p, OP_MKDIR, m, 1, syscall(SYS_mknod, p, m | S_IFIFO, 0), 1); }
int mknod(const char *p, mode_t m, dev_t v) { PATHOP(AT_FDCWD, p, OP_MKDIR, m, 2, syscall(SYS_mknod, p, m, v), 1); }
static int do_two(int op, int d1, const char *p1, int d2, const char *p2, int flags) {
  char a1[PATH_MAX], a2[PATH_MAX];
  if (on()) {
    int i1 = norm(d1, p1, a1), i2 = norm(d2, p2, a2);
    if (!i1 || !i2) { rpc(OP_ESCAPE, -1, op, 0, i1 ? a2 : a1, 0); errno = EACCES; return -1; }
    struct rep rp = rpc(op, -1, flags, 0, a1, a2);
    if (rp.action == A_FAIL) { errno = rp.err; done(-1); return -1; }
    int r = op == OP_RENAME ? syscall(SYS_renameat2, d1, p1, d2, p2, flags) : syscall(SYS_linkat, d1, p1, d2, p2, flags);
    if (rp.action == A_CRASH_PART || rp.action == A_CRASH_AFTER) die();
    done(r); return r;
  }
  return op == OP_RENAME ? syscall(SYS_renameat2, d1, p1, d2, p2, flags) : syscall(SYS_linkat, d1, p1, d2, p2, flags);
}
int rename(const char *a, const char *b) { return do_two(OP_RENAME, AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int d, const char *a, int e, const char *b) { return do_two(OP_RENAME, d, a, e, b, 0); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) { return do_two(OP_RENAME, d, a, e, b, f); }
int link(const char *a, const char *b) { return do_two(OP_LINK, AT_FDCWD, a, AT_FDCWD, b, 0); }
int linkat(int d, const char *a, int e, const char *b, int f) { return do_two(OP_LINK, d, a, e, b, f); }

int chdir(const char *p) { int r = sys3(SYS_chdir, (long)p, 0, 0); if (on() && !r) { if (syscall(SYS_getcwd, cwdbuf, sizeof cwdbuf) < 0) cwdbuf[0] = 0; } return r; }

/* directory listing: the order is the simulator's (a seeded permutation) */
#define MAXDIRS 64
static struct { DIR *d; struct dirent64 **v; int n, i; } dirs[MAXDIRS];
static void dir_load(DIR *d) {
  REAL(readdir64);
  int k; for (k = 0; k < MAXDIRS && dirs[k].d; k++);
  if (k == MAXDIRS) return;
  dirs[k].d = d; dirs[k].n = dirs[k].i = 0; dirs[k].v = 0;
  struct dirent64 *e;
  while ((e = r_readdir64(d))) {
    dirs[k].v = realloc(dirs[k].v, (dirs[k].n + 1) * sizeof(void *));
    struct dirent64 *c = malloc(sizeof *c); memcpy(c, e, e->d_reclen); dirs[k].v[dirs[k].n++] = c;
  }
  for (int i = 1; i < dirs[k].n; i++)               /* canonical order first */
    for (int j = i; j > 0 && strcmp(dirs[k].v[j - 1]->d_name, dirs[k].v[j]->d_name) > 0; j--) { void *t = dirs[k].v[j]; dirs[k].v[j] = dirs[k].v[j - 1]; dirs[k].v[j - 1] = t; }
  uint64_t save = rngstate; rngstate = dirseed;
  for (int i = dirs[k].n - 1; i > 0; i--) { int j = rnd64() % (i + 1); void *t = dirs[k].v[j]; dirs[k].v[j] = dirs[k].v[i]; dirs[k].v[i] = t; }
  rngstate = save;
}
DIR *opendir(const char *p) {
  REAL(opendir); char ap[PATH_MAX];
  if (!on() || !norm(AT_FDCWD, p, ap)) return r_opendir(p);
  struct rep rp = rpc(OP_OPENDIR, -1, 0, 0, ap, 0);
  if (rp.action == A_FAIL) { errno = rp.err; done(-1); return NULL; }
  DIR *d = r_opendir(p); if (rp.action == A_CRASH_PART || rp.action == A_CRASH_AFTER) die(); done(d ? 0 : -1); if (d) dir_load(d); return d;
}
DIR *fdopendir(int fd) {
  REAL(fdopendir);
  if (!on() || !FD_OK(fd) || tracked[fd] != 1) return r_fdopendir(fd);
  struct rep rp = rpc(OP_OPENDIR, fd, 0, 0, 0, 0);
  if (rp.action == A_FAIL) { errno = rp.err; done(-1); return NULL; }
  tracked[fd] = 0; DIR *d = r_fdopendir(fd); done(d ? 0 : -1); if (d) dir_load(d); return d;
}
struct dirent64 *readdir64(DIR *d) {
  REAL(readdir64);
  if (on()) for (int k = 0; k < MAXDIRS; k++) if (dirs[k].d == d) return dirs[k].i < dirs[k].n ? dirs[k].v[dirs[k].i++] : NULL;
  return r_readdir64(d);
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
void rewinddir(DIR *d) { REAL(rewinddir); if (on()) for (int k = 0; k < MAXDIRS; k++) if (dirs[k].d == d) dirs[k].i = 0; r_rewinddir(d); }
int closedir(DIR *d) { REAL(closedir); for (int k = 0; k < MAXDIRS; k++) if (d && dirs[k].d == d) { for (int i = 0; i < dirs[k].n; i++) free(dirs[k].v[i]); free(dirs[k].v); dirs[k].d = NULL; dirs[k].v = NULL; } return r_closedir(d); }

/* stdio opened by native code */
FILE *fopen64(const char *p, const char *m) {
  REAL(fopen64); char ap[PATH_MAX];
  if (on()) {
    int in = norm(AT_FDCWD, p, ap);
    if (in) { struct rep rp = rpc(OP_OPEN, -1, strpbrk(m, "wa+") ? O_RDWR | O_CREAT : O_RDONLY, 0, ap, 0); if (rp.action == A_FAIL) { errno = rp.err; return NULL; } }
    else if (strpbrk(m, "wa+") && !isdev(ap)) { rpc(OP_ESCAPE, -1, OP_OPEN, 0, ap, 0); errno = EACCES; return NULL; }
  }
  return r_fopen64(p, m);
}
FILE *fopen(const char *p, const char *m) { return fopen64(p, m); }

/* ---------------------------------------------------------------- locks, processes, threads */
int flock(int fd, int op) {
  if (!on()) return sys3(SYS_flock, fd, op, 0);
  for (;;) {
    rpc(OP_LOCK, fd, op, 0, 0, 0);
    int r = sys3(SYS_flock, fd, op | LOCK_NB, 0);
    if (r == 0 || errno != EWOULDBLOCK || (op & LOCK_NB)) { done(r); return r; }
  }
}
static int do_fcntl(int fd, int cmd, long arg) {
  if (!on()) return sys3(SYS_fcntl, fd, cmd, arg);
  if (cmd == F_SETLKW || cmd == F_OFD_SETLKW) {
    for (;;) {
      rpc(OP_LOCK, fd, cmd, 0, 0, 0);
      int r = sys3(SYS_fcntl, fd, cmd == F_SETLKW ? F_SETLK : F_OFD_SETLK, arg);
      if (r == 0 || (errno != EAGAIN && errno != EACCES)) { done(r); return r; }
    }
  }
  int r = sys3(SYS_fcntl, fd, cmd, arg);
  if ((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && FD_OK(fd) && FD_OK(r)) tracked[r] = tracked[fd];
  return r;
}
int fcntl(int fd, int cmd, ...) { va_list v; va_start(v, cmd); long a = va_arg(v, long); va_end(v); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list v; va_start(v, cmd); long a = va_arg(v, long); va_end(v); return do_fcntl(fd, cmd, a); }
int lockf64(int fd, int cmd, off64_t len) {
  REAL(lockf64);
  if (!on()) return r_lockf64(fd, cmd, len);
  for (;;) { rpc(OP_LOCK, fd, cmd, 0, 0, 0); int r = r_lockf64(fd, cmd == F_LOCK ? F_TLOCK : cmd, len); if (r == 0 || cmd != F_LOCK || (errno != EAGAIN && errno != EACCES)) { done(r); return r; } }
}
pid_t fork(void) { REAL(fork); if (!on()) return r_fork(); rpc(OP_SPAWN, -1, 0, 0, 0, 0); errno = EAGAIN; return -1; }
pid_t vfork(void) { if (!on()) { REAL(fork); return r_fork(); } rpc(OP_SPAWN, -1, 1, 0, 0, 0); errno = EAGAIN; return -1; }
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) { REAL(pthread_create); if (on()) rpc(OP_THREAD, -1, 0, 0, 0, 0); return r_pthread_create(t, a, f, x); }

/* ---------------------------------------------------------------- clocks, sleeping */
static void put(int64_t v, struct timespec *t) { t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; if (t->tv_nsec < 0) { t->tv_nsec += 1000000000; t->tv_sec--; } }
int clock_gettime(clockid_t c, struct timespec *t) {
  if (!on()) return sys3(SYS_clock_gettime, c, (long)t, 0);
  t_mono += 1000; t_real += 1000;
  put(c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? t_real : t_mono, t);
  return 0;
}
int gettimeofday(struct timeval *tv, void *z) {
  (void)z; struct timespec t; clock_gettime(CLOCK_REALTIME, &t);
  tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0;
}
time_t time(time_t *p) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
clock_t clock(void) { struct timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec * CLOCKS_PER_SEC + t.tv_nsec / 1000; }
static int sim_sleep(int64_t ns) { rpc(OP_SLEEP, -1, ns, 0, 0, 0); return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) { if (!on()) return sys3(SYS_nanosleep, (long)a, (long)b, 0); return sim_sleep(a->tv_sec * 1000000000ll + a->tv_nsec); }
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) {
  if (!on()) { long r = syscall(SYS_clock_nanosleep, c, f, a, b); return r < 0 ? errno : 0; }
  int64_t v = a->tv_sec * 1000000000ll + a->tv_nsec;
  if (f & TIMER_ABSTIME) v -= c == CLOCK_REALTIME ? t_real : t_mono;
  return sim_sleep(v < 0 ? 0 : v);
}
int usleep(useconds_t u) { if (!on()) { struct timespec t = { u / 1000000, (u % 1000000) * 1000 }; return sys3(SYS_nanosleep, (long)&t, 0, 0); } return sim_sleep(u * 1000ll); }
unsigned sleep(unsigned s) { if (!on()) { struct timespec t = { s, 0 }; sys3(SYS_nanosleep, (long)&t, 0, 0); return 0; } sim_sleep(s * 1000000000ll); return 0; }

/* ---------------------------------------------------------------- entropy, identity, locale */
ssize_t getrandom(void *b, size_t n, unsigned f) {
  if (!on()) return sys3(SYS_getrandom, (long)b, n, f);
  for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = rnd64();
  return n;
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) < 0 ? -1 : 0; }
uint32_t arc4random(void) { uint32_t v; getrandom(&v, sizeof v, 0); return v; }
void arc4random_buf(void *b, size_t n) { getrandom(b, n, 0); }
pid_t getpid(void) { return on() ? simpid : syscall(SYS_getpid); }
pid_t getppid(void) { return on() ? 1 : syscall(SYS_getppid); }
int gethostname(char *b, size_t n) { if (on()) { snprintf(b, n, "%s", simhost); return 0; } struct utsname u; if (sys3(SYS_uname, (long)&u, 0, 0) < 0) return -1; snprintf(b, n, "%s", u.nodename); return 0; }
int uname(struct utsname *u) { int r = sys3(SYS_uname, (long)u, 0, 0); if (!r && on()) snprintf(u->nodename, sizeof u->nodename, "%s", simhost); return r; }
char *nl_langinfo(nl_item i) { REAL(nl_langinfo); if (on() && i == CODESET && codeset[0]) return codeset; return r_nl_langinfo(i); }
