/* LD_PRELOAD seam between a tool and the file system.
 *
 * Once shim_on(fd, root) is called, every file operation of the process on a path under root is announced on fd (one
 * datagram per event) and carried out as the simulator answers:
 *   G        carry it out              E <errno>  fail with errno, nothing done
 *   S <n>    transfer at most n bytes  K          be killed here (SIGKILL), nothing done
 *   I        carry it out after an interrupt (SIGINT) has arrived
 *   F <errno> (close) close, then report errno
 *   D <seed> (listing) carry it out, entries in the order given by the seed
 * Operations that would change anything outside root (or /dev) are refused and announced as "escape": the stand-in for what
 * a broken tool might destroy.
 */
#define _GNU_SOURCE
#undef _FILE_OFFSET_BITS
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static int ctl = -1;
static char root[PATH_MAX];
static size_t rootlen;
static pid_t owner;
#define MAXFD 1024
static char *fdpath[MAXFD];
static int fdwr[MAXFD];

#define REAL(name) (__extension__({ static __typeof__(&name) f; if (!f) f = (__typeof__(&name))dlsym(RTLD_NEXT, #name); f; }))

int shim_on(int fd, const char *r) {
  ctl = fd;
  rootlen = strlen(r);
  memcpy(root, r, rootlen + 1);
  owner = getpid();
  return 0;
}
void shim_off(void) { ctl = -1; }

static int active(void) { return ctl >= 0 && syscall(SYS_getpid) == owner; }

/* absolute, without . and .. and double slashes (the scratch tree has no symbolic links to directories) */
static void norm(int dirfd, const char *p, char *out) {
  char b[2 * PATH_MAX], *o = out;
  if (p[0] == '/') snprintf(b, sizeof b, "%s", p);
  else if (dirfd != AT_FDCWD && dirfd >= 0 && dirfd < MAXFD && fdpath[dirfd]) snprintf(b, sizeof b, "%s/%s", fdpath[dirfd], p);
  else {
    char cwd[PATH_MAX];
    if (!getcwd(cwd, sizeof cwd)) cwd[0] = 0;
    snprintf(b, sizeof b, "%s/%s", cwd, p);
  }
  *o = 0;
  for (char *s = b; *s;) {
    while (*s == '/') s++;
    char *e = s;
    while (*e && *e != '/') e++;
    size_t n = e - s;
    if (n == 2 && s[0] == '.' && s[1] == '.') {
      while (o > out && *--o != '/') {}
      *o = 0;
    } else if (n && !(n == 1 && s[0] == '.')) {
      if ((size_t)(o - out) + n + 2 < PATH_MAX) { *o++ = '/'; memcpy(o, s, n); o += n; *o = 0; }
    }
    s = e;
  }
  if (!*out) strcpy(out, "/");
}
static int inside(const char *p) { return !strncmp(p, root, rootlen) && (p[rootlen] == '/' || !p[rootlen]); }

struct ans { char k; long n; };
static struct ans ask(const char *fmt, ...) {
  char m[3 * PATH_MAX], r[64];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(m, sizeof m, fmt, ap);
  va_end(ap);
  struct ans a = {'G', 0};
  if (send(ctl, m, n, MSG_NOSIGNAL) < 0) { REAL(_exit)(99); }
  ssize_t k = recv(ctl, r, sizeof r - 1, 0);
  if (k <= 0) REAL(_exit)(99);
  r[k] = 0;
  a.k = r[0];
  if (k > 2) a.n = atol(r + 2);
  if (a.k == 'K') { kill(syscall(SYS_getpid), SIGKILL); for (;;) pause(); }
  if (a.k == 'I') { raise(SIGINT); a.k = 'G'; }
  return a;
}
/* may this path be changed? asks about escapes */
static int outside_refused(const char *op, const char *p) {
  if (inside(p) || !strncmp(p, "/dev/", 5)) return 0;
  ask("escape %s %s", op, p);
  errno = EACCES;
  return 1;
}

static void setfd(int fd, const char *p, int wr) {
  if (fd < 0 || fd >= MAXFD) return;
  free(fdpath[fd]);
  fdpath[fd] = p ? strdup(p) : 0;
  fdwr[fd] = wr;
}

static int do_open(int dirfd, const char *path, int flags, mode_t mode, int *done) {
  *done = 0;
  if (!active()) return -1;
  char p[PATH_MAX];
  norm(dirfd, path, p);
  int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  if ((flags & O_TMPFILE) == O_TMPFILE) wr = 1;
  if (wr && outside_refused("open", p)) { *done = 1; return -1; }
  if (!inside(p)) return -1;
  struct ans a = ask("open %s%s%s%s%s %s", wr ? "w" : "r", flags & O_CREAT ? "c" : "", flags & O_TRUNC ? "t" : "", flags & O_EXCL ? "x" : "", flags & O_APPEND ? "a" : "", p);
  *done = 1;
  if (a.k == 'E') { errno = a.n; return -1; }
  int fd = syscall(SYS_openat, dirfd, path, flags, mode);
  if (fd >= 0) setfd(fd, p, wr);
  return fd;
}
#define OPENMODE(flags) mode_t mode = 0; if ((flags) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *path, int flags, ...) {
  OPENMODE(flags)
  int d, r = do_open(AT_FDCWD, path, flags, mode, &d);
  return d ? r : (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
}
int open64(const char *path, int flags, ...) {
  OPENMODE(flags)
  int d, r = do_open(AT_FDCWD, path, flags, mode, &d);
  return d ? r : (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
}
int openat(int dirfd, const char *path, int flags, ...) {
  OPENMODE(flags)
  int d, r = do_open(dirfd, path, flags, mode, &d);
  return d ? r : (int)syscall(SYS_openat, dirfd, path, flags, mode);
}
int openat64(int dirfd, const char *path, int flags, ...) {
  OPENMODE(flags)
  int d, r = do_open(dirfd, path, flags, mode, &d);
  return d ? r : (int)syscall(SYS_openat, dirfd, path, flags, mode);
}
int creat(const char *path, mode_t mode) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
FILE *fopen(const char *path, const char *m) {
  if (!active()) return REAL(fopen)(path, m);
  int fl = m[0] == 'r' ? O_RDONLY : m[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
  if (strchr(m, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR;
  int fd = open(path, fl | O_CLOEXEC, 0666);
  return fd < 0 ? 0 : fdopen(fd, m);
}
FILE *fopen64(const char *path, const char *m) { return fopen(path, m); }

#define TRACKED(fd) (active() && (fd) >= 0 && (fd) < MAXFD && fdpath[fd])
ssize_t write(int fd, const void *b, size_t n) {
  if (TRACKED(fd) && n) {
    struct ans a = ask("write %zu %s", n, fdpath[fd]);
    if (a.k == 'E') { errno = a.n; return -1; }
    if (a.k == 'S' && (size_t)a.n < n) n = a.n;
  }
  return syscall(SYS_write, fd, b, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  if (TRACKED(fd) && n) {
    struct ans a = ask("write %zu %s", n, fdpath[fd]);
    if (a.k == 'E') { errno = a.n; return -1; }
    if (a.k == 'S' && (size_t)a.n < n) n = a.n;
  }
  return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (TRACKED(fd)) {
    size_t n = 0;
    for (int i = 0; i < c; i++) n += v[i].iov_len;
    struct ans a = ask("write %zu %s", n, fdpath[fd]);
    if (a.k == 'E') { errno = a.n; return -1; }
    if (a.k == 'S') { /* one element, cut */
      for (int i = 0; i < c; i++) if (v[i].iov_len) return syscall(SYS_write, fd, v[i].iov_base, (size_t)a.n < v[i].iov_len ? (size_t)a.n : v[i].iov_len);
    }
  }
  return syscall(SYS_writev, fd, v, c);
}
ssize_t read(int fd, void *b, size_t n) {
  if (TRACKED(fd) && n) {
    struct ans a = ask("read %s", fdpath[fd]);
    if (a.k == 'E') { errno = a.n; return -1; }
    if (a.k == 'S' && (size_t)a.n < n && a.n > 0) n = a.n;
  }
  return syscall(SYS_read, fd, b, n);
}
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned f) {
  if (TRACKED(out) || TRACKED(in)) { errno = EXDEV; return -1; }
  return syscall(SYS_copy_file_range, in, oi, out, oo, n, f);
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) {
  if (TRACKED(out) || TRACKED(in)) { errno = EINVAL; return -1; }
  return syscall(SYS_sendfile, out, in, o, n);
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) { return sendfile(out, in, o, n); }
int close(int fd) {
  long e = 0;
  if (TRACKED(fd)) {
    struct ans a = ask("close %s %s", fdwr[fd] ? "w" : "r", fdpath[fd]);
    if (a.k == 'F' || a.k == 'E') e = a.n;
  }
  if (active()) setfd(fd, 0, 0); /* not in a vfork child, which shares this table */
  int r = syscall(SYS_close, fd);
  if (e) { errno = e; return -1; }
  return r;
}
static int sync_ev(int fd, int which) {
  if (TRACKED(fd)) {
    struct ans a = ask("fsync %s", fdpath[fd]);
    if (a.k == 'E') { errno = a.n; return -1; }
  }
  return syscall(which, fd);
}
int fsync(int fd) { return sync_ev(fd, SYS_fsync); }
int fdatasync(int fd) { return sync_ev(fd, SYS_fdatasync); }
int ftruncate(int fd, off_t n) {
  if (TRACKED(fd)) {
    struct ans a = ask("truncate %ld %s", (long)n, fdpath[fd]);
    if (a.k == 'E') { errno = a.n; return -1; }
  }
  return syscall(SYS_ftruncate, fd, n);
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }

/* 1: already answered with r */
static int path_ev(const char *op, int dirfd, const char *path, int *r) {
  if (!active()) return 0;
  char p[PATH_MAX];
  norm(dirfd, path, p);
  *r = -1;
  if (outside_refused(op, p)) return 1;
  if (!inside(p)) return 0;
  struct ans a = ask("%s %s", op, p);
  if (a.k == 'E') { errno = a.n; return 1; }
  return 0;
}
static int path2_ev(const char *op, int d1, const char *p1, int d2, const char *p2, int *r) {
  if (!active()) return 0;
  char a1[PATH_MAX], a2[PATH_MAX];
  norm(d1, p1, a1);
  norm(d2, p2, a2);
  *r = -1;
  if (outside_refused(op, a2)) return 1;
  if (!strcmp(op, "rename") && outside_refused(op, a1)) return 1;
  if (!inside(a1) && !inside(a2)) return 0;
  struct ans a = ask("%s %s\n%s", op, a1, a2);
  if (a.k == 'E') { errno = a.n; return 1; }
  return 0;
}
int truncate(const char *p, off_t n) { int r; return path_ev("truncate 0", AT_FDCWD, p, &r) ? r : (int)syscall(SYS_truncate, p, n); }
int truncate64(const char *p, off64_t n) { return truncate(p, n); }
int unlink(const char *p) { int r; return path_ev("unlink", AT_FDCWD, p, &r) ? r : (int)syscall(SYS_unlink, p); }
int remove(const char *p) { int r = unlink(p); return r && errno == EISDIR ? rmdir(p) : r; }
int unlinkat(int d, const char *p, int f) { int r; return path_ev(f & AT_REMOVEDIR ? "rmdir" : "unlink", d, p, &r) ? r : (int)syscall(SYS_unlinkat, d, p, f); }
int rmdir(const char *p) { int r; return path_ev("rmdir", AT_FDCWD, p, &r) ? r : (int)syscall(SYS_rmdir, p); }
int mkdir(const char *p, mode_t m) { int r; return path_ev("mkdir", AT_FDCWD, p, &r) ? r : (int)syscall(SYS_mkdir, p, m); }
int mkdirat(int d, const char *p, mode_t m) { int r; return path_ev("mkdir", d, p, &r) ? r : (int)syscall(SYS_mkdirat, d, p, m); }
int chmod(const char *p, mode_t m) { int r; return path_ev("chmod", AT_FDCWD, p, &r) ? r : (int)syscall(SYS_chmod, p, m); }
int fchmodat(int d, const char *p, mode_t m, int f) { int r; return path_ev("chmod", d, p, &r) ? r : (f ? REAL(fchmodat)(d, p, m, f) : (int)syscall(SYS_fchmodat, d, p, m)); }
int rename(const char *a, const char *b) { int r; return path2_ev("rename", AT_FDCWD, a, AT_FDCWD, b, &r) ? r : (int)syscall(SYS_rename, a, b); }
int renameat(int d, const char *a, int e, const char *b) { int r; return path2_ev("rename", d, a, e, b, &r) ? r : (int)syscall(SYS_renameat, d, a, e, b); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) { int r; return path2_ev("rename", d, a, e, b, &r) ? r : (int)syscall(SYS_renameat2, d, a, e, b, f); }
int link(const char *a, const char *b) { int r; return path2_ev("link", AT_FDCWD, a, AT_FDCWD, b, &r) ? r : (int)syscall(SYS_link, a, b); }
int linkat(int d, const char *a, int e, const char *b, int f) { int r; return path2_ev("link", d, a, e, b, &r) ? r : (int)syscall(SYS_linkat, d, a, e, b, f); }
int symlink(const char *a, const char *b) { int r; return path_ev("symlink", AT_FDCWD, b, &r) ? r : (int)syscall(SYS_symlink, a, b); }

/* listings: the entries are collected, ordered by the simulator's seed, and handed out one by one */
struct lst { DIR *d; struct dirent64 **e; size_t n, i; long fail; struct lst *next; };
static struct lst *lists;
static unsigned long long hsh(unsigned long long s, const char *p) {
  s = s * 0x9E3779B97F4A7C15ull + 0x1234567;
  while (*p) { s ^= (unsigned char)*p++; s *= 0x100000001B3ull; s ^= s >> 29; }
  s *= 0xBF58476D1CE4E5B9ull;
  return s ^ s >> 31;
}
static unsigned long long lseed;
static int cmpent(const void *a, const void *b) {
  const struct dirent64 *x = *(struct dirent64 *const *)a, *y = *(struct dirent64 *const *)b;
  unsigned long long i = hsh(lseed, x->d_name), j = hsh(lseed, y->d_name);
  return i < j ? -1 : i > j ? 1 : strcmp(x->d_name, y->d_name);
}
static DIR *listed(DIR *d, const char *p) {
  if (!d) return d;
  struct ans a = ask("list %s", p);
  if (a.k == 'E') { REAL(closedir)(d); errno = a.n; return 0; }
  struct lst *l = calloc(1, sizeof *l);
  l->d = d;
  if (a.k == 'F') l->fail = a.n; /* the listing breaks off in the middle */
  struct dirent64 *e;
  while ((e = REAL(readdir64)(d))) {
    l->e = realloc(l->e, (l->n + 1) * sizeof *l->e);
    l->e[l->n] = malloc(sizeof *e);
    memcpy(l->e[l->n], e, offsetof(struct dirent64, d_name) + strlen(e->d_name) + 1);
    l->n++;
  }
  lseed = a.k == 'D' ? a.n : 1;
  if (l->n) qsort(l->e, l->n, sizeof *l->e, cmpent);
  l->next = lists;
  lists = l;
  return d;
}
DIR *opendir(const char *path) {
  if (!active()) return REAL(opendir)(path);
  char p[PATH_MAX];
  norm(AT_FDCWD, path, p);
  if (!inside(p)) return REAL(opendir)(path);
  int fd = syscall(SYS_openat, AT_FDCWD, path, O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0);
  return fd < 0 ? 0 : listed(REAL(fdopendir)(fd), p);
}
DIR *fdopendir(int fd) {
  if (!TRACKED(fd)) return REAL(fdopendir)(fd);
  char *p = strdup(fdpath[fd]);
  DIR *d = listed(REAL(fdopendir)(fd), p);
  free(p);
  return d;
}
struct dirent64 *readdir64(DIR *d) {
  for (struct lst *l = lists; l; l = l->next)
    if (l->d == d) {
      if (l->fail && l->i >= l->n / 2) { errno = l->fail; return 0; }
      return l->i < l->n ? l->e[l->i++] : 0;
    }
  return REAL(readdir64)(d);
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int closedir(DIR *d) {
  for (struct lst **l = &lists; *l; l = &(*l)->next)
    if ((*l)->d == d) { *l = (*l)->next; break; } /* entries stay allocated: a short-lived process */
  int fd = dirfd(d);
  if (active()) setfd(fd, 0, 0);
  return REAL(closedir)(d);
}
