/* LD_PRELOAD shim for the real cdx binary.
 *
 * 1. Fork server.  When MC_FORKSRV is set, the constructor does not return in the
 *    server process: it reads requests on fd 198, forks, and lets the child fall
 *    through into the unmodified program with a fresh argv / stdin / stdout / stderr.
 *    (argc is patched on the initial process stack, which is where _start reads it.)
 * 2. Environment model.  read()/write() on chosen descriptors are answered according
 *    to an explicit plan (short reads, EINTR, error at the k-th call, write budget),
 *    so the harness enumerates the environment's answers exhaustively.
 *
 * Request  : u32 total length, then u32 nargs, nargs x (u32 len, bytes), u32 nplan, nplan x u32
 * Response : i32 wait status, u32 nread_calls, u32 nwrite_calls (via shared page)
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>
#include <sys/syscall.h>

#define MAXARGS 1100

/* plan slots */
enum {
  P_TIMEOUT = 0, /* seconds */
  P_RCHUNK,      /* max bytes per read() (0 = unlimited) */
  P_RFIRST,      /* max bytes of the first read on each fd (0 = unlimited) */
  P_REINTR,      /* every n-th read returns EINTR first (0 = never) */
  P_RFAIL,       /* 1-based index of data read that fails (0 = never) */
  P_WCHUNK,      /* max bytes per write (0 = unlimited) */
  P_WEINTR,      /* every n-th write returns EINTR */
  P_WFAIL,       /* 1-based index of data write that fails (0 = never) */
  P_WERR,        /* errno for the failing write */
  P_WBUDGET,     /* total bytes accepted before failing + 1 (0 = unlimited) */
  P_WFD,         /* 0: all data fds; 1: stdout only; 2: non-std fds only */
  P_RFD,         /* 0: all data fds; 1: stdin only; 2: non-std fds only */
  P_RPAT,        /* bitmask pattern: bit i of read number i => 1 byte only (0 = off) */
  P_RPATN,       /* number of valid bits in pattern (reads beyond: unlimited) */
  P_CUTS,        /* bit i: no read crosses offset i+1 of its file (0 = off) */
  P_CUTBASE,     /* offset added to the positions in P_CUTS */
  P_WSCOL,       /* the terminal on stderr has this many columns (0 = not a terminal) */
  P_WSROW,       /* ... and rows */
  P_RERR,        /* errno for the failing read (0 = EIO) */
  NPLAN
};

static uint32_t plan[NPLAN];
static int active = 0;

struct shared { uint32_t nread, nwrite, wbytes, rfailed, wfailed, opens; };
static struct shared *sh;
static struct shared dummy;

int ioctl(int fd, unsigned long req, ...) {
  va_list ap;
  va_start(ap, req);
  void *arg = va_arg(ap, void *);
  va_end(ap);
  if (req == TIOCGWINSZ && plan[P_WSCOL] && fd == 2) {
    struct winsize *w = arg;
    memset(w, 0, sizeof *w);
    w->ws_col = plan[P_WSCOL];
    w->ws_row = plan[P_WSROW];
    return 0;
  }
  return syscall(SYS_ioctl, fd, req, arg);
}

static void xread(int fd, void *b, size_t n) {
  char *p = b;
  while (n) {
    ssize_t k = syscall(SYS_read, fd, p, n);
    if (k <= 0) { if (k < 0 && errno == EINTR) continue; _exit(0); }
    p += k; n -= k;
  }
}
static void xwrite(int fd, const void *b, size_t n) {
  const char *p = b;
  while (n) {
    ssize_t k = syscall(SYS_write, fd, p, n);
    if (k < 0) { if (errno == EINTR) continue; _exit(0); }
    p += k; n -= k;
  }
}

/* which fds carry data we control: set by the open/openat wrappers + std fds */
#define MAXFD 256
static unsigned char is_data[MAXFD];
static unsigned char seen_first[MAXFD];
static size_t rpos[MAXFD];

static int wr_fd(int fd) {
  if (!active || fd < 0 || fd >= MAXFD) return 0;
  if (fd == 2) return 0;
  if (plan[P_WFD] == 1) return fd == 1;
  if (plan[P_WFD] == 2) return fd > 2 && is_data[fd];
  return fd == 1 || (fd > 2 && is_data[fd]);
}
static int rd_fd(int fd) {
  if (!active || fd < 0 || fd >= MAXFD) return 0;
  if (plan[P_RFD] == 1) return fd == 0;
  if (plan[P_RFD] == 2) return fd > 2 && is_data[fd];
  return fd == 0 || (fd > 2 && is_data[fd]);
}

ssize_t read(int fd, void *buf, size_t n) {
  if (!rd_fd(fd) || n == 0) return syscall(SYS_read, fd, buf, n);
  uint32_t k = ++sh->nread;
  if (plan[P_REINTR] && k % plan[P_REINTR] == 0) { errno = EINTR; return -1; }
  if (plan[P_RFAIL] && k == plan[P_RFAIL]) { sh->rfailed = 1; errno = plan[P_RERR] ? (int)plan[P_RERR] : EIO; return -1; }
  if (plan[P_RPATN] && k <= plan[P_RPATN]) {
    if ((plan[P_RPAT] >> (k - 1)) & 1) n = 1;
  } else if (!seen_first[fd] && plan[P_RFIRST]) {
    if (n > plan[P_RFIRST]) n = plan[P_RFIRST];
  } else if (plan[P_RCHUNK] && n > plan[P_RCHUNK]) n = plan[P_RCHUNK];
  seen_first[fd] = 1;
  if (plan[P_CUTS]) {
    for (int i = 0; i < 32; i++) {
      size_t c = (size_t)plan[P_CUTBASE] + i + 1;
      if (((plan[P_CUTS] >> i) & 1) && c > rpos[fd]) { if (n > c - rpos[fd]) n = c - rpos[fd]; break; }
    }
  }
  ssize_t r = syscall(SYS_read, fd, buf, n);
  if (r > 0) rpos[fd] += r;
  return r;
}
static ssize_t do_write(int fd, const void *buf, size_t n) {
  uint32_t k = ++sh->nwrite;
  if (plan[P_WEINTR] && k % plan[P_WEINTR] == 0) { errno = EINTR; return -1; }
  if (plan[P_WFAIL] && k >= plan[P_WFAIL]) { sh->wfailed = 1; errno = plan[P_WERR] ? plan[P_WERR] : ENOSPC; return -1; }
  if (plan[P_WCHUNK] && n > plan[P_WCHUNK]) n = plan[P_WCHUNK];
  if (plan[P_WBUDGET]) {
    uint32_t left = plan[P_WBUDGET] - 1 - sh->wbytes;
    if (left == 0) { sh->wfailed = 1; errno = plan[P_WERR] ? plan[P_WERR] : ENOSPC; return -1; }
    if (n > left) n = left;
  }
  ssize_t r = syscall(SYS_write, fd, buf, n);
  if (r > 0) sh->wbytes += r;
  return r;
}
ssize_t write(int fd, const void *buf, size_t n) {
  if (!wr_fd(fd) || n == 0) return syscall(SYS_write, fd, buf, n);
  return do_write(fd, buf, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!wr_fd(fd)) return syscall(SYS_writev, fd, v, c);
  for (int i = 0; i < c; i++)
    if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
/* Force the portable read/write paths so that the plan is always honoured. */
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) {
  if (active) { errno = ENOSYS; return -1; }
  return syscall(SYS_copy_file_range, a, b, c, d, e, f);
}
ssize_t sendfile64(int a, int b, off64_t *c, size_t d) {
  if (active) { errno = EINVAL; return -1; }
  return syscall(SYS_sendfile, a, b, c, d);
}
ssize_t sendfile(int a, int b, off_t *c, size_t d) { return sendfile64(a, b, (off64_t *)c, d); }
ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) {
  if (active) { errno = EINVAL; return -1; }
  return syscall(SYS_splice, a, b, c, d, e, f);
}
static int note(int fd, const char *path) {
  if (active && fd >= 0 && fd < MAXFD) {
    /* only regular data files: not /proc, /sys, /etc, /dev/urandom ... */
    is_data[fd] = !(strncmp(path, "/proc", 5) == 0 || strncmp(path, "/sys", 4) == 0 ||
                    strncmp(path, "/etc", 4) == 0 || strncmp(path, "/usr", 4) == 0 ||
                    strncmp(path, "/lib", 4) == 0);
    seen_first[fd] = 0;
    rpos[fd] = 0;
    sh->opens++;
  }
  return fd;
}
#include <stdarg.h>
#define OPENBODY(fn)                                                         \
  mode_t m = 0;                                                              \
  if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } \
  fn
int open64(const char *p, int flags, ...) { OPENBODY(return note(syscall(SYS_openat, AT_FDCWD, p, flags | O_LARGEFILE, m), p);) }
int open(const char *p, int flags, ...) { OPENBODY(return note(syscall(SYS_openat, AT_FDCWD, p, flags, m), p);) }

static char *newargs[MAXARGS + 1];
static char argbuf[1 << 20];

__attribute__((constructor)) static void mc_init(int argc, char **argv, char **envp) {
  (void)envp;
  sh = &dummy;
  if (!getenv("MC_FORKSRV")) return;
  sh = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  unsetenv("LD_PRELOAD");
  unsetenv("MC_FORKSRV");
  int maxargs = argc; /* slots physically available */
  for (;;) {
    uint32_t total;
    xread(198, &total, 4);
    if (total > sizeof argbuf) _exit(3);
    xread(198, argbuf, total);
    memset(sh, 0, sizeof *sh);
    pid_t pid = fork();
    if (pid == 0) {
      char *p = argbuf;
      uint32_t na, np;
      memcpy(&na, p, 4); p += 4;
      if ((int)na > maxargs) _exit(4);
      for (uint32_t i = 0; i < na; i++) {
        uint32_t l; memcpy(&l, p, 4); p += 4;
        newargs[i] = malloc(l + 1);
        memcpy(newargs[i], p, l); newargs[i][l] = 0; p += l;
      }
      memcpy(&np, p, 4); p += 4;
      memset(plan, 0, sizeof plan);
      for (uint32_t i = 0; i < np && i < NPLAN; i++) { memcpy(&plan[i], p, 4); p += 4; }
      /* newargs[0..3] = stdin path, stdout path, stderr path, cwd; the rest is argv */
      int i0 = syscall(SYS_openat, AT_FDCWD, newargs[0], O_RDONLY, 0);
      int o = syscall(SYS_openat, AT_FDCWD, newargs[1], O_WRONLY | O_CREAT | O_TRUNC, 0644);
      int e = syscall(SYS_openat, AT_FDCWD, newargs[2], O_WRONLY | O_CREAT | O_TRUNC, 0644);
      if (i0 < 0 || o < 0 || e < 0) _exit(5);
      dup2(i0, 0); dup2(o, 1); dup2(e, 2);
      close(i0); close(o); close(e); close(198); close(199);
      if (newargs[3][0] && chdir(newargs[3])) _exit(6);
      for (uint32_t i = 4; i < na; i++) argv[i - 4] = newargs[i];
      argv[na - 4] = 0;
      ((long *)argv)[-1] = na - 4;
      struct rlimit rl = {0, 0};
      setrlimit(RLIMIT_CORE, &rl);
      alarm(plan[P_TIMEOUT] ? plan[P_TIMEOUT] : 20);
      active = 1;
      return;
    }
    int st = -1;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    struct { int32_t st; struct shared s; } resp;
    resp.st = st; resp.s = *sh;
    xwrite(199, &resp, sizeof resp);
  }
}
