// The build environment of one compiler process, simulated. Preloaded into rustc: calls on files
// under the run's temporary directory, program starts, randomness and clocks go through here and
// follow the plan (file named by SIM_PLAN). Everything else is passed on.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/random.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

enum { MKDIR, OPEN, READ, WRITE, STAT, UNLINK, RMDIR, LIST, SPAWN, WAIT, OTHER, NCLASS };
static const char *NAMES[NCLASS] = {"mkdir", "open", "read", "write", "stat", "unlink", "rmdir", "list", "spawn", "wait", "other"};
enum { F_ERR, F_SHORT, F_LOST, F_TORN, F_FLIP, F_EOF, F_NEST };
#define MAXF 64
static struct { int cls, nth, kind; long arg; } faults[MAXF];
static int nfaults;
static struct { int nth, kind; long arg; } behave[MAXF];
static int nbehave;
static char tmpdir[512], logpath[512], rustfmt[512];
static size_t tmplen;
static uint64_t seed, clockoff;
static int logfd = -1, active, spawns;
static int count[NCLASS];
static _Atomic uint64_t steps;
static unsigned char rel[65536];
static char *nest_argv[32];
static char nest_env0[600], nest_env1[600];
static char *nest_envp[256];
static char planbuf[65536];
extern char **environ;
static __thread int inside;
static __thread uint64_t ticks, randoms;
static _Atomic uint64_t jumps;

#define REAL(ret, name, ...) static ret (*r_##name)(__VA_ARGS__)
REAL(int, open, const char *, int, ...);
REAL(int, openat, int, const char *, int, ...);
REAL(ssize_t, read, int, void *, size_t);
REAL(ssize_t, readv, int, const struct iovec *, int);
REAL(ssize_t, pread64, int, void *, size_t, off_t);
REAL(ssize_t, write, int, const void *, size_t);
REAL(ssize_t, writev, int, const struct iovec *, int);
REAL(ssize_t, pwrite64, int, const void *, size_t, off_t);
REAL(int, close, int);
REAL(int, mkdir, const char *, mode_t);
REAL(int, mkdirat, int, const char *, mode_t);
REAL(int, rmdir, const char *);
REAL(int, unlink, const char *);
REAL(int, unlinkat, int, const char *, int);
REAL(DIR *, opendir, const char *);
REAL(DIR *, fdopendir, int);
REAL(int, closedir, DIR *);
REAL(int, rename, const char *, const char *);
REAL(int, posix_spawn, pid_t *, const char *, const posix_spawn_file_actions_t *, const posix_spawnattr_t *, char *const[], char *const[]);
REAL(int, posix_spawnp, pid_t *, const char *, const posix_spawn_file_actions_t *, const posix_spawnattr_t *, char *const[], char *const[]);
REAL(int, execvp, const char *, char *const[]);
REAL(int, execve, const char *, char *const[], char *const[]);
REAL(pid_t, waitpid, pid_t, int *, int);
REAL(int, waitid, idtype_t, id_t, siginfo_t *, int);
REAL(long, syscall, long, ...);
REAL(int, statx, int, const char *, int, unsigned, struct statx *);
REAL(int, fstat64, int, struct stat64 *);
REAL(int, stat64, const char *, struct stat64 *);
REAL(int, lstat64, const char *, struct stat64 *);

static long raw(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}

static void put(const char *fmt, ...) {
  if (logfd < 0) return;
  char b[1024];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  raw(SYS_write, logfd, (long)b, n, 0, 0, 0);
}

static uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

__attribute__((constructor)) static void init(void) {
#define GET(n) r_##n = dlsym(RTLD_NEXT, #n)
  GET(open); GET(openat); GET(read); GET(readv); GET(pread64); GET(write); GET(writev); GET(pwrite64); GET(close);
  GET(mkdir); GET(mkdirat); GET(rmdir); GET(unlink); GET(unlinkat); GET(opendir); GET(fdopendir); GET(closedir); GET(rename);
  GET(posix_spawn); GET(posix_spawnp); GET(execvp); GET(execve); GET(waitpid); GET(waitid); GET(syscall); GET(statx);
  GET(fstat64); GET(stat64); GET(lstat64);
  const char *p = getenv("SIM_PLAN");
  char *pre = getenv("LD_PRELOAD");
  if (!p) return;
  int fd = raw(SYS_openat, AT_FDCWD, (long)p, O_RDONLY | O_CLOEXEC, 0, 0, 0);
  if (fd < 0) return;
  long n = raw(SYS_read, fd, (long)planbuf, sizeof planbuf - 1, 0, 0, 0);
  raw(SYS_close, fd, 0, 0, 0, 0, 0);
  if (n < 0) return;
  int na = 0;
  snprintf(nest_env0, sizeof nest_env0, "LD_PRELOAD=%s", pre ? pre : "");
  for (char *l = strtok(planbuf, "\n"); l; l = strtok(0, "\n")) {
    char *a = l + 2;
    switch (l[0]) {
      case 'T': snprintf(tmpdir, sizeof tmpdir, "%s", a); tmplen = strlen(tmpdir); break;
      case 'L': snprintf(logpath, sizeof logpath, "%s", a); break;
      case 'R': snprintf(rustfmt, sizeof rustfmt, "%s", a); break;
      case 'S': seed = strtoull(a, 0, 10); break;
      case 'C': clockoff = strtoull(a, 0, 10); break;
      case 'F':
        if (nfaults < MAXF && sscanf(a, "%d %d %d %ld", &faults[nfaults].cls, &faults[nfaults].nth, &faults[nfaults].kind, &faults[nfaults].arg) == 4) nfaults++;
        break;
      case 'B':
        if (nbehave < MAXF && sscanf(a, "%d %d %ld", &behave[nbehave].nth, &behave[nbehave].kind, &behave[nbehave].arg) == 3) nbehave++;
        break;
      case 'A': if (na < 31) nest_argv[na++] = a; break;
      case 'P': snprintf(nest_env1, sizeof nest_env1, "SIM_PLAN=%s", a); break;
    }
  }
  if (logpath[0]) logfd = raw(SYS_openat, AT_FDCWD, (long)logpath, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644, 0, 0);
  // keep the log out of the way of everybody's descriptors
  if (logfd >= 0) {
    int up = raw(SYS_fcntl, logfd, F_DUPFD_CLOEXEC, 900, 0, 0, 0);
    if (up >= 0) { raw(SYS_close, logfd, 0, 0, 0, 0, 0); logfd = up; }
  }
  int e = 0;
  nest_envp[e++] = nest_env0;
  nest_envp[e++] = nest_env1;
  for (char **x = environ; *x && e < 250; x++)
    if (strncmp(*x, "LD_PRELOAD=", 11) && strncmp(*x, "SIM_PLAN=", 9)) nest_envp[e++] = *x;
  unsetenv("LD_PRELOAD");
  unsetenv("SIM_PLAN");
  active = 1;
}

static int under(const char *p) { return active && p && tmplen && !strncmp(p, tmpdir, tmplen) && (p[tmplen] == '/' || !p[tmplen]); }
static int relfd(int fd) { return active && fd >= 0 && fd < 65536 && rel[fd]; }
static int hit(int dirfd, const char *p) { return !inside && (p && p[0] == '/' ? under(p) : relfd(dirfd)); }
static const char *show(const char *p) { return under(p) ? p + tmplen : p ? p : ""; }

static void nested(void) {
  inside = 1;
  put("  another compiler starts\n");
  pid_t pid = fork();
  if (pid == 0) {
    int n = raw(SYS_openat, AT_FDCWD, (long)"/dev/null", O_RDWR, 0, 0, 0);
    dup2(n, 0); dup2(n, 1); dup2(n, 2);
    r_execve(nest_argv[0], nest_argv, nest_envp);
    _exit(127);
  }
  int st = -1;
  while (r_waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  put("  another compiler ends: %d\n", WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st));
  inside = 0;
}

// The fault planned for this call, if any. Returns its index or -1.
static int step(int cls, const char *what) {
  int nth = count[cls]++;
  steps++;
  int f = -1;
  for (int i = 0; i < nfaults; i++)
    if (faults[i].cls == cls && faults[i].nth == nth) {
      if (faults[i].kind == F_NEST) { if (nest_argv[0]) nested(); }
      else f = i;
    }
  put("%s#%d %s", NAMES[cls], nth, what);
  if (f >= 0) put(" ! %d %ld", faults[f].kind, faults[f].arg);
  return f;
}
static void res(long r) { if (r < 0) put(" = -%d\n", errno); else put(" = ok\n"); }
static int fail(int f) { errno = faults[f].arg; put("\n"); return -1; }
#define ISERR(f) ((f) >= 0 && faults[f].kind == F_ERR)

#define OPENBODY(dirfd, path, flags, call)                                  \
  if (!hit(dirfd, path)) { int o = call; if (o >= 0 && o < 65536) rel[o] = 0; return o; } \
  int f = step(OPEN, show(path));                                           \
  put(" %s%s%s%s", (flags) & O_DIRECTORY ? "d" : "", ((flags) & 3) ? "w" : "r", (flags) & O_CREAT ? "c" : "", (flags) & O_TRUNC ? "t" : ""); \
  if (ISERR(f)) return fail(f);                                             \
  int fd = call;                                                            \
  res(fd);                                                                  \
  if (fd >= 0 && fd < 65536) rel[fd] = 1;                                   \
  return fd;
#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *path, int flags, ...) { MODE OPENBODY(-1, path, flags, r_open(path, flags, mode)) }
int open64(const char *path, int flags, ...) { MODE OPENBODY(-1, path, flags, r_open(path, flags, mode)) }
int openat(int d, const char *path, int flags, ...) { MODE OPENBODY(d, path, flags, r_openat(d, path, flags, mode)) }
int openat64(int d, const char *path, int flags, ...) { MODE OPENBODY(d, path, flags, r_openat(d, path, flags, mode)) }
int creat(const char *path, mode_t mode) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

int close(int fd) {
  if (fd >= 0 && fd < 65536) rel[fd] = 0;
  return r_close(fd);
}

static ssize_t do_read(int fd, void *buf, size_t n, off_t off, int at) {
#define RD(k) (at ? r_pread64(fd, buf, k, off) : r_read(fd, buf, k))
  if (inside || !relfd(fd)) return RD(n);
  int f = step(READ, "");
  if (f < 0) { ssize_t r = RD(n); put(" = %ld\n", (long)r); return r; }
  ssize_t r;
  switch (faults[f].kind) {
    case F_ERR: return fail(f);
    case F_EOF: put("\n"); return 0;
    case F_SHORT: r = RD(n > (size_t)faults[f].arg + 1 ? (size_t)faults[f].arg + 1 : n); break;
    case F_FLIP: r = RD(n); if (r > 0) ((char *)buf)[faults[f].arg % r] ^= 1 << (faults[f].arg % 7); break;
    default: r = RD(n);
  }
  put(" = %ld\n", (long)r);
  return r;
}
ssize_t read(int fd, void *buf, size_t n) { return do_read(fd, buf, n, 0, 0); }
ssize_t pread64(int fd, void *buf, size_t n, off_t off) { return do_read(fd, buf, n, off, 1); }
ssize_t pread(int fd, void *buf, size_t n, off_t off) { return do_read(fd, buf, n, off, 1); }
ssize_t readv(int fd, const struct iovec *v, int n) {
  if (inside || !relfd(fd) || n < 1) return r_readv(fd, v, n);
  return do_read(fd, v[0].iov_base, v[0].iov_len, 0, 0);
}
static ssize_t do_write(int fd, const void *buf, size_t n, off_t off, int at) {
#define WR(k) (at ? r_pwrite64(fd, buf, k, off) : r_write(fd, buf, k))
  if (inside || !relfd(fd)) return WR(n);
  int f = step(WRITE, "");
  if (f < 0) { ssize_t r = WR(n); put(" = %ld\n", (long)r); return r; }
  ssize_t r;
  size_t part = n ? (size_t)faults[f].arg % n : 0;
  switch (faults[f].kind) {
    case F_ERR: return fail(f);
    case F_SHORT: r = WR(part ? part : n); break;
    case F_LOST: r = n; break;
    case F_TORN: if (part) WR(part); r = n; break;
    default: r = WR(n);
  }
  put(" = %ld\n", (long)r);
  return r;
}
ssize_t write(int fd, const void *buf, size_t n) { return do_write(fd, buf, n, 0, 0); }
ssize_t pwrite64(int fd, const void *buf, size_t n, off_t off) { return do_write(fd, buf, n, off, 1); }
ssize_t writev(int fd, const struct iovec *v, int n) {
  if (inside || !relfd(fd) || n < 1) return r_writev(fd, v, n);
  for (int i = 0; i < n; i++) if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0);
  return 0;
}

#define SIMPLE(cls, dirfd, path, call)          \
  if (!hit(dirfd, path)) return call;           \
  int f = step(cls, show(path));                \
  if (ISERR(f)) return fail(f);                 \
  int r = call;                                 \
  res(r);                                       \
  return r;
int mkdir(const char *p, mode_t m) { SIMPLE(MKDIR, -1, p, r_mkdir(p, m)) }
int mkdirat(int d, const char *p, mode_t m) { SIMPLE(MKDIR, d, p, r_mkdirat(d, p, m)) }
int rmdir(const char *p) { SIMPLE(RMDIR, -1, p, r_rmdir(p)) }
int unlink(const char *p) { SIMPLE(UNLINK, -1, p, r_unlink(p)) }
int unlinkat(int d, const char *p, int fl) { SIMPLE((fl & AT_REMOVEDIR ? RMDIR : UNLINK), d, p, r_unlinkat(d, p, fl)) }
int rename(const char *a, const char *b) { SIMPLE(OTHER, -1, b, r_rename(a, b)) }
int stat64(const char *p, struct stat64 *s) { SIMPLE(STAT, -1, p, r_stat64(p, s)) }
int lstat64(const char *p, struct stat64 *s) { SIMPLE(STAT, -1, p, r_lstat64(p, s)) }
int fstat64(int d, struct stat64 *s) { SIMPLE(STAT, d, "", r_fstat64(d, s)) }
int statx(int d, const char *p, int fl, unsigned m, struct statx *s) { SIMPLE(STAT, d, p, r_statx(d, p, fl, m, s)) }
DIR *opendir(const char *p) {
  if (!hit(-1, p)) return r_opendir(p);
  int f = step(LIST, show(p));
  if (ISERR(f)) { fail(f); return 0; }
  DIR *d = r_opendir(p);
  res(d ? 0 : -1);
  return d;
}
DIR *fdopendir(int fd) {
  if (inside || !relfd(fd)) return r_fdopendir(fd);
  int f = step(LIST, "");
  if (ISERR(f)) { fail(f); return 0; }
  DIR *d = r_fdopendir(fd);
  res(d ? 0 : -1);
  return d;
}

int closedir(DIR *d) {
  int fd = d ? dirfd(d) : -1;
  if (fd >= 0 && fd < 65536) rel[fd] = 0;
  return r_closedir(d);
}

// ---- the formatter -------------------------------------------------------------------------
#define BUF (8 << 20)
static char in[BUF], out[BUF];
static const char SEP[] = "__BITCOIN_CASH_SCRIPT_MACRO_LINE_SEPARATOR__";

static int is_formatter(const char *prog, char *const argv[], const char **file) {
  const char *b = strrchr(prog, '/');
  b = b ? b + 1 : prog;
  if (strncmp(b, "rustfmt", 7) && !(rustfmt[0] && !strcmp(prog, rustfmt))) return 0;
  int n = 0;
  while (argv[n]) n++;
  *file = n > 1 ? argv[n - 1] : "";
  struct stat st;
  return n > 1 && argv[n - 1][0] != '-' && raw(SYS_stat, (long)argv[n - 1], (long)&st, 0, 0, 0, 0) == 0 && S_ISREG(st.st_mode);
}

static long slurp(const char *f) {
  int fd = raw(SYS_openat, AT_FDCWD, (long)f, O_RDONLY, 0, 0, 0);
  if (fd < 0) return -1;
  long n = 0, r;
  while (n < BUF && (r = raw(SYS_read, fd, (long)in + n, BUF - n, 0, 0, 0)) > 0) n += r;
  raw(SYS_close, fd, 0, 0, 0, 0, 0);
  return n;
}
static void spit(const char *f, const char *b, long n) {
  int fd = raw(SYS_openat, AT_FDCWD, (long)f, O_WRONLY | O_CREAT | O_TRUNC, 0644, 0, 0);
  if (fd < 0) return;
  long o = 0, r;
  while (o < n && (r = raw(SYS_write, fd, (long)b + o, n - o, 0, 0, 0)) > 0) o += r;
  raw(SYS_close, fd, 0, 0, 0, 0, 0);
}
static void parent_of(const char *f, char *d) {
  strncpy(d, f, 1000);
  char *s = strrchr(d, '/');
  if (s) *s = 0;
}

// In a forked child: format `file` as the plan says for this start, and exit.
static void format(const char *file, int kind, long arg) {
  struct rlimit no = {0, 0};
  setrlimit(RLIMIT_CORE, &no);
  char dir[1024], other[1100];
  parent_of(file, dir);
  long n = slurp(file), m = 0;
  if (n < 0) _exit(1);
  // a layout of sorts: one statement per line, four spaces of indentation
  for (long i = 0; i < n && m < BUF - 8; i++) {
    out[m++] = in[i];
    if ((in[i] == ';' || in[i] == '{') && i + 1 < n && in[i + 1] == ' ') { memcpy(out + m, "\n    ", 5); m += 5; i++; }
  }
  out[m++] = '\n';
  long cut = m * (arg % 1000) / 1000;
  switch (kind) {
    case 0: break;
    case 1: _exit(0);
    case 2: _exit(arg & 255);
    case 3: spit(file, out, m); _exit(arg & 255);
    case 4: signal(arg, SIG_DFL); raw(SYS_kill, raw(SYS_getpid, 0, 0, 0, 0, 0, 0), arg, 0, 0, 0, 0); _exit(1);
    case 5: spit(file, out, m / 2); signal(arg, SIG_DFL); raw(SYS_kill, raw(SYS_getpid, 0, 0, 0, 0, 0, 0), arg, 0, 0, 0, 0); _exit(1);
    case 6: m = cut; break;
    case 7: for (long i = 0; i < m; i++) out[i] = 32 + mix(arg + i) % 90; break;
    case 8: out[cut] = 0xff; break;
    case 9:
    case 10: {  // separators beyond the first `arg` are lost
      long k = 0, o = 0, keep = kind == 9 ? 0 : arg;
      for (long i = 0; i < m;) {
        if (i + (long)sizeof SEP - 1 <= m && !memcmp(out + i, SEP, sizeof SEP - 1) && k++ >= keep) { i += sizeof SEP - 1; continue; }
        in[o++] = out[i++];
      }
      memcpy(out, in, o);
      m = o;
      break;
    }
    case 11: {  // separators doubled
      long o = 0;
      for (long i = 0; i < m && o < BUF - 200;) {
        if (i + (long)sizeof SEP - 1 <= m && !memcmp(out + i, SEP, sizeof SEP - 1)) {
          o += sprintf(in + o, "%s();\n    %s", SEP, SEP);
          i += sizeof SEP - 1;
          continue;
        }
        in[o++] = out[i++];
      }
      memcpy(out, in, o);
      m = o;
      break;
    }
    case 12: raw(SYS_unlink, (long)file, 0, 0, 0, 0, 0); _exit(0);
    case 13: raw(SYS_unlink, (long)file, 0, 0, 0, 0, 0); raw(SYS_mkdir, (long)file, 0755, 0, 0, 0, 0); _exit(0);
    case 14:  // somebody cleans the temporary directory
      raw(SYS_unlink, (long)file, 0, 0, 0, 0, 0);
      snprintf(other, sizeof other, "%s/rustfmt.toml", dir);
      raw(SYS_unlink, (long)other, 0, 0, 0, 0, 0);
      if (tmplen && !strncmp(dir, tmpdir, tmplen) && strlen(dir) > tmplen) raw(SYS_rmdir, (long)dir, 0, 0, 0, 0, 0);
      _exit(0);
    case 15:
      snprintf(other, sizeof other, "%s/expanded.bk", dir);
      spit(other, in, n);
      break;
    case 16: {
      long o = 3;
      memcpy(in, "\xef\xbb\xbf", 3);
      for (long i = 0; i < m; i++) { if (out[i] == '\n') in[o++] = '\r'; in[o++] = out[i]; }
      memcpy(out, in, o);
      m = o;
      break;
    }
    case 17: for (long i = cut; i < m && i < cut + 64; i++) out[i] = 0; break;
    case 18: {
      long k = m;
      while (m + k < (1 << 20)) { memcpy(out + m, out, k); m += k; }
      break;
    }
    case 19: spit(file, "", 0); _exit(0);
    case 20: for (long i = 0; i + 3 < m; i++) if (!memcmp(out + i, "OP_", 3) || !memcmp(out + i, "let", 3)) { out[i + 1] = 'q'; } break;
    case 21: {
      struct timespec ts = {0, 20 * 1000 * 1000};
      raw(SYS_nanosleep, (long)&ts, 0, 0, 0, 0, 0);
      break;
    }
    case 23: spit(file, out, m); _exit(0);
    case 24: {  // the text of the separators only
      long o = 0;
      for (int i = 0; i < arg % 40; i++) o += sprintf(in + o, "%s();\n", SEP);
      memcpy(out, in, o);
      m = o;
      break;
    }
  }
  spit(file, out, m);
  _exit(0);
}

static int behaviour(long *arg) {
  int nth = spawns++;
  for (int i = 0; i < nbehave; i++) if (behave[i].nth == nth) { *arg = behave[i].arg; return behave[i].kind; }
  *arg = 0;
  return 0;
}

typedef int (*spawn_fn)(pid_t *, const char *, const posix_spawn_file_actions_t *, const posix_spawnattr_t *, char *const[], char *const[]);
static int do_spawn(spawn_fn real, pid_t *pid, const char *prog, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const envp[]) {
  if (!active || inside) return real(pid, prog, fa, at, argv, envp);
  const char *b = strrchr(prog, '/');
  int f = step(SPAWN, b ? b + 1 : prog);
  if (ISERR(f)) { put("\n"); return faults[f].arg; }
  const char *file = "";
  long arg = 0;
  if (is_formatter(prog, argv, &file)) {
    struct stat st;
    if (strchr(prog, '/') && raw(SYS_stat, (long)prog, (long)&st, 0, 0, 0, 0) != 0) { put(" = no such program\n"); return ENOENT; }
    int kind = behaviour(&arg);
    put(" %s behaviour %d %ld\n", show(file), kind, arg);
    if (kind == 21) atomic_fetch_add(&jumps, 3600);
    if (kind != 22) {
      pid_t p = fork();
      if (p < 0) return errno;
      if (p == 0) format(file, kind, arg);
      *pid = p;
      return 0;
    }
  } else put("\n");
  return real(pid, prog, fa, at, argv, envp);
}
int posix_spawn(pid_t *pid, const char *prog, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const envp[]) {
  return do_spawn(r_posix_spawn, pid, prog, fa, at, argv, envp);
}
int posix_spawnp(pid_t *pid, const char *prog, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const envp[]) {
  return do_spawn(r_posix_spawnp, pid, prog, fa, at, argv, envp);
}
// (only reached in children that were forked to run a program)
static int do_exec(const char *prog, char *const argv[]) {
  const char *b = strrchr(prog, '/'), *file = "";
  int f = step(SPAWN, b ? b + 1 : prog);
  if (ISERR(f)) { put("\n"); errno = faults[f].arg; return -1; }
  long arg = 0;
  if (is_formatter(prog, argv, &file)) {
    int kind = behaviour(&arg);
    put(" %s behaviour %d %ld (forked)\n", show(file), kind, arg);
    if (kind != 22) format(file, kind, arg);
  } else put("\n");
  return 0;
}
int execvp(const char *prog, char *const argv[]) {
  if (active && !inside && do_exec(prog, argv)) return -1;
  return r_execvp(prog, argv);
}
int execve(const char *prog, char *const argv[], char *const envp[]) {
  if (active && !inside && do_exec(prog, argv)) return -1;
  return r_execve(prog, argv, envp);
}
pid_t waitpid(pid_t pid, int *st, int fl) {
  if (!active || inside) return r_waitpid(pid, st, fl);
  int f = step(WAIT, "");
  if (ISERR(f)) {
    if (faults[f].arg != EINTR) { int x; r_waitpid(pid, &x, 0); }
    return fail(f);
  }
  pid_t r = r_waitpid(pid, st, fl);
  put(r >= 0 ? " = ok\n" : " = error\n");
  return r;
}
int waitid(idtype_t t, id_t id, siginfo_t *si, int fl) {
  if (!active || inside) return r_waitid(t, id, si, fl);
  int f = step(WAIT, "");
  if (ISERR(f)) {
    if (faults[f].arg != EINTR) { siginfo_t x; r_waitid(t, id, &x, WEXITED); }
    return fail(f);
  }
  int r = r_waitid(t, id, si, fl);
  put(r >= 0 ? " = ok\n" : " = error\n");
  return r;
}

// ---- randomness and time -------------------------------------------------------------------
static void fill(void *b, size_t n) {
  unsigned char *p = b;
  uint64_t x = 0;
  for (size_t i = 0; i < n; i++) {
    if (i % 8 == 0) x = mix(seed * 0x9e3779b97f4a7c15ull + randoms++);
    p[i] = x >> (8 * (i % 8));
  }
}
ssize_t getrandom(void *b, size_t n, unsigned fl) {
  if (!active) return raw(SYS_getrandom, (long)b, n, fl, 0, 0, 0);
  fill(b, n);
  return n;
}
int getentropy(void *b, size_t n) { fill(b, n); return 0; }
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!active) return raw(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0);
  // time passes with the simulated calls (and for whoever waits for it to pass)
  uint64_t us = 1 + steps + (++ticks >> 14);
  ts->tv_sec = (c == CLOCK_REALTIME ? 1700000000 : 5000) + clockoff + atomic_load(&jumps) + us / 1000000;
  ts->tv_nsec = us % 1000000 * 1000;
  return 0;
}
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (active && n == SYS_getrandom) { fill((void *)a, b); return b; }
  if (active && n == SYS_statx) return statx(a, (const char *)b, c, d, (struct statx *)e);
  long r = raw(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}
