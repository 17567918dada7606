// Preloaded into node: numbers the file system calls on files of the sandbox (not the package's own code) per call
// and file, logs them, and makes the one named by NPM_FAULT ("call:file:nth:errno", or "short") fail.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char root[PATH_MAX], want_call[32], want_file[256];
static int active, want_nth, want_errno, shorten, logfd = -1;
static char *fdname[4096];
static struct { char key[320]; int n; } seen[512];
static int nseen;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
extern char *program_invocation_short_name;

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)

__attribute__((constructor)) static void init(void) {
  const char *r = getenv("NPM_SANDBOX"), *f = getenv("NPM_FAULT"), *l = getenv("NPM_LOG");
  if (!r || strcmp(program_invocation_short_name, "node")) return;
  snprintf(root, sizeof root, "%s/", r);
  if (f && !strcmp(f, "short")) shorten = 1;
  else if (f && *f) {
    char b[512]; snprintf(b, sizeof b, "%s", f);
    char *p = b, *c = strsep(&p, ":"), *n = strsep(&p, ":"), *k = strsep(&p, ":");
    if (c && n && k && p) { snprintf(want_call, sizeof want_call, "%s", c); snprintf(want_file, sizeof want_file, "%s", n); want_nth = atoi(k); want_errno = atoi(p); }
  }
  if (l) { int (*o)(const char *, int, ...) = dlsym(RTLD_NEXT, "open"); int fd = o(l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600); logfd = fcntl(fd, F_DUPFD_CLOEXEC, 900); if (logfd < 0) logfd = fd; else { int (*c)(int) = dlsym(RTLD_NEXT, "close"); c(fd); } }
  active = 1;
}
// the name below the sandbox, or NULL if the file is not one the script works on
static const char *scope(const char *p, char *buf) {
  if (!active || !p) return 0;
  char t[PATH_MAX];
  if (p[0] != '/') { if (!getcwd(t, sizeof t - 1)) return 0; size_t n = strlen(t); snprintf(t + n, sizeof t - n, "/%s", p); } else snprintf(t, sizeof t, "%s", p);
  // squeeze . and ..
  char out[PATH_MAX]; size_t o = 0; char *s = t, *w;
  while ((w = strsep(&s, "/"))) {
    if (!*w || !strcmp(w, ".")) continue;
    if (!strcmp(w, "..")) { while (o && out[--o] != '/'); continue; }
    o += snprintf(out + o, sizeof out - o, "/%s", w);
    if (o >= sizeof out) return 0;
  }
  out[o] = 0;
  size_t rl = strlen(root);
  if (strncmp(out, root, rl)) return 0;
  const char *n = out + rl;
  if (!strncmp(n, "lib/", 4) || !strcmp(n, "lib") || !strcmp(n, "package.json") || !strcmp(n, "bin/qlc-download-schema") || !strncmp(n, "node_modules", 12)) return 0;
  size_t nl = strlen(n);
  if (nl > 12 && !strcmp(n + nl - 12, "package.json")) return 0;
  snprintf(buf, 256, "%s", n);
  return buf;
}
// 0: go on; else the errno to fail with
static int point(const char *call, const char *file) {
  char key[320]; snprintf(key, sizeof key, "%s:%s", call, file);
  pthread_mutex_lock(&mu);
  int i; for (i = 0; i < nseen && strcmp(seen[i].key, key); i++);
  if (i == nseen && nseen < 512) snprintf(seen[nseen++].key, 320, "%s", key);
  int n = ++seen[i].n;
  int e = want_nth && n == want_nth && !strcmp(call, want_call) && !strcmp(file, want_file) ? want_errno : 0;
  if (logfd >= 0) { char l[400]; int m = snprintf(l, sizeof l, "%s:%d%s\n", key, n, e ? " FAULT" : ""); ssize_t (*w)(int, const void *, size_t) = dlsym(RTLD_NEXT, "write"); w(logfd, l, m); }
  pthread_mutex_unlock(&mu);
  return e;
}
#define PATHCALL(call, p) do { char b_[256]; const char *s_ = scope(p, b_); if (s_) { int e_ = point(call, s_); if (e_) { errno = e_; return -1; } } } while (0)
#define FDCALL(call, fd) do { if (active && (fd) >= 0 && (fd) < 4096 && fdname[fd]) { int e_ = point(call, fdname[fd]); if (e_) { errno = e_; return -1; } } } while (0)

static int opened(int fd, const char *p) {
  char b[256]; const char *s = fd >= 0 && fd < 4096 ? scope(p, b) : 0;
  if (s) fdname[fd] = strdup(s);
  return fd;
}
#define OPENS(name) int name(const char *p, int fl, ...) { \
  mode_t m = 0; va_list a; va_start(a, fl); if (fl & (O_CREAT | O_TMPFILE)) m = va_arg(a, int); va_end(a); \
  REAL(int, #name, const char *, int, ...); PATHCALL(fl & O_ACCMODE ? "create" : "open", p); return opened(real(p, fl, m), p); }
OPENS(open) OPENS(open64)
int close(int fd) {
  REAL(int, "close", int);
  if (fd == logfd && active) return 0;
  if (active && fd >= 0 && fd < 4096 && fdname[fd]) {
    char *n = fdname[fd]; fdname[fd] = 0;
    int e = point("close", n);
    int r = real(fd); // as on Linux: the descriptor is gone in any case
    if (e) { errno = e; return -1; }
    return r;
  }
  return real(fd);
}
// only writes: node itself takes a short read of a regular file for its end
static size_t cut(int fd, size_t n) { return active && shorten && fd >= 0 && fd < 4096 && fdname[fd] && n > 1 ? (n + 1) / 2 : n; }
ssize_t read(int fd, void *b, size_t n) { REAL(ssize_t, "read", int, void *, size_t); FDCALL("read", fd); return real(fd, b, n); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { REAL(ssize_t, "pread", int, void *, size_t, off_t); FDCALL("read", fd); return real(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { REAL(ssize_t, "pread64", int, void *, size_t, off64_t); FDCALL("read", fd); return real(fd, b, n, o); }
ssize_t write(int fd, const void *b, size_t n) { REAL(ssize_t, "write", int, const void *, size_t); FDCALL("write", fd); return real(fd, b, cut(fd, n)); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(ssize_t, "pwrite", int, const void *, size_t, off_t); FDCALL("write", fd); return real(fd, b, cut(fd, n), o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t); FDCALL("write", fd); return real(fd, b, cut(fd, n), o); }
ssize_t writev(int fd, const struct iovec *v, int n) { REAL(ssize_t, "writev", int, const struct iovec *, int); FDCALL("write", fd); return real(fd, v, n > 1 && cut(fd, 2) == 1 ? 1 : n); }
ssize_t pwritev(int fd, const struct iovec *v, int n, off_t o) { REAL(ssize_t, "pwritev", int, const struct iovec *, int, off_t); FDCALL("write", fd); return real(fd, v, n, o); }
ssize_t pwritev64(int fd, const struct iovec *v, int n, off64_t o) { REAL(ssize_t, "pwritev64", int, const struct iovec *, int, off64_t); FDCALL("write", fd); return real(fd, v, n, o); }
int fsync(int fd) { REAL(int, "fsync", int); FDCALL("fsync", fd); return real(fd); }
int fdatasync(int fd) { REAL(int, "fdatasync", int); FDCALL("fsync", fd); return real(fd); }
int ftruncate64(int fd, off64_t o) { REAL(int, "ftruncate64", int, off64_t); FDCALL("truncate", fd); return real(fd, o); }
int fchmod(int fd, mode_t m) { REAL(int, "fchmod", int, mode_t); FDCALL("chmod", fd); return real(fd, m); }
int chmod(const char *p, mode_t m) { REAL(int, "chmod", const char *, mode_t); PATHCALL("chmod", p); return real(p, m); }
int unlink(const char *p) { REAL(int, "unlink", const char *); PATHCALL("unlink", p); return real(p); }
int mkdir(const char *p, mode_t m) { REAL(int, "mkdir", const char *, mode_t); PATHCALL("mkdir", p); return real(p, m); }
int access(const char *p, int m) { REAL(int, "access", const char *, int); PATHCALL("access", p); return real(p, m); }
int rename(const char *a, const char *b) { REAL(int, "rename", const char *, const char *); PATHCALL("rename", a); return real(a, b); }
int rmdir(const char *p) { REAL(int, "rmdir", const char *); PATHCALL("rmdir", p); return real(p); }
