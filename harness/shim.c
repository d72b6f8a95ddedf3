/* Interposed libc calls (linked with --wrap): the code under test keeps its file system
   effects inside a scratch folder, every file access is recorded, and faults can be injected.
   Without VSHIM_DIR nothing is redirected (but writes outside it are still refused). */
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include "shim.h"

int shim_ev_fd = -1;
static char dir[512];
static int record;
long shim_intr[4];
long shim_fault[F_MAX] = {[F_RECV_AFTER] = -1, [F_SEND_AFTER] = -1};
const char *shim_fault_name[F_MAX] = {"accept_n", "accept_err", "src", "recv_after", "recv_err", "send_after",
  "send_err", "send_short", "log_err", "upload_err", "static_err", "close_delay", "chaos", "write_err", "peer_err", "kill_at", "clock_step", "alloc_min", "alloc_skip"};

long shim_get(int k) { return __atomic_load_n(&shim_fault[k], __ATOMIC_RELAXED); }
void shim_set(int k, long v) { __atomic_store_n(&shim_fault[k], v, __ATOMIC_RELAXED); }

int __real_clock_gettime(clockid_t, struct timespec *);
uint64_t shim_ns(void)
{
  struct timespec t;
  __real_clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec * 1000000000ull + t.tv_nsec;
}

FILE *__real_fopen(const char *, const char *);
FILE *__real_freopen(const char *, const char *, FILE *);
int __real_open(const char *, int, ...);
int __real_openat(int, const char *, int, ...);
int __real_creat(const char *, mode_t);
int __real_stat(const char *, struct stat *);
int __real_lstat(const char *, struct stat *);
int __real_access(const char *, int);
int __real_mkdir(const char *, mode_t);
int __real_remove(const char *);
int __real_unlink(const char *);
int __real_rename(const char *, const char *);
int __real_rmdir(const char *);
int __real_truncate(const char *, off_t);
int __real_chmod(const char *, mode_t);
int __real_link(const char *, const char *);
int __real_symlink(const char *, const char *);
int __real_mkstemp(char *);
int __real_mkostemp(char *, int);
char *__real_mkdtemp(char *);
int __real_close(int);
int __real_listen(int, int);
int __real_accept(int, struct sockaddr *, socklen_t *);
int __real_accept4(int, struct sockaddr *, socklen_t *, int);
ssize_t __real_recv(int, void *, size_t, int);
ssize_t __real_recvfrom(int, void *, size_t, int, struct sockaddr *, socklen_t *);
ssize_t __real_read(int, void *, size_t);
ssize_t __real_send(int, const void *, size_t, int);
ssize_t __real_sendto(int, const void *, size_t, int, const struct sockaddr *, socklen_t);
ssize_t __real_write(int, const void *, size_t);
size_t __real_fwrite(const void *, size_t, size_t, FILE *);
void __real_flockfile(FILE *);
void __real_funlockfile(FILE *);

static void speed_init(void);
void shim_init(void)
{
  const char *d = getenv("VSHIM_DIR");
  if (d && *d)
    snprintf(dir, sizeof dir, "%s", d);
  const char *e = getenv("VSHIM_EVENTS");
  if (e && *e)
    shim_ev_fd = __real_open(e, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0644);
  record = getenv("VSHIM_RECORD") != NULL;
  const char *c = getenv("VSHIM_CHAOS");
  if (c)
    shim_set(F_CHAOS, atol(c));
  speed_init();
}
__attribute__((constructor)) static void ctor(void) { shim_init(); }

void ev_raw(const char *buf, size_t len)
{
  if (shim_ev_fd >= 0)
  {
    ssize_t r = syscall(SYS_write, shim_ev_fd, buf, len);
    (void)r;
  }
}
void ev(const char *fmt, ...)
{
  if (shim_ev_fd < 0)
    return;
  char *b = NULL, *o = NULL;
  va_list a;
  va_start(a, fmt);
  int n = vasprintf(&b, fmt, a);
  va_end(a);
  if (n < 0)
    return;
  int m = asprintf(&o, "%llu %ld %s\n", (unsigned long long)shim_ns(), (long)syscall(SYS_gettid), b);
  free(b);
  if (m >= 0)
  {
    ev_raw(o, m);
    free(o);
  }
}
char *hexn(const char *s, size_t n)
{
  static const char d[] = "0123456789abcdef";
  if (!s)
    return strdup("!");
  char *o = malloc(2 * n + 2), *p = o;
  *p++ = 'x';
  for (size_t i = 0; i < n; i++)
  {
    *p++ = d[(unsigned char)s[i] >> 4];
    *p++ = d[s[i] & 15];
  }
  *p = 0;
  return o;
}
char *hexs(const char *s) { return hexn(s, s ? strlen(s) : 0); }

/* Redirects the fixed paths of the code under test into the scratch folder */
static const char *redir(const char *p, char *buf, size_t n)
{
  if (!*dir || !p)
    return p;
  if (!strncmp(p, "/var/log/", 9))
    snprintf(buf, n, "%s/log/%s", dir, p + 9);
  else if (!strncmp(p, "/tmp/wayuu", 10) && (p[10] == 0 || p[10] == '/'))
    snprintf(buf, n, "%s/upload%s", dir, p + 10);
  else
    return p;
  return buf;
}
static int is_log(const char *p) { return p && !strncmp(p, "/var/log/", 9); }
static int is_upload(const char *p) { return p && !strncmp(p, "/tmp/wayuu", 10); }
/* Lexical normalisation of an absolute path */
static void normalise(const char *p, char *out, size_t n)
{
  char tmp[8192];
  if (*p != '/')
  {
    char cwd[2048];
    if (!getcwd(cwd, sizeof cwd))
      *cwd = 0;
    snprintf(tmp, sizeof tmp, "%s/%s", cwd, p);
  }
  else
    snprintf(tmp, sizeof tmp, "%s", p);
  size_t o = 0;
  out[0] = 0;
  char *save = NULL;
  for (char *t = strtok_r(tmp, "/", &save); t; t = strtok_r(NULL, "/", &save))
  {
    if (!strcmp(t, "."))
      continue;
    if (!strcmp(t, ".."))
    {
      while (o > 0 && out[o - 1] != '/')
        o--;
      if (o > 0)
        o--;
      out[o] = 0;
      continue;
    }
    size_t l = strlen(t);
    if (o + l + 2 >= n)
      break;
    out[o++] = '/';
    memcpy(out + o, t, l + 1);
    o += l;
  }
  if (!o)
    strcpy(out, "/");
}
static void rec(char kind, const char *orig)
{
  if (!record)
    return;
  int e = errno;
  char n[8192];
  normalise(orig, n, sizeof n);
  char *a = hexs(orig), *b = hexs(n);
  ev("%c path=%s norm=%s", kind, a, b);
  free(a);
  free(b);
  errno = e;
}
/* Whether a destructive operation on this (redirected) path stays in the scratch folder */
static int contained(const char *p)
{
  char n[8192];
  if (!*dir)
    return 1;
  normalise(p, n, sizeof n);
  if (!strncmp(n, "/dev/", 5))
    return 1;
  size_t l = strlen(dir);
  return !strncmp(n, dir, l) && n[l] == '/';
}
static int path_fault(const char *p, int writing)
{
  long e = 0;
  if (is_log(p))
    e = strstr(p, "access") ? shim_get(F_LOG_ERR) : 0;
  else if (is_upload(p))
    e = shim_get(F_UPLOAD_ERR);
  else if (!writing)
    e = shim_get(F_STATIC_ERR);
  if (e)
  {
    errno = e;
    return 1;
  }
  return 0;
}
/* Large allocations may fail */
static int no_memory(size_t n)
{
  long min = shim_get(F_ALLOC_MIN);
  if (min <= 0 || n < min || __atomic_fetch_sub(&shim_fault[F_ALLOC_SKIP], 1, __ATOMIC_RELAXED) > 0)
    return 0;
  errno = ENOMEM;
  return 1;
}
#undef malloc
#undef calloc
#undef realloc
void *__wrap_malloc(size_t n) { return no_memory(n) ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t m, size_t n) { return no_memory(m * n) ? NULL : __real_calloc(m, n); }
void *__wrap_realloc(void *p, size_t n) { return no_memory(n) ? NULL : __real_realloc(p, n); }
/* The process may be killed at the n-th operation that others can see */
#include <signal.h>
static int killed(const char *what)
{
  if (shim_get(F_KILL_AT) <= 0 || __atomic_sub_fetch(&shim_fault[F_KILL_AT], 1, __ATOMIC_RELAXED) != 0)
    return 0;
  ev("KILLED op=%s", what);
  return 1;
}
static void die(void)
{
  kill(getpid(), SIGKILL);
  for (;;)
    pause();
}
#define KILL(what) do { if (killed(what)) die(); } while (0)

#define B char buf_[8192]
#define GUARD(kind, p, r)                                   \
  B;                                                        \
  rec(kind, p);                                             \
  KILL("change");                                           \
  if (path_fault(p, 1))                                     \
    return r;                                               \
  const char *q = redir(p, buf_, sizeof buf_);              \
  if (!contained(q))                                        \
  {                                                         \
    errno = EACCES;                                         \
    return r;                                               \
  }

FILE *__wrap_fopen(const char *p, const char *mode)
{
  int w = strpbrk(mode, "wa+") != NULL;
  B;
  rec(w ? 'W' : 'R', p);
  KILL("fopen");
  if (path_fault(p, w))
    return NULL;
  const char *q = redir(p, buf_, sizeof buf_);
  if (w && !contained(q))
  {
    errno = EACCES;
    return NULL;
  }
  return __real_fopen(q, mode);
}
FILE *__wrap_fopen64(const char *p, const char *mode) { return __wrap_fopen(p, mode); }
FILE *__wrap_freopen(const char *p, const char *mode, FILE *f)
{
  if (!p)
    return __real_freopen(p, mode, f);
  int w = strpbrk(mode, "wa+") != NULL;
  B;
  rec(w ? 'W' : 'R', p);
  const char *q = redir(p, buf_, sizeof buf_);
  if (w && !contained(q))
  {
    errno = EACCES;
    return NULL;
  }
  return __real_freopen(q, mode, f);
}
static int do_open(int at, const char *p, int flags, mode_t m)
{
  int w = (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0;
  B;
  rec(w ? 'W' : 'R', p);
  KILL("open");
  if (path_fault(p, w))
    return -1;
  const char *q = redir(p, buf_, sizeof buf_);
  if (w && !contained(q))
  {
    errno = EACCES;
    return -1;
  }
  if (at != AT_FDCWD && *q != '/')
    return __real_openat(at, q, flags, m);
  return __real_open(q, flags, m);
}
#define MODE_ARG mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, int); va_end(a); }
int __wrap_open(const char *p, int flags, ...) { MODE_ARG return do_open(AT_FDCWD, p, flags, m); }
int __wrap_open64(const char *p, int flags, ...) { MODE_ARG return do_open(AT_FDCWD, p, flags, m); }
int __wrap_openat(int at, const char *p, int flags, ...) { MODE_ARG return do_open(at, p, flags, m); }
int __wrap_creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int __wrap_stat(const char *p, struct stat *s) { B; return __real_stat(redir(p, buf_, sizeof buf_), s); }
int __wrap_stat64(const char *p, struct stat *s) { return __wrap_stat(p, s); }
int __wrap_lstat(const char *p, struct stat *s) { B; return __real_lstat(redir(p, buf_, sizeof buf_), s); }
int __wrap_access(const char *p, int m) { B; return __real_access(redir(p, buf_, sizeof buf_), m); }
int __wrap_mkdir(const char *p, mode_t m) { GUARD('M', p, -1) return __real_mkdir(q, m); }
int __wrap_remove(const char *p) { GUARD('D', p, -1) return __real_remove(q); }
int __wrap_unlink(const char *p) { GUARD('D', p, -1) return __real_unlink(q); }
int __wrap_rmdir(const char *p) { GUARD('D', p, -1) return __real_rmdir(q); }
int __wrap_truncate(const char *p, off_t l) { GUARD('W', p, -1) return __real_truncate(q, l); }
int __wrap_chmod(const char *p, mode_t m) { GUARD('W', p, -1) return __real_chmod(q, m); }
static int two(const char *a, const char *b, int (*f)(const char *, const char *))
{
  char b1[8192], b2[8192];
  rec('D', a);
  rec('W', b);
  KILL("rename");
  const char *p = redir(a, b1, sizeof b1), *q = redir(b, b2, sizeof b2);
  if (path_fault(b, 1))
    return -1;
  if (!contained(p) || !contained(q))
  {
    errno = EACCES;
    return -1;
  }
  return f(p, q);
}
int __wrap_rename(const char *a, const char *b) { return two(a, b, __real_rename); }
int __wrap_link(const char *a, const char *b) { return two(a, b, __real_link); }
int __wrap_symlink(const char *a, const char *b) { return two(a, b, __real_symlink); }
/* The template gets the name that was chosen */
#define TEMPLATE(call, bad)                               \
  B;                                                      \
  if (path_fault(p, 1))                                   \
    return bad;                                           \
  const char *q = redir(p, buf_, sizeof buf_);            \
  if (!contained(q))                                      \
  {                                                       \
    rec('W', p);                                          \
    errno = EACCES;                                       \
    return bad;                                           \
  }                                                       \
  char *t = strdup(q);                                    \
  int r = call;                                           \
  size_t l = strlen(p);                                   \
  if (r >= 0 && l >= 6)                                   \
    memcpy(p + l - 6, t + strlen(t) - 6, 6);              \
  free(t);                                                \
  rec('W', p);
int __wrap_mkstemp(char *p) { TEMPLATE(__real_mkstemp(t), -1) return r; }
int __wrap_mkostemp(char *p, int f) { TEMPLATE(__real_mkostemp(t, f), -1) return r; }
char *__wrap_mkdtemp(char *p) { TEMPLATE(__real_mkdtemp(t) ? 0 : -1, NULL) return r < 0 ? NULL : p; }
/* The server has no business running programs */
int __wrap_system(const char *c) { char *h = hexs(c); ev("X cmd=%s", h); free(h); errno = EACCES; return -1; }
FILE *__wrap_popen(const char *c, const char *m) { char *h = hexs(c); ev("X cmd=%s", h); free(h); errno = EACCES; return NULL; }

int __real_fclose(FILE *);
int __real_fflush(FILE *);
int __wrap_fclose(FILE *f) { KILL("fclose"); return __real_fclose(f); }
int __wrap_fflush(FILE *f) { KILL("fflush"); return __real_fflush(f); }
size_t __wrap_fwrite(const void *p, size_t s, size_t n, FILE *f)
{
  if (shim_get(F_WRITE_ERR) && f != stderr && f != stdout)
  {
    errno = shim_get(F_WRITE_ERR);
    return 0;
  }
  if (killed("fwrite"))
  {
    /* within the block, unless it is so small that it is only written as a whole */
    if (s * n > 4096)
    {
      __real_fwrite(p, 1, s * n / 2, f);
      __real_fflush(f);
    }
    die();
  }
  return __real_fwrite(p, s, n, f);
}

/* ---- sockets ---- */
int __real_getpeername(int, struct sockaddr *, socklen_t *);
static __thread struct { int fd; long in, out, intr; } cur = {-1};
static int faulty(int fd)
{
  long src = shim_get(F_SRC);
  if (!src)
    return 0;
  struct sockaddr_in a = {0};
  socklen_t l = sizeof a;
  if (__real_getpeername(fd, (struct sockaddr *)&a, &l) || a.sin_family != AF_INET)
    return 0;
  if ((ntohl(a.sin_addr.s_addr) & 255) != src)
    return 0;
  if (cur.fd != fd)
  {
    cur.fd = fd;
    cur.in = cur.out = cur.intr = 0;
  }
  return 1;
}
static int recv_fault(int fd, size_t *n, ssize_t *r)
{
  if (!faulty(fd))
    return 0;
  long lim = shim_get(F_RECV_AFTER);
  if (lim < 0)
    return 0;
  if (cur.in >= lim)
  {
    long e = shim_get(F_RECV_ERR);
    if (e == EINTR && cur.intr & 1)
      return 0; /* a signal comes once */
    cur.intr |= 1;
    *r = e ? -1 : 0;
    errno = e;
    return 1;
  }
  if (*n > (size_t)(lim - cur.in))
    *n = lim - cur.in;
  return 0;
}
#define RECV(call)                 \
  ssize_t r;                       \
  if (recv_fault(fd, &n, &r))      \
    return r;                      \
  r = call;                        \
  if (r < 0 && errno == EINTR)     \
    __atomic_add_fetch(&shim_intr[0], 1, __ATOMIC_RELAXED); \
  if (r > 0 && cur.fd == fd)       \
    cur.in += r;                   \
  return r;
ssize_t __wrap_recv(int fd, void *b, size_t n, int f) { RECV(__real_recv(fd, b, n, f)) }
ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int f, struct sockaddr *a, socklen_t *l) { RECV(__real_recvfrom(fd, b, n, f, a, l)) }
ssize_t __wrap_read(int fd, void *b, size_t n) { RECV(__real_read(fd, b, n)) }
static int send_fault(int fd, size_t *n, ssize_t *r)
{
  if (!faulty(fd))
    return 0;
  long lim = shim_get(F_SEND_AFTER);
  if (shim_get(F_SEND_SHORT) && *n > 1)
    *n /= 2;
  if (lim < 0)
    return 0;
  if (cur.out >= lim)
  {
    long e = shim_get(F_SEND_ERR);
    if (e == EINTR && cur.intr & 2)
      return 0;
    cur.intr |= 2;
    errno = e;
    *r = -1;
    return 1;
  }
  if (*n > (size_t)(lim - cur.out))
    *n = lim - cur.out;
  return 0;
}
#define SEND(call)                 \
  ssize_t r;                       \
  if (killed("send"))              \
  {                                \
    /* part of it has been sent; a small write to a file is done or not */ \
    struct stat st;                \
    if (n > 4096 || (!fstat(fd, &st) && !S_ISREG(st.st_mode))) \
    {                              \
      n /= 2;                      \
      r = call;                    \
    }                              \
    die();                         \
  }                                \
  if (send_fault(fd, &n, &r))      \
    return r;                      \
  r = call;                        \
  if (r < 0 ? errno == EINTR : (size_t)r < n) \
    __atomic_add_fetch(&shim_intr[1], 1, __ATOMIC_RELAXED); \
  if (r > 0 && cur.fd == fd)       \
    cur.out += r;                  \
  return r;
ssize_t __wrap_send(int fd, const void *b, size_t n, int f) { SEND(__real_send(fd, b, n, f)) }
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int f, const struct sockaddr *a, socklen_t l) { SEND(__real_sendto(fd, b, n, f, a, l)) }
ssize_t __wrap_write(int fd, const void *b, size_t n) { SEND(__real_write(fd, b, n)) }
/* The peer may be gone by the time somebody asks for its address */
int __real_getpeername(int, struct sockaddr *, socklen_t *);
int __wrap_getpeername(int fd, struct sockaddr *a, socklen_t *l)
{
  if (shim_get(F_PEER_ERR))
  {
    errno = shim_get(F_PEER_ERR);
    return -1;
  }
  return __real_getpeername(fd, a, l);
}
static int accept_fault(void)
{
  if (shim_get(F_ACCEPT_N) > 0)
  {
    __atomic_sub_fetch(&shim_fault[F_ACCEPT_N], 1, __ATOMIC_RELAXED);
    errno = shim_get(F_ACCEPT_ERR);
    return 1;
  }
  return 0;
}
/* An accept fault happens when a connection is there, and loses it only for ECONNABORTED */
static int do_accept(int fd, struct sockaddr *a, socklen_t *l, int flags)
{
  if (shim_get(F_ACCEPT_N) > 0 && shim_get(F_ACCEPT_ERR) != ECONNABORTED)
  {
    accept_fault();
    return -1;
  }
  int r = flags ? __real_accept4(fd, a, l, flags) : __real_accept(fd, a, l);
  if (r < 0 && errno == EINTR)
    __atomic_add_fetch(&shim_intr[2], 1, __ATOMIC_RELAXED);
  if (r >= 0 && accept_fault())
  {
    __real_close(r);
    return -1;
  }
  return r;
}
int __wrap_listen(int fd, int n)
{
  /* a longer queue in the kernel, so that bursts are not slowed down by lost SYNs */
  int r = __real_listen(fd, n < 4096 ? 4096 : n);
  ev("LISTEN r=%d backlog=%d", r, n);
  return r;
}
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l) { return do_accept(fd, a, l, 0); }
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *l, int f) { return do_accept(fd, a, l, f); }
int __wrap_close(int fd)
{
  long d = shim_get(F_CLOSE_DELAY);
  int sock = 0;
  KILL("close");
  if (d)
  {
    struct sockaddr_in a = {0};
    socklen_t l = sizeof a;
    sock = !getsockname(fd, (struct sockaddr *)&a, &l) && a.sin_family == AF_INET;
  }
  if (cur.fd == fd)
    cur.fd = -1;
  int r = __real_close(fd);
  if (d && sock)
  {
    int e = errno;
    usleep(d);
    errno = e;
  }
  return r;
}

/* TSan does not know stdio's lock */
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define WITH_TSAN 1
#endif
#endif
#ifdef WITH_TSAN
void __tsan_acquire(void *);
void __tsan_release(void *);
#endif
void __wrap_flockfile(FILE *f)
{
  __real_flockfile(f);
#ifdef WITH_TSAN
  __tsan_acquire(f);
#endif
}
void __wrap_funlockfile(FILE *f)
{
#ifdef WITH_TSAN
  __tsan_release(f);
#endif
  __real_funlockfile(f);
}

/* Calls that keep their state or result in memory all threads share, which TSan cannot see by itself */
struct tm *__real_gmtime(const time_t *);
struct tm *__real_localtime(const time_t *);
char *__real_strtok(char *, const char *);
char *__real_asctime(const struct tm *);
char *__real_ctime(const time_t *);
#ifdef WITH_TSAN
static volatile int hidden_strtok, hidden_tm, hidden_asc;
#define TOUCH(v) v++;
#else
#define TOUCH(v)
#endif
char *__wrap_strtok(char *s, const char *d) { TOUCH(hidden_strtok) return __real_strtok(s, d); }
struct tm *__wrap_gmtime(const time_t *t) { TOUCH(hidden_tm) return __real_gmtime(t); }
struct tm *__wrap_localtime(const time_t *t) { TOUCH(hidden_tm) return __real_localtime(t); }
char *__wrap_asctime(const struct tm *t) { TOUCH(hidden_asc) return __real_asctime(t); }
char *__wrap_ctime(const time_t *t) { TOUCH(hidden_tm) TOUCH(hidden_asc) return __real_ctime(t); }

/* The TLS library is not compiled for MSan: what it writes is initialised, and what happens inside it is not judged */
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define WROTE(p, n) do { if (p) __msan_unpoison((void *)(p), (n)); } while (0)
#define LIB_IN __msan_scoped_disable_interceptor_checks();
#define LIB_OUT __msan_scoped_enable_interceptor_checks();
#endif
#endif
#ifndef WROTE
#define WROTE(p, n) ((void)0)
#define LIB_IN
#define LIB_OUT
#endif
#define LIB(ret, name, params, args, after) \
  ret __real_##name params;                 \
  ret __wrap_##name params                  \
  {                                         \
    LIB_IN ret r = __real_##name args;      \
    LIB_OUT                                 \
    after;                                  \
    return r;                               \
  }
#define LIBV(name, params, args) \
  void __real_##name params;     \
  void __wrap_##name params { LIB_IN __real_##name args; LIB_OUT }
#define DIGEST_N(l) ((l) ? *(l) : 16)
LIB(unsigned char *, MD5, (const void *d, size_t n, unsigned char *md), (d, n, md), WROTE(r, 16))
LIB(int, MD5_Final, (unsigned char *md, void *c), (md, c), WROTE(md, 16))
LIB(void *, EVP_MD_CTX_new, (void), (), )
LIBV(EVP_MD_CTX_free, (void *c), (c))
LIB(int, EVP_DigestInit, (void *c, const void *t), (c, t), )
LIB(int, EVP_DigestInit_ex, (void *c, const void *t, void *e), (c, t, e), )
LIB(int, EVP_DigestUpdate, (void *c, const void *d, size_t n), (c, d, n), )
LIB(int, EVP_DigestFinal, (void *c, unsigned char *md, unsigned int *l), (c, md, l), WROTE(l, sizeof *l); WROTE(md, DIGEST_N(l)))
LIB(int, EVP_DigestFinal_ex, (void *c, unsigned char *md, unsigned int *l), (c, md, l), WROTE(l, sizeof *l); WROTE(md, DIGEST_N(l)))
LIB(int, EVP_Digest, (const void *d, size_t n, unsigned char *md, unsigned int *l, const void *t, void *e), (d, n, md, l, t, e), WROTE(l, sizeof *l); WROTE(md, DIGEST_N(l)))
LIB(int, EVP_Q_digest, (void *c, const char *a, const char *b, const void *d, size_t n, unsigned char *md, size_t *l), (c, a, b, d, n, md, l), WROTE(l, sizeof *l); WROTE(md, DIGEST_N(l)))
LIB(void *, SSL_CTX_new, (const void *m), (m), )
LIB(int, SSL_CTX_use_certificate_file, (void *c, const char *f, int t), (c, f, t), )
LIB(int, SSL_CTX_use_certificate_chain_file, (void *c, const char *f), (c, f), )
LIB(int, SSL_CTX_use_PrivateKey_file, (void *c, const char *f, int t), (c, f, t), )
LIB(void *, SSL_new, (void *c), (c), )
LIB(int, SSL_set_fd, (void *s, int fd), (s, fd), )
#define INTR if (r <= 0 && errno == EINTR) __atomic_add_fetch(&shim_intr[3], 1, __ATOMIC_RELAXED)
LIB(int, SSL_accept, (void *s), (s), INTR)
LIB(int, SSL_read, (void *s, void *b, int n), (s, b, n), if (r > 0) WROTE(b, r); INTR)
LIB(int, SSL_read_ex, (void *s, void *b, size_t n, size_t *l), (s, b, n, l), WROTE(l, sizeof *l); if (r > 0) WROTE(b, *l))
static void kill_here(void) { KILL("SSL_write"); }
LIB(int, SSL_write, (void *s, const void *b, int n), (s, b, n), kill_here(); INTR)
LIB(int, SSL_shutdown, (void *s), (s), )
LIBV(SSL_free, (void *s), (s))
/* By value, which MSan does not look at by itself */
char *__real_inet_ntoa(struct in_addr);
char *__wrap_inet_ntoa(struct in_addr a)
{
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
  __msan_check_mem_is_initialized(&a, sizeof a);
#endif
#endif
  return __real_inet_ntoa(a);
}

/* ---- accelerated time: with VSHIM_SPEED=n the code under test sees a clock n times as fast, and everything it
   waits for takes an n-th of the time, so that seconds of a client are minutes to the server. */
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/select.h>
#include <sys/time.h>
#include <sys/timerfd.h>
static long speed = 1;
static struct timespec base_rt, base_mono;
time_t __real_time(time_t *);
int __real_gettimeofday(struct timeval *, void *);
int __real_nanosleep(const struct timespec *, struct timespec *);
int __real_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *);
int __real_usleep(useconds_t);
unsigned __real_sleep(unsigned);
unsigned __real_alarm(unsigned);
int __real_setitimer(__itimer_which_t, const struct itimerval *, struct itimerval *);
int __real_timer_settime(timer_t, int, const struct itimerspec *, struct itimerspec *);
int __real_timerfd_settime(int, int, const struct itimerspec *, struct itimerspec *);
int __real_poll(struct pollfd *, nfds_t, int);
int __real_ppoll(struct pollfd *, nfds_t, const struct timespec *, const sigset_t *);
int __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *);
int __real_pselect(int, fd_set *, fd_set *, fd_set *, const struct timespec *, const sigset_t *);
int __real_epoll_wait(int, struct epoll_event *, int, int);
int __real_setsockopt(int, int, int, const void *, socklen_t);
int __real_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);

static void speed_init(void)
{
  const char *s = getenv("VSHIM_SPEED");
  if (s && atol(s) > 1 && speed == 1)
  {
    __real_clock_gettime(CLOCK_REALTIME, &base_rt);
    __real_clock_gettime(CLOCK_MONOTONIC, &base_mono);
    speed = atol(s);
  }
}
static long long ts_ns(const struct timespec *t) { return t->tv_sec * 1000000000ll + t->tv_nsec; }
static struct timespec ns_ts(long long n)
{
  struct timespec t = {n / 1000000000, n % 1000000000};
  return t;
}
static struct timespec ts_div(const struct timespec *t) { return ns_ts(ts_ns(t) / speed + (ts_ns(t) % speed != 0)); }
static struct timeval tv_div(const struct timeval *t)
{
  long long u = t->tv_sec * 1000000ll + t->tv_usec;
  u = u / speed + (u % speed != 0);
  struct timeval r = {u / 1000000, u % 1000000};
  return r;
}
static int ms_div(int ms) { return ms <= 0 ? ms : ms / speed + (ms % speed != 0); }
int __wrap_clock_gettime(clockid_t c, struct timespec *t)
{
  int r = __real_clock_gettime(c, t);
  if (speed > 1 && !r)
  {
    const struct timespec *b = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? &base_rt : c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_MONOTONIC_RAW || c == CLOCK_BOOTTIME ? &base_mono : NULL;
    if (b)
      *t = ns_ts(ts_ns(b) + (ts_ns(t) - ts_ns(b)) * speed);
  }
  long step = shim_get(F_CLOCK_STEP);
  if (step && !r && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE))
    *t = ns_ts(ts_ns(t) + step * 1000000ll);
  return r;
}
time_t __wrap_time(time_t *out)
{
  if (speed == 1 && !shim_get(F_CLOCK_STEP))
    return __real_time(out);
  struct timespec t;
  __wrap_clock_gettime(CLOCK_REALTIME, &t);
  if (out)
    *out = t.tv_sec;
  return t.tv_sec;
}
int __wrap_gettimeofday(struct timeval *tv, void *z)
{
  if (speed == 1 && !shim_get(F_CLOCK_STEP))
    return __real_gettimeofday(tv, z);
  struct timespec t;
  __wrap_clock_gettime(CLOCK_REALTIME, &t);
  tv->tv_sec = t.tv_sec;
  tv->tv_usec = t.tv_nsec / 1000;
  return 0;
}
int __wrap_nanosleep(const struct timespec *t, struct timespec *rem)
{
  struct timespec d = *t;
  if (speed > 1)
    d = ts_div(t);
  return __real_nanosleep(&d, rem);
}
int __wrap_clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *rem)
{
  struct timespec d = *t;
  if (speed > 1 && !(fl & TIMER_ABSTIME))
    d = ts_div(t);
  return __real_clock_nanosleep(c, fl, &d, rem);
}
int __wrap_usleep(useconds_t u) { return __real_usleep(u / speed); }
unsigned __wrap_sleep(unsigned s)
{
  if (speed == 1)
    return __real_sleep(s);
  __real_usleep((long long)s * 1000000 / speed);
  return 0;
}
unsigned __wrap_alarm(unsigned s) { return __real_alarm(s ? s / speed + (s % speed != 0) : 0); }
int __wrap_setitimer(__itimer_which_t w, const struct itimerval *n, struct itimerval *o)
{
  struct itimerval d;
  if (n && speed > 1)
  {
    d.it_interval = tv_div(&n->it_interval);
    d.it_value = tv_div(&n->it_value);
    n = &d;
  }
  return __real_setitimer(w, n, o);
}
int __wrap_timer_settime(timer_t id, int fl, const struct itimerspec *n, struct itimerspec *o)
{
  struct itimerspec d;
  if (speed > 1 && !(fl & TIMER_ABSTIME))
  {
    d.it_interval = ts_div(&n->it_interval);
    d.it_value = ts_div(&n->it_value);
    n = &d;
  }
  return __real_timer_settime(id, fl, n, o);
}
int __wrap_timerfd_settime(int fd, int fl, const struct itimerspec *n, struct itimerspec *o)
{
  struct itimerspec d;
  if (speed > 1 && !(fl & TFD_TIMER_ABSTIME))
  {
    d.it_interval = ts_div(&n->it_interval);
    d.it_value = ts_div(&n->it_value);
    n = &d;
  }
  return __real_timerfd_settime(fd, fl, n, o);
}
int __wrap_poll(struct pollfd *f, nfds_t n, int ms) { return __real_poll(f, n, ms_div(ms)); }
int __wrap_epoll_wait(int fd, struct epoll_event *e, int n, int ms) { return __real_epoll_wait(fd, e, n, ms_div(ms)); }
int __wrap_ppoll(struct pollfd *f, nfds_t n, const struct timespec *t, const sigset_t *m)
{
  struct timespec d;
  if (t && speed > 1)
    d = ts_div(t), t = &d;
  return __real_ppoll(f, n, t, m);
}
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t)
{
  struct timeval d;
  if (t && speed > 1)
  {
    d = tv_div(t);
    return __real_select(n, r, w, e, &d);
  }
  return __real_select(n, r, w, e, t);
}
int __wrap_pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *t, const sigset_t *m)
{
  struct timespec d;
  if (t && speed > 1)
    d = ts_div(t), t = &d;
  return __real_pselect(n, r, w, e, t, m);
}
int __wrap_setsockopt(int fd, int level, int opt, const void *v, socklen_t l)
{
  if (speed > 1 && level == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO) && l == sizeof(struct timeval))
  {
    struct timeval d = tv_div(v);
    return __real_setsockopt(fd, level, opt, &d, l);
  }
  if (speed > 1 && level == IPPROTO_TCP && opt == TCP_USER_TIMEOUT && l == sizeof(int))
  {
    int ms = ms_div(*(const int *)v);
    return __real_setsockopt(fd, level, opt, &ms, l);
  }
  return __real_setsockopt(fd, level, opt, v, l);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t)
{
  struct timespec d;
  if (speed > 1)
  {
    /* on the clock it is near to */
    long long n = ts_ns(t), b = ts_ns(&base_rt);
    if (n < b / 2)
      b = ts_ns(&base_mono);
    d = ns_ts(b + (n - b) / speed);
    t = &d;
  }
  return __real_pthread_cond_timedwait(c, m, t);
}
