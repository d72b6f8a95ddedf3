/* An application that embeds the server: its handlers record what they are given.
   Arguments: a file with one setting per line. Control commands are read from stdin. */
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dirent.h>
#include <errno.h>
#include <netinet/in.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include "wayuu.h"
#include "shim.h"

extern bool WAYUU_SSL_ON;
extern long return_file(api_request *req, char *path) __attribute__((weak));
#ifndef HAS_ASAN
#define HAS_ASAN 0
#endif
#if HAS_ASAN
#include <sanitizer/allocator_interface.h>
#include <sanitizer/lsan_interface.h>
#endif
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define HAS_MSAN 1
#endif
#endif

#define MAXR 200
static char *beh[MAXR];  /* what the handler of route i does */
static char *fbeh[MAXR]; /* what its filter does */
static int quiet;        /* no events from handlers */

static long live_blocks;
#if HAS_ASAN
/* The TLS library keeps per-thread state (its error queues): its memory is counted by itself */
#include <openssl/crypto.h>
static long tls_bytes;
static __thread int in_tls;
static void tls_count(void *p, int d)
{
  if (p)
    __atomic_add_fetch(&tls_bytes, d * (long)__sanitizer_get_allocated_size(p), __ATOMIC_RELAXED);
}
static void *tls_malloc(size_t n, const char *f, int l) { in_tls++; void *p = malloc(n); in_tls--; tls_count(p, 1); return p; }
static void tls_free(void *p, const char *f, int l) { tls_count(p, -1); in_tls++; free(p); in_tls--; }
static void *tls_realloc(void *p, size_t n, const char *f, int l)
{
  tls_count(p, -1);
  in_tls++;
  void *q = realloc(p, n);
  in_tls--;
  tls_count(q ? q : (n ? p : NULL), 1);
  return q;
}
static void mhook(const volatile void *p, size_t n) { if (p && !in_tls) __atomic_add_fetch(&live_blocks, 1, __ATOMIC_RELAXED); }
static void fhook(const volatile void *p) { if (p && !in_tls) __atomic_sub_fetch(&live_blocks, 1, __ATOMIC_RELAXED); }
#endif

/* ---- gates ---- */
static pthread_mutex_t gm = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t gc = PTHREAD_COND_INITIALIZER;
static char **released;
static int n_released, cap_released, release_all;
static long release_n; /* number of anonymous releases available */

static void gate_wait(const char *id)
{
  pthread_mutex_lock(&gm);
  for (;;)
  {
    int ok = release_all;
    for (int i = 0; i < n_released && !ok; i++)
      if (!strcmp(released[i], id))
      {
        ok = 1;
        free(released[i]);
        released[i] = released[--n_released];
      }
    if (ok)
      break;
    pthread_cond_wait(&gc, &gm);
  }
  pthread_mutex_unlock(&gm);
}
static void gate_wait_any(void)
{
  pthread_mutex_lock(&gm);
  while (!release_all && release_n <= 0)
    pthread_cond_wait(&gc, &gm);
  if (!release_all)
    release_n--;
  pthread_mutex_unlock(&gm);
}

/* ---- request dumps ---- */
static const char *hdr(api_request *r, const char *n)
{
  for (int i = 0; i < r->n_headers && i < HTTP_MAX_HEADERS; i++)
    if (!strcasecmp(r->headers[i].name, n))
      return r->headers[i].value;
  return NULL;
}
static void qarg(const char *qs, const char *name, char *out, size_t n)
{
  *out = 0;
  size_t l = strlen(name);
  for (const char *p = qs; p && *p; p = strchr(p, '&') ? strchr(p, '&') + 1 : NULL)
    if (!strncmp(p, name, l) && p[l] == '=')
    {
      p += l + 1;
      size_t m = strcspn(p, "&");
      if (m >= n)
        m = n - 1;
      memcpy(out, p, m);
      out[m] = 0;
      return;
    }
}
static void dump(const char *kind, int idx, api_request *r)
{
  if (quiet)
    return;
  /* A plain body has Content-Length bytes, which may contain zeros */
  size_t blen = r->form ? strlen(r->form) : 0;
  const char *cl = hdr(r, "Content-Length");
  char raw[16];
  qarg(r->query_string, "raw", raw, sizeof raw);
  if (*raw && cl && atol(cl) > 0)
    blen = atol(cl);
  char *m = hexs(r->method), *u = hexs(r->url), *p = hexs(r->path), *q = hexs(r->query_string), *f = hexn(r->form, blen);
  char *c = hexs(r->content_type), *ip = hexs(r->IP), *se = hexs(r->session), *rl = hexs(r->request_line), *us = hexs(r->username);
  size_t hl = 16;
  for (int i = 0; i < r->n_headers; i++)
    hl += 2 * (strlen(r->headers[i].name) + strlen(r->headers[i].value)) + 8;
  char *h = calloc(hl, 1), *w = h;
  for (int i = 0; i < r->n_headers; i++)
  {
    char *a = hexs(r->headers[i].name), *b = hexs(r->headers[i].value);
    w += sprintf(w, "%s:%s,", a, b);
    free(a);
    free(b);
  }
  ev("%s idx=%d req=%p method=%s url=%s path=%s qs=%s form=%s ct=%s ip=%s session=%s line=%s user=%s nh=%d headers=%s start=%llu",
     kind, idx, (void *)r, m, u, p, q, f, c, ip, se, rl, us, r->n_headers, h, (unsigned long long)r->request_start);
  free(m); free(u); free(p); free(q); free(f); free(c); free(ip); free(se); free(rl); free(us); free(h);
}

static char *int_entity(void *o) { return json_key_value_int("n", *(int *)o); }

/* Answers with the helper the query asks for, and the request body as the payload */
static void helper(api_request *r)
{
  char op[32], st[16];
  qarg(r->query_string, "op", op, sizeof op);
  qarg(r->query_string, "st", st, sizeof st);
  int status = *st ? atoi(st) : 200;
  if (!strcmp(op, "ok")) ok(r);
  else if (!strcmp(op, "created")) created(r);
  else if (!strcmp(op, "not_found")) not_found(r);
  else if (!strcmp(op, "bad_request")) bad_request(r);
  else if (!strcmp(op, "forbidden")) forbidden(r);
  else if (!strcmp(op, "not_auth")) not_authenticated(r);
  else if (!strcmp(op, "too_many")) too_many_connections(r);
  else if (!strcmp(op, "ise")) internal_server_error(r);
  else if (!strcmp(op, "json")) return_json(r, r->form);
  else if (!strcmp(op, "jsonst")) return_json_with_status(r, status, r->form);
  else if (!strcmp(op, "cjson")) created_with_json(r, r->form);
  else if (!strcmp(op, "text")) send_http_status(r, status, r->form);
  else if (!strncmp(op, "big", 3))
  {
    /* a text of as many bytes */
    long n = atol(st);
    char *t = malloc(n + 1);
    for (long i = 0, a = 0, l = 0; i < n; i++)
    {
      t[i] = l == 4092 ? '\n' : 'a' + a;
      a = a == 22 ? 0 : a + 1;
      l = l == 4092 ? 0 : l + 1;
    }
    t[n] = 0;
    if (!strcmp(op, "bigtext")) send_http_status(r, 200, t);
    else if (!strcmp(op, "bigjson")) return_json(r, t);
    else
    {
      FILE *f = fmemopen(t, n, "r");
      return_json_stream(r, 200, f);
      fclose(f);
    }
    free(t);
  }
  else if (!strcmp(op, "stream"))
  {
    FILE *f = fmemopen(r->form, strlen(r->form) ? strlen(r->form) : 1, "r");
    if (!strlen(r->form)) { char c; if (f && fread(&c, 1, 1, f)) ; }
    return_json_stream(r, status, f);
    if (f) fclose(f);
  }
  else if (!strcmp(op, "list"))
  {
    int n = *st ? status : 0;
    json_list_t l = {n, int_entity, calloc(n + 1, sizeof(void *))};
    for (int i = 0; i < n; i++)
    {
      int *v = malloc(sizeof(int));
      *v = i * 7919;
      l.elements[i] = v;
    }
    return_json_list(r, l);
  }
  else if (!strcmp(op, "err"))
  {
    wayuu_error_t *e = new_error_with_values("CODE", r->form);
    if (status == 403) forbidden_with_error(r, e);
    else if (status == 500) internal_server_error_with_error(r, e);
    else bad_request_with_error(r, e);
    free(e);
  }
  else if (!strcmp(op, "mime"))
  {
    int n = return_headers_with_mime(r, status, "text/plain");
    send_empty_line(r);
    http_print_str(r, r->form);
    r->response_length = n + 2 + strlen(r->form);
    log_access(r, status);
  }
  else return_json(r, "{\"ok\":1}");
}

static void handle(int i, api_request *r)
{
  const char *b = beh[i];
  dump("H", i, r);
  if (!strcmp(b, "dump"))
  {
    char *u = hexs(r->url), *o;
    if (asprintf(&o, "{\"route\":%d,\"url\":\"%s\"}", i, u) > 0)
    {
      return_json(r, o);
      free(o);
    }
    free(u);
  }
  else if (!strcmp(b, "hold"))
  {
    char id[128];
    qarg(r->query_string, "id", id, sizeof id);
    gate_wait(id);
    ev("EXIT idx=%d id=%s", i, id);
    ok(r);
  }
  else if (!strncmp(b, "sleep", 5))
  {
    char ms[16];
    qarg(r->query_string, "ms", ms, sizeof ms);
    long n = atol(ms);
    struct timespec t = {n / 1000, n % 1000 * 1000000};
    nanosleep(&t, NULL);
    char *u = hexs(r->url);
    ev("EXIT idx=%d url=%s", i, u);
    free(u);
    qarg(r->query_string, "op", ms, sizeof ms);
    if (*ms)
      helper(r);
    else
      return_json(r, "{\"slept\":1}");
  }
  else if (!strcmp(b, "helper"))
  {
    helper(r);
    if (!quiet)
    {
      char *u = hexs(r->url);
      ev("LEN idx=%d url=%s len=%lu", i, u, (unsigned long)r->response_length);
      free(u);
    }
  }
  else if (!strcmp(b, "lookup"))
  {
    /* n=<hex of a name>,... */
    char *q = strstr(r->query_string, "n="), *u = hexs(r->url), *o = calloc(1, 1 << 18), *w = o;
    for (char *p = q ? q + 2 : ""; *p;)
    {
      char name[600];
      size_t k = 0;
      unsigned v;
      while (*p && *p != ',' && *p != '&' && k < sizeof name - 1 && sscanf(p, "%2x", &v) == 1)
      {
        name[k++] = v;
        p += 2;
      }
      name[k] = 0;
      char *x = http_get_header(r, name), *h = hexs(x);
      w += sprintf(w, "%s,", h);
      if (x && *x)
        free(x);
      free(h);
      if (*p == ',')
        p++;
      else
        break;
    }
    ev("LOOK idx=%d url=%s values=%s", i, u, o);
    free(u);
    free(o);
    ok(r);
  }
  else if (!strcmp(b, "direct"))
  {
    /* the body names the file */
    char *p, *u = hexs(r->url);
    if (asprintf(&p, "%s/%s", WAYUU_STATIC_ROOT, r->form) < 0)
      abort();
    char way[4];
    qarg(r->query_string, "w", way, sizeof way);
    if (way[0] == 'f' && return_file)
    {
      /* the handler sends the headers, an empty line and the file's bytes */
      int h = return_headers_with_mime(r, 200, "image/png");
      send_empty_line(r);
      long l = return_file(r, p);
      ev("FILE idx=%d url=%s n=%ld head=%d", i, u, l, h + 2);
      free(u);
      free(p);
      return;
    }
    int n = direct_file(r, p);
    ev("DIRECT idx=%d url=%s n=%d len=%lu", i, u, n, (unsigned long)r->response_length);
    free(u);
    free(p);
    if (n < 0)
      not_found(r);
  }
  else if (!strcmp(b, "headers"))
  {
    /* headers of some kind, an empty line if they have none, and the body in blocks */
    char op[16], st[16], mime[400], blk[16], *u = hexs(r->url);
    int n = -1;
    qarg(r->query_string, "op", op, sizeof op);
    qarg(r->query_string, "st", st, sizeof st);
    qarg(r->query_string, "m", mime, sizeof mime);
    qarg(r->query_string, "b", blk, sizeof blk);
    if (!strcmp(op, "mime"))
      n = return_headers_with_mime(r, atoi(st), mime);
    else if (!strcmp(op, "json"))
      n = return_json_headers(r, atoi(st));
    else
      n = return_headers(r, mime);
    if (strcmp(op, "file"))
      send_empty_line(r);
    const char *cl = hdr(r, "Content-Length");
    long all = cl ? atol(cl) : 0, step = atol(blk) > 0 ? atol(blk) : 1;
    for (long at = 0; at < all; at += step)
      http_print(r, r->form + at, all - at < step ? all - at : step);
    ev("SENT idx=%d url=%s n=%d", i, u, n);
    free(u);
  }
  else if (!strcmp(b, "logs"))
  {
    log_trace("trace %s", r->url);
    log_error("error %s", r->url);
    log_warn("warn %s", r->url);
    http_log_headers(r);
    log_debug("debug %s", r->url);
    log_info("info %s", r->url);
    char *h = http_get_header(r, "X-Id");
    str_list_t *l = split(r->query_string, "&=");
    char *j = json_array_of_strings(l->strings, l->n_str);
    return_json(r, j);
    free(j);
    free_str_list_t(l);
    if (*h)
      free(h);
  }
  else
    ok(r);
}
static bool filt(int i, api_request *r)
{
  const char *b = fbeh[i];
  char v[8];
  dump("F", i, r);
  bool accept = true;
  if (!strcmp(b, "refuse"))
    accept = false;
  else if (!strcmp(b, "byq"))
  {
    qarg(r->query_string, "v", v, sizeof v);
    accept = !strcmp(v, "1");
  }
  else if (!strcmp(b, "hold"))
  {
    char id[128];
    qarg(r->query_string, "id", id, sizeof id);
    gate_wait(id);
    qarg(r->query_string, "v", v, sizeof v);
    accept = strcmp(v, "0") != 0;
  }
  else if (!strcmp(b, "alt"))
  {
    /* the verdict does not depend on the request */
    static unsigned long n;
    unsigned long k = __atomic_fetch_add(&n, 1, __ATOMIC_RELAXED);
    accept = (k * 2654435761u >> 7) & 1;
  }
  else if (!strcmp(b, "slowq"))
  {
    /* the verdict takes as long as the query says */
    char ms[16];
    qarg(r->query_string, "us", ms, sizeof ms);
    usleep(atol(ms));
    qarg(r->query_string, "v", v, sizeof v);
    accept = !strcmp(v, "1");
    usleep(atol(ms) / 3);
  }
  if (!quiet)
    ev("V idx=%d req=%p accept=%d", i, (void *)r, accept);
  if (!accept)
    forbidden(r);
  return accept;
}

#define X1(n) static void h##n(api_request *r) { handle(n, r); } static bool f##n(api_request *r) { return filt(n, r); }
#define X10(d) X1(d##0) X1(d##1) X1(d##2) X1(d##3) X1(d##4) X1(d##5) X1(d##6) X1(d##7) X1(d##8) X1(d##9)
#define P1(n) h##n,
#define P10(d) P1(d##0) P1(d##1) P1(d##2) P1(d##3) P1(d##4) P1(d##5) P1(d##6) P1(d##7) P1(d##8) P1(d##9)
#define Q1(n) f##n,
#define Q10(d) Q1(d##0) Q1(d##1) Q1(d##2) Q1(d##3) Q1(d##4) Q1(d##5) Q1(d##6) Q1(d##7) Q1(d##8) Q1(d##9)
#define ALL(M) M() M(1) M(2) M(3) M(4) M(5) M(6) M(7) M(8) M(9) M(10) M(11) M(12) M(13) M(14)
ALL(X10)
static const request_handler handlers[] = {ALL(P10)};
static const request_filter filters[] = {ALL(Q10)};
#define NH ((int)(sizeof handlers / sizeof handlers[0]))

/* ---- raw connection handler, for the job queue ---- */
static int raw_hold;
static void raw_handler(int s)
{
  struct sockaddr_in a = {0};
  socklen_t l = sizeof a;
  getpeername(s, (struct sockaddr *)&a, &l);
  ev("TAKE sock=%d port=%d host=%u", s, ntohs(a.sin_port), ntohl(a.sin_addr.s_addr));
  if (__atomic_load_n(&raw_hold, __ATOMIC_RELAXED))
    gate_wait_any();
  char c = 'K';
  send(s, &c, 1, MSG_NOSIGNAL);
  ev("DONE sock=%d port=%d host=%u", s, ntohs(a.sin_port), ntohl(a.sin_addr.s_addr));
  close(s);
}

static int count_fds(void)
{
  int n = 0;
  DIR *d = opendir("/proc/self/fd");
  while (d && readdir(d))
    n++;
  if (d)
    closedir(d);
  return n - 3;
}

/* Signals that the application handles, sent to one thread after the other */
static long storm_us, storm_restart = -1, storm_seen, storm_sent;
static long own_tid[2];
static void on_signal(int n)
{
  __atomic_add_fetch(&storm_seen, 1, __ATOMIC_RELAXED);
}
static void *storm(void *arg)
{
  __atomic_store_n(&own_tid[1], syscall(SYS_gettid), __ATOMIC_RELAXED);
  static int tids[4096];
  int n = 0, at = 0, age = 0;
  while (1)
  {
    long us = __atomic_load_n(&storm_us, __ATOMIC_RELAXED);
    if (us <= 0)
    {
      usleep(1000);
      age = 0;
      continue;
    }
    if (age-- <= 0)
    {
      DIR *d = opendir("/proc/self/task");
      struct dirent *e;
      n = 0;
      while (d && (e = readdir(d)) && n < 4096)
        if (atoi(e->d_name) > 0 && atoi(e->d_name) != own_tid[0] && atoi(e->d_name) != own_tid[1])
          tids[n++] = atoi(e->d_name);
      if (d)
        closedir(d);
      age = 2000;
    }
    if (n)
    {
      at = (at + 1) % n;
      if (!syscall(SYS_tgkill, getpid(), tids[at], SIGUSR1))
        storm_sent++;
    }
    struct timespec t = {0, us * 1000};
    if (us > 5 || at % 4 == 0)
      nanosleep(&t, NULL);
  }
  return arg;
}

static void *control(void *arg)
{
  __atomic_store_n(&own_tid[0], syscall(SYS_gettid), __ATOMIC_RELAXED);
  char line[65536];
  size_t n = 0;
  char one = 0;
  while (syscall(SYS_read, 0, &one, 1) == 1)
  {
    if (one != '\n')
    {
      if (n < sizeof line - 1)
        line[n++] = one;
      continue;
    }
    line[n] = 0;
    n = 0;
    char *arg1 = strchr(line, ' ');
    if (arg1)
      *arg1++ = 0;
    else
      arg1 = "";
    if (!strcmp(line, "release"))
    {
      pthread_mutex_lock(&gm);
      if (n_released == cap_released)
        released = realloc(released, sizeof(char *) * (cap_released = cap_released * 2 + 64));
      released[n_released++] = strdup(arg1);
      pthread_cond_broadcast(&gc);
      pthread_mutex_unlock(&gm);
    }
    else if (!strcmp(line, "releasen"))
    {
      pthread_mutex_lock(&gm);
      release_n += atol(arg1);
      pthread_cond_broadcast(&gc);
      pthread_mutex_unlock(&gm);
    }
    else if (!strcmp(line, "releaseall"))
    {
      pthread_mutex_lock(&gm);
      release_all = atoi(arg1);
      pthread_cond_broadcast(&gc);
      pthread_mutex_unlock(&gm);
    }
    else if (!strcmp(line, "rawhold"))
      __atomic_store_n(&raw_hold, atoi(arg1), __ATOMIC_RELAXED);
    else if (!strcmp(line, "quiet"))
      quiet = atoi(arg1);
    else if (!strcmp(line, "level"))
      log_set_level(atoi(arg1));
    else if (!strcmp(line, "fault"))
    {
      char *eq = strchr(arg1, '=');
      if (eq)
      {
        *eq = 0;
        for (int i = 0; i < F_MAX; i++)
          if (!strcmp(shim_fault_name[i], arg1))
            shim_set(i, atol(eq + 1));
      }
    }
    else if (!strcmp(line, "nofile"))
    {
      struct rlimit r = {atol(arg1), 20000};
      setrlimit(RLIMIT_NOFILE, &r);
    }
    else if (!strcmp(line, "storm"))
    {
      /* storm <microseconds between signals, 0: none> <1: interrupted system calls are restarted> */
      long us = 0, restart = 0;
      sscanf(arg1, "%ld %ld", &us, &restart);
      if (us && restart != storm_restart)
      {
        struct sigaction a = {.sa_handler = on_signal, .sa_flags = restart ? SA_RESTART : 0};
        sigaction(SIGUSR1, &a, NULL);
        storm_restart = restart;
      }
      static int begun;
      if (us && !begun++)
      {
        pthread_t t;
        pthread_create(&t, NULL, storm, NULL);
      }
      __atomic_store_n(&storm_us, us, __ATOMIC_RELAXED);
      ev("STORM seen=%ld recv=%ld send=%ld accept=%ld tls=%ld", __atomic_load_n(&storm_seen, __ATOMIC_RELAXED), __atomic_load_n(&shim_intr[0], __ATOMIC_RELAXED),
         __atomic_load_n(&shim_intr[1], __ATOMIC_RELAXED), __atomic_load_n(&shim_intr[2], __ATOMIC_RELAXED), __atomic_load_n(&shim_intr[3], __ATOMIC_RELAXED));
      continue;
    }
    else if (!strcmp(line, "as"))
    {
      struct rlimit r = {atol(arg1), RLIM_INFINITY};
      setrlimit(RLIMIT_AS, &r);
    }
    else if (!strcmp(line, "stats"))
    {
      long bytes = -1;
      long blocks = __atomic_load_n(&live_blocks, __ATOMIC_RELAXED);
      int fds = count_fds();
#if HAS_ASAN
      long tls = __atomic_load_n(&tls_bytes, __ATOMIC_RELAXED);
      bytes = __sanitizer_get_current_allocated_bytes() - tls;
#else
      long tls = 0;
#endif
      ev("STATS tag=%s bytes=%ld blocks=%ld fds=%d tls=%ld", arg1, bytes, blocks, fds, tls);
      continue;
    }
    else if (!strcmp(line, "leakcheck"))
    {
      int r = 0;
#if HAS_ASAN
      r = __lsan_do_recoverable_leak_check();
#endif
      ev("LEAKS found=%d", r);
    }
    else if (!strcmp(line, "exit"))
    {
      ev("BYE");
      _exit(atoi(arg1));
    }
    ev("ACK cmd=%s", line);
  }
  /* the driver is gone */
  _exit(0);
  return arg;
}

int main(int argc, char *argv[])
{
  if (argc < 2)
    return 3;
#if HAS_ASAN
  CRYPTO_set_mem_functions(tls_malloc, tls_realloc, tls_free);
#endif
  FILE *f = fopen(argv[1], "r");
  if (!f)
    return 3;
  char line[8192], addr[64] = "127.0.0.1";
  int port = 0, raw = 0, n = 0;
  WAYUU_SSL_ON = false;
  strcpy(WWW_INDEX, DEFAULT_WWW_INDEX);
  strcpy(FAVICON_URL, DEFAULT_FAVICON_URL);
  router_init();
  while (fgets(line, sizeof line, f))
  {
    line[strcspn(line, "\n")] = 0;
    char *v = strchr(line, ' ');
    if (!v)
      continue;
    *v++ = 0;
    if (!strcmp(line, "root")) strcpy(WAYUU_WS_ROOT, v);
    else if (!strcmp(line, "static")) strcpy(WAYUU_STATIC_ROOT, v);
    else if (!strcmp(line, "index")) strcpy(WWW_INDEX, v);
    else if (!strcmp(line, "favicon")) strcpy(FAVICON_URL, v);
    else if (!strcmp(line, "port")) port = atoi(v);
    else if (!strcmp(line, "bind")) strcpy(addr, v);
    else if (!strcmp(line, "tls")) WAYUU_SSL_ON = atoi(v);
    else if (!strcmp(line, "level")) log_set_level(atoi(v));
    else if (!strcmp(line, "logfile")) log_set_file(v);
    else if (!strcmp(line, "raw")) raw = atoi(v);
    else if (!strcmp(line, "quiet")) quiet = atoi(v);
    else if (!strcmp(line, "route"))
    {
      /* route <behaviour> <filter or -> <template> */
      char *b = v, *fl = strchr(b, ' ');
      *fl++ = 0;
      char *t = strchr(fl, ' ');
      *t++ = 0;
      if (n >= NH)
        return 3;
      beh[n] = strdup(b);
      fbeh[n] = strdup(fl);
      char *tt = strdup(t);
      /* =K: what route K has */
      router_add_route(tt, handlers[*b == '=' ? atoi(b + 1) : n], strcmp(fl, "-") ? filters[*fl == '=' ? atoi(fl + 1) : n] : NULL);
      n++;
    }
  }
  fclose(f);
  if (!port)
  {
    /* find a free port */
    int s = socket(AF_INET, SOCK_STREAM, 0);
    struct sockaddr_in a = {.sin_family = AF_INET, .sin_addr.s_addr = inet_addr(addr)};
    socklen_t l = sizeof a;
    if (bind(s, (struct sockaddr *)&a, l) || getsockname(s, (struct sockaddr *)&a, &l))
      return 3;
    port = ntohs(a.sin_port);
    close(s);
  }
#if HAS_ASAN
  __sanitizer_install_malloc_and_free_hooks(mhook, fhook);
#endif
  pthread_t t;
  sigset_t all, old;
  sigfillset(&all);
  pthread_sigmask(SIG_SETMASK, &all, &old);
  pthread_create(&t, NULL, control, NULL);
  pthread_sigmask(SIG_SETMASK, &old, NULL);
  ev("START port=%d workers=%d queue=%d maxroutes=%d", port, WS_THREAD_POOL_SIZE, WS_MAX_CONNECTIONS, MAX_ROUTES);
  ws_launch(port, addr, raw ? raw_handler : NULL);
  return 4;
}
