/* Calls the public functions of the library as told by a script, with arguments in buffers of
   exactly their size, and prints the results. One line per call: operation and arguments
   (x<hex> text, ! missing, otherwise a number). */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <openssl/evp.h>
#include "wayuu.h"
#include "shim.h"

extern bool WAYUU_SSL_ON;
FILE *__real_fopen(const char *, const char *);
int __real_mkdir(const char *, mode_t);
int __real_unlink(const char *);
int __real_close(int);

typedef struct { char *s; size_t n; long num; int null; } arg;
static arg *a;
static int na;
static FILE *out;

/* exact copies, so that any access beyond them is reported */
static char *S(int i)
{
  if (i >= na || a[i].null)
    return NULL;
  char *p = malloc(a[i].n + 1);
  memcpy(p, a[i].s, a[i].n);
  p[a[i].n] = 0;
  return p;
}
static char *D(int i) /* without terminator */
{
  char *p = malloc(a[i].n ? a[i].n : 1);
  memcpy(p, a[i].s, a[i].n);
  if (!a[i].n)
    p = realloc(p, 1);
  return p;
}
static long N(int i) { return i < na ? a[i].num : 0; }
static void R(const char *s)
{
  char *h = hexs(s);
  fprintf(out, " %s", h);
  free(h);
}
static void RN(const char *s, size_t n)
{
  char *h = hexn(s, n);
  fprintf(out, " %s", h);
  free(h);
}
static void RI(long n) { fprintf(out, " %ld", n); }

static char *ser(void *o) { return strdup((char *)o); }

/* ---- configuration ---- */
static void item_out(conf_item *it)
{
  R(it->key);
  R(it->value);
  RI(it->n_multivalues);
  for (int i = 0; i < it->n_multivalues; i++)
    R(it->multivalue[i]);
}
static int delivered;
static int on_item(void *o, conf_item *it)
{
  delivered++;
  fprintf(out, " |");
  item_out(it);
  return 0;
}
/* items: n, then for each key value nm mv... */
static conf_item **items_in(int i, int *n)
{
  *n = N(i++);
  conf_item **it = malloc(sizeof(*it) * (*n + 1));
  for (int k = 0; k < *n; k++)
  {
    char *key = S(i++), *value = S(i++);
    int nm = N(i++);
    char **mv = malloc(sizeof(char *) * (nm ? nm : 1));
    for (int j = 0; j < nm; j++)
      mv[j] = S(i++);
    it[k] = new_conf_item_with_values(key, value, mv, nm);
    free(key);
    free(value);
    for (int j = 0; j < nm; j++)
      free(mv[j]);
    free(mv);
  }
  return it;
}
static int w_at;
static char *w_path;
static serializable *serialize(void *in)
{
  int n;
  conf_item **it = items_in(w_at, &n);
  serializable *s = new_serializable(strdup(w_path), it, n);
  free(it);
  return s;
}

/* files may not grow beyond n bytes, as on a full disk */
static void file_room(long n)
{
  struct rlimit l;
  signal(SIGXFSZ, SIG_IGN);
  getrlimit(RLIMIT_FSIZE, &l);
  l.rlim_cur = n < 0 ? l.rlim_max : n;
  setrlimit(RLIMIT_FSIZE, &l);
}

/* ---- responses over a socket pair ---- */
static char *cap;
static size_t cap_n, cap_size;
static void *drain(void *p)
{
  int fd = *(int *)p;
  for (;;)
  {
    if (cap_size - cap_n < 65536)
      cap = realloc(cap, cap_size = cap_size * 2 + 131072);
    ssize_t n = syscall(SYS_read, fd, cap + cap_n, cap_size - cap_n);
    if (n <= 0)
      return NULL;
    cap_n += n;
  }
}
static char EMPTY[] = "";
static api_request *req_new(int fd)
{
  api_request *r = calloc(1, sizeof *r);
  r->socket = fd;
  r->query_string = r->form = r->session = r->path = r->username = r->url = r->method = EMPTY;
  r->IP = "192.0.2.1";
  r->request_line = "GET /x HTTP/1.1";
  return r;
}
static int sp[2];
static pthread_t drainer;
static void cap_begin(void)
{
  cap_n = 0;
  if (socketpair(AF_UNIX, SOCK_STREAM, 0, sp))
    exit(3);
  pthread_create(&drainer, NULL, drain, &sp[1]);
}
static void cap_end(void)
{
  __real_close(sp[0]);
  pthread_join(drainer, NULL);
  __real_close(sp[1]);
}

/* ---- routing ---- */
#define NR 300
static int called[2 * NR + 10], n_called;
static int verdict[NR];
static void on_handler(int i, api_request *r)
{
  called[n_called++] = i;
  fprintf(out, " H%d", i);
  R(r->form);
  R(r->path);
  R(r->method);
}
static bool on_filter(int i, api_request *r)
{
  fprintf(out, " F%d", i);
  R(r->form);
  return verdict[i];
}
#define X1(n) static void h##n(api_request *r) { on_handler(n, r); } static bool f##n(api_request *r) { return on_filter(n, r); }
#define X10(d) X1(d##0) X1(d##1) X1(d##2) X1(d##3) X1(d##4) X1(d##5) X1(d##6) X1(d##7) X1(d##8) X1(d##9)
#define P1(n) h##n,
#define P10(d) P1(d##0) P1(d##1) P1(d##2) P1(d##3) P1(d##4) P1(d##5) P1(d##6) P1(d##7) P1(d##8) P1(d##9)
#define Q1(n) f##n,
#define Q10(d) Q1(d##0) Q1(d##1) Q1(d##2) Q1(d##3) Q1(d##4) Q1(d##5) Q1(d##6) Q1(d##7) Q1(d##8) Q1(d##9)
#define ALL(M) M() M(1) M(2) M(3) M(4) M(5) M(6) M(7) M(8) M(9) M(10) M(11) M(12) M(13) M(14) M(15)
ALL(X10)
static const request_handler handlers[] = {ALL(P10)};
static const request_filter filters[] = {ALL(Q10)};
#define NH ((int)(sizeof handlers / sizeof handlers[0]))

/* ---- logging ---- */
static int log_n, log_seed;
static const char *log_tag;
/* how many of its messages each thread has logged, in a file that outlives the process */
static int *log_done;
static unsigned rnd(unsigned *s)
{
  *s = *s * 1664525u + 1013904223u;
  return *s >> 8;
}
static void *logger(void *p)
{
  int t = (int)(long)p;
  unsigned s = log_seed * 7919u + t * 104729u + 1;
  char *big = malloc(20001);
  for (int i = 0; i < log_n; i++)
  {
    int lvl = rnd(&s) % 5;
    int k = rnd(&s) % 40;
    int len = k == 0 ? rnd(&s) % 20000 : k < 4 ? rnd(&s) % 3000 : k < 8 ? 240 + rnd(&s) % 40 : k < 12 ? 1000 + rnd(&s) % 50 : rnd(&s) % 60;
    for (int j = 0; j < len; j++)
      big[j] = "abcdefghijklmnopqrstuvwxyz %,:;[]0123456789"[(j * 7 + i + t) % 43];
    big[len] = 0;
    switch (lvl)
    {
    case 0: log_trace("%s T%d #%d %d <%s>", log_tag, t, i, len, big); break;
    case 1: log_debug("%s T%d #%d %d <%s>", log_tag, t, i, len, big); break;
    case 2: log_info("%s T%d #%d %d <%s>", log_tag, t, i, len, big); break;
    case 3: log_warn("%s T%d #%d %d <%s>", log_tag, t, i, len, big); break;
    case 4: log_error("%s T%d #%d %d <%s>", log_tag, t, i, len, big); break;
    }
    if (log_done)
      __atomic_store_n(&log_done[t], i + 1, __ATOMIC_RELEASE);
  }
  free(big);
  return NULL;
}

static char *big_block(long n)
{
  char *d = malloc(n + 1);
  for (long i = 0; i < n; i++)
    d[i] = i & 0xfff;
  for (long i = 0; i + 16 <= n; i += 1 << 20)
    snprintf(d + i, 16, "%015ld", i >> 20);
  d[n] = 0;
  return d;
}

static char *big_text(long n)
{
  char *d = malloc(n + 1);
  for (long i = 0, a = 0, l = 0; i < n; i++)
  {
    d[i] = l == 4092 ? '\n' : 'a' + a;
    a = a == 22 ? 0 : a + 1;
    l = l == 4092 ? 0 : l + 1;
  }
  d[n] = 0;
  return d;
}
static void digest(char *out, EVP_MD_CTX *m)
{
  unsigned char d[EVP_MAX_MD_SIZE];
  unsigned n = 0;
  EVP_DigestFinal_ex(m, d, &n);
  for (unsigned i = 0; i < n; i++)
    sprintf(out + 2 * i, "%02x", d[i]);
  EVP_MD_CTX_free(m);
}

/* takes a long response: keeps its start, and digests what follows the blank line */
static char big_head[4096], big_sum[100];
static size_t big_head_n, big_total;
static void *big_drain(void *p)
{
  int fd = *(int *)p;
  static char b[1 << 20];
  EVP_MD_CTX *m = EVP_MD_CTX_new();
  EVP_DigestInit_ex(m, EVP_md5(), NULL);
  bool in_body = false;
  big_head_n = big_total = 0;
  for (ssize_t n; (n = syscall(SYS_read, fd, b, sizeof b)) > 0; big_total += n)
  {
    ssize_t i = 0;
    for (; i < n && !in_body && big_head_n < sizeof big_head; i++)
    {
      big_head[big_head_n++] = b[i];
      in_body = big_head_n >= 4 && !memcmp(big_head + big_head_n - 4, "\r\n\r\n", 4);
    }
    EVP_DigestUpdate(m, b + i, n - i);
  }
  digest(big_sum, m);
  return NULL;
}

static void run(char *op)
{
#define OP(x) else if (!strcmp(op, x))
  if (!strcmp(op, "put"))
  {
    char *p = S(0);
    FILE *f = __real_fopen(p, "wb");
    if (f)
    {
      fwrite(a[1].s, 1, a[1].n, f);
      fclose(f);
    }
    RI(f != NULL);
    free(p);
  }
  OP("get")
  {
    char *p = S(0);
    FILE *f = __real_fopen(p, "rb");
    if (!f)
      fprintf(out, " !");
    else
    {
      fseek(f, 0, SEEK_END);
      long n = ftell(f);
      rewind(f);
      char *b = malloc(n + 1);
      n = fread(b, 1, n, f);
      RN(b, n);
      free(b);
      fclose(f);
    }
    free(p);
  }
  OP("del") { char *p = S(0); RI(__real_unlink(p)); free(p); }
  OP("join")
  {
    int n = N(0);
    char *d = S(1), **arr = malloc(sizeof(char *) * (n > 0 ? n : 1));
    for (int i = 0; i < n; i++)
      arr[i] = S(2 + i);
    char *o = join(n < 0 ? NULL : arr, n < 0 ? 0 : n, d);
    R(o);
    free(o);
    for (int i = 0; i < n; i++)
      free(arr[i]);
    free(arr);
    free(d);
  }
  OP("split")
  {
    char *s = S(0), *d = S(1);
    str_list_t *l = split(s, d);
    RI(l->n_str);
    for (int i = 0; i < l->n_str; i++)
      R(l->strings[i]);
    free_str_list_t(l);
    R(s);
    free(s);
    free(d);
  }
  OP("split_once")
  {
    char *s = S(0), *d = S(1);
    str_list_t *l = split_once(s, d);
    RI(l->n_str);
    for (int i = 0; i < l->n_str; i++)
      R(l->strings[i]);
    free_str_list_t(l);
    R(s);
    free(s);
    free(d);
  }
  OP("trim") { char *s = S(0); trim(s); R(s); free(s); }
  OP("rtrim") { char *s = S(0); char *o = rtrim(s, N(1)); R(o); R(s); free(o); free(s); }
  OP("chop") { char *s = S(0); chop_string(s); R(s); free(s); }
  OP("startswith") { char *s = S(0), *p = S(1); RI(startswith(s, p) != 0); free(s); free(p); }
  OP("startswithany")
  {
    char *s = S(0);
    int n = N(1);
    const char **l = malloc(sizeof(char *) * (n + 1));
    for (int i = 0; i < n; i++)
      l[i] = S(2 + i);
    l[n] = NULL;
    RI(startswithany(s, l) != 0);
    for (int i = 0; i < n; i++)
      free((char *)l[i]);
    free(l);
    free(s);
  }
  OP("tfa") { char *h = D(0), *n = S(1); RI(text_find_after(h, n, N(2), N(3))); free(h); free(n); }
  OP("isalnum") { char *s = S(0); RI(string_isalnum(s) != 0); free(s); }
  OP("md5") { char *d = D(0), *o = malloc(33); memset(o, '#', 33); md5sum(o, d, a[0].n); RN(o, 33); free(o); free(d); }
  OP("jarr")
  {
    int n = N(0);
    char **arr = malloc(sizeof(char *) * (n > 0 ? n : 1));
    for (int i = 0; i < n; i++)
      arr[i] = S(1 + i);
    char *o = json_array_of_strings(n < 0 ? NULL : arr, n < 0 ? 0 : n);
    R(o);
    free(o);
    for (int i = 0; i < n; i++)
      free(arr[i]);
    free(arr);
  }
  OP("jints")
  {
    int n = N(0);
    int *arr = malloc(sizeof(int) * (n > 0 ? n : 1));
    for (int i = 0; i < n; i++)
      arr[i] = N(1 + i);
    char *o = json_array_of_ints(n < 0 ? NULL : arr, n < 0 ? 0 : n);
    R(o);
    free(o);
    free(arr);
  }
  OP("jents")
  {
    int n = N(0);
    json_list_t l = {n, ser, malloc(sizeof(void *) * (n ? n : 1))};
    for (int i = 0; i < n; i++)
      l.elements[i] = S(1 + i);
    char *o = json_array_of_entities(l);
    R(o);
    free(o);
    for (int i = 0; i < n; i++)
      free(l.elements[i]);
    free(l.elements);
  }
  OP("jkv") { char *k = S(0), *v = S(1); char *o = json_key_value(k, v); R(o); free(o); free(k); free(v); }
  OP("jkvi") { char *k = S(0); char *o = json_key_value_int(k, N(1)); R(o); free(o); free(k); }
  OP("jkvb") { char *k = S(0); char *o = json_key_value_bool(k, N(1)); R(o); free(o); free(k); }
  OP("jkvu") { char *k = S(0); char *o = json_key_value_uint32_t(k, N(1)); R(o); free(o); free(k); }
  OP("err")
  {
    char *c = S(0), *m = S(1);
    wayuu_error_t *e = new_error_with_values(c, m);
    char *o = wayuu_error_t_json_serializer(e);
    R(o);
    free(o);
    free(e);
    free(c);
    free(m);
  }
  OP("resp")
  {
    call_response_t *r = malloc(sizeof *r);
    memset(r, 0x5a, sizeof *r);
    r->status = N(0);
    memcpy(r->text, a[1].s, a[1].n);
    r->text[a[1].n] = 0;
    memcpy(r->description, a[2].s, a[2].n);
    r->description[a[2].n] = 0;
    r->additional_info = S(3);
    char *o = return_response(*r);
    R(o);
    free(o);
    free(r->additional_info);
    free(r);
  }
  OP("conf_write")
  {
    w_path = S(0);
    w_at = 1;
    RI(write_conf(NULL, serialize));
    free(w_path);
  }
  OP("conf_write_room")
  {
    /* room, path, items */
    w_path = S(1);
    w_at = 2;
    file_room(N(0));
    int r = write_conf(NULL, serialize);
    file_room(-1);
    RI(r);
    free(w_path);
  }
  OP("conf_parse")
  {
    char *p = S(0);
    key_flags fl;
    memset(&fl, 0x7f, sizeof fl);
    fl.size = N(1);
    for (int i = 0; i < fl.size; i++)
    {
      fl.flags[i].key = S(2 + 2 * i);
      fl.flags[i].is_multi = N(3 + 2 * i);
    }
    delivered = 0;
    int rc = parse(p, on_item, NULL, fl);
    fprintf(out, " = %d", rc);
    for (int i = 0; i < fl.size; i++)
      free(fl.flags[i].key);
    free(p);
  }
  OP("conf_line")
  {
    char *l = S(0);
    conf_item *it = conf_parse_line(l, N(1));
    if (!it)
      fprintf(out, " !");
    else
    {
      item_out(it);
      free_conf_item(it);
    }
    R(l);
    free(l);
  }
  OP("item_str")
  {
    int n;
    conf_item **it = items_in(0, &n);
    for (int i = 0; i < n; i++)
    {
      char *o = conf_item_to_string(it[i]);
      R(o);
      free(o);
      free_conf_item(it[i]);
    }
    free(it);
  }
  OP("ser_str")
  {
    char *p = S(0);
    int n;
    conf_item **it = items_in(1, &n);
    serializable *s = new_serializable(p, it, n);
    free(it);
    char *o = serializable_to_string(s);
    R(o);
    free(o);
    free_serializable(s);
  }
  OP("root") { char *p = S(0); strcpy(WAYUU_WS_ROOT, p); free(p); }
  OP("allowed") { char *ip = S(0); RI(allowed_address(ip) != 0); free(ip); }
  OP("limits")
  {
    path_limits *l = load_limits();
    int n = 0;
    while (n < MAX_LIMIT_RULES && l[n].path[0])
      n++;
    RI(n);
    for (int i = 0; i < n; i++)
    {
      R(l[i].path);
      RI(l[i].max_connections);
      RI(l[i].max_connections_per_ip);
      RI(l[i].max_seconds);
    }
    free(l);
  }
  OP("readf")
  {
    /* path, limit, size of the buffer */
    char *p = S(0);
    char *o = malloc(N(2));
    memset(o, '#', N(2));
    read_file(o, p, N(1));
    RN(o, N(2));
    free(o);
    free(p);
  }
  OP("writef") { char *p = S(0), *d = D(1); write_file(p, d, a[1].n); free(p); free(d); }
  OP("writef_room")
  {
    /* path, data, room, a pipe for the log: how many errors are logged */
    char *p = S(0), *d = D(1), *log = S(3), buf[65536];
    int errors = 0;
    mkfifo(log, 0600);
    int fd = syscall(SYS_openat, AT_FDCWD, log, O_RDONLY | O_NONBLOCK);
    if (fd < 0)
      abort();
    log_set_file(log);
    file_room(N(2));
    write_file(p, d, a[1].n);
    file_room(-1);
    log_close_file();
    ssize_t n, have = 0;
    while (have < sizeof buf - 1 && (n = syscall(SYS_read, fd, buf + have, sizeof buf - 1 - have)) > 0)
      have += n;
    buf[have] = 0;
    __real_close(fd);
    __real_unlink(log);
    free(log);
    for (char *l = buf; (l = strstr(l, " ERROR ")); l++)
      errors++;
    RI(errors);
    free(p);
    free(d);
  }
  /* blocks of n bytes, each MB with its number in front: written, read back, digested, cut */
  OP("bigrw")
  {
    char *p = S(0), *d = big_block(N(1)), *o = malloc(N(1) + 1);
    write_file(p, d, N(1));
    struct stat st;
    RI(stat(p, &st) ? -1 : st.st_size);
    memset(o, '#', N(1) + 1);
    read_file(o, p, 0);
    RI(memcmp(o, d, N(1)) == 0 && o[N(1)] == 0);
    unlink(p);
    free(p);
    free(d);
    free(o);
  }
  OP("bigmd5") { char *d = big_block(N(0)), *o = malloc(33); md5sum(o, d, N(0)); RN(o, 33); free(o); free(d); }
  OP("bigsend")
  {
    /* helper, status, bytes of text */
    char *h = S(0), *t = big_text(N(2));
    int st = N(1);
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, sp))
      exit(3);
    pthread_create(&drainer, NULL, big_drain, &sp[1]);
    api_request *r = req_new(sp[0]);
    if (!strcmp(h, "status")) send_http_status(r, st, t);
    else if (!strcmp(h, "jsonst")) return_json_with_status(r, st, t);
    else if (!strcmp(h, "stream"))
    {
      FILE *f = fmemopen(t, N(2), "r");
      return_json_stream(r, st, f);
      fclose(f);
    }
    cap_end();
    RN(big_head, big_head_n);
    RI(big_total);
    RN(big_sum, strlen(big_sum));
    RI(r->response_length);
    free(r);
    free(t);
    free(h);
  }
  OP("bigjson")
  {
    /* number of strings (none: a key and a value), bytes of each */
    char *t = big_text(N(1)), *j;
    if (N(0))
    {
      char **l = malloc(sizeof *l * N(0));
      for (int i = 0; i < N(0); i++)
        l[i] = t;
      j = json_array_of_strings(l, N(0));
      free(l);
    }
    else
      j = json_key_value("k", t);
    free(t);
    size_t n = j ? strlen(j) : 0;
    EVP_MD_CTX *m = EVP_MD_CTX_new();
    EVP_DigestInit_ex(m, EVP_md5(), NULL);
    EVP_DigestUpdate(m, j, n);
    char sum[100];
    digest(sum, m);
    RI(n);
    RN(sum, strlen(sum));
    free(j);
  }
  OP("bigresp")
  {
    /* bytes of the data, which is a JSON text */
    call_response_t r = {0};
    char *t = big_text(N(0));
    r.status = 0;
    strcpy(r.text, "the \"info\"");
    r.additional_info = t;
    char *j = return_response(r);
    free(t);
    size_t n = j ? strlen(j) : 0;
    EVP_MD_CTX *m = EVP_MD_CTX_new();
    EVP_DigestInit_ex(m, EVP_md5(), NULL);
    EVP_DigestUpdate(m, j, n);
    char sum[100];
    digest(sum, m);
    RI(n);
    RN(sum, strlen(sum));
    free(j);
  }
  OP("bigcut")
  {
    char *d = malloc(N(0) + 20);
    memset(d, 'x', N(0));
    strcpy(d + N(0), " tail  ");
    d[0] = d[1] = ' ';
    trim(d);
    RI(strlen(d));
    chop_string(d);
    RI(strlen(d));
    free(d);
  }
  OP("findf") { char *p = S(0), *n = S(1); RI(find_in_file(p, n) != 0); free(p); free(n); }
  OP("isf") { char *p = S(0); RI(is_file(p) != 0); free(p); }
  OP("isd") { char *p = S(0); RI(is_dir(p) != 0); free(p); }
  OP("mkd") { char *p = S(0); RI(check_createdir(p) != 0); free(p); }
  OP("ctype") { char *p = S(0); char *o = get_content_type(p); R(o); free(o); free(p); }
  OP("pq")
  {
    char *u = S(0);
    path_and_query_t *p = get_path_and_query_string(u);
    R(p->path);
    R(p->query);
    free_path_and_query_t(p);
    R(u);
    free(u);
  }
  OP("rinit") { free_routing_table(); router_init(); }
  OP("radd")
  {
    /* template, handler, has filter, filter verdict */
    char *t = S(0);
    int i = N(1);
    verdict[i] = N(3);
    router_add_route(t, handlers[i], N(2) ? filters[i] : NULL);
    free(t);
  }
  OP("rreq")
  {
    /* method, path, form */
    cap_begin();
    api_request *r = req_new(sp[0]);
    r->method = S(0);
    r->path = S(1);
    r->url = S(1);
    char *form = S(2);
    r->form = form;
    n_called = 0;
    router_handle_request(r);
    cap_end();
    if (r->form != form)
      free(r->form);
    /* a form that was appended to is freed by the router; an empty one that was replaced is not */
    if (r->form == form || a[2].n == 0)
      free(form);
    fprintf(out, " =");
    RN(cap, cap_n);
    RI(r->response_length);
    free(r->method);
    free(r->path);
    free(r->url);
    free(r);
  }
  OP("send")
  {
    /* helper, status, text, text2 */
    cap_begin();
    api_request *r = req_new(sp[0]);
    char *h = S(0), *t = S(2), *t2 = S(3);
    int st = N(1);
    if (!strcmp(h, "status")) send_http_status(r, st, t);
    else if (!strcmp(h, "json")) return_json(r, t);
    else if (!strcmp(h, "jsonst")) return_json_with_status(r, st, t);
    else if (!strcmp(h, "cjson")) created_with_json(r, t);
    else if (!strcmp(h, "stream"))
    {
      FILE *f = tmpfile();
      fwrite(t, 1, a[2].n, f);
      rewind(f);
      return_json_stream(r, st, f);
      fclose(f);
    }
    else if (!strcmp(h, "err400") || !strcmp(h, "err403") || !strcmp(h, "err500"))
    {
      wayuu_error_t *e = new_error_with_values(t2, t);
      if (h[3] == '4' && h[5] == '0') bad_request_with_error(r, e);
      else if (h[3] == '4') forbidden_with_error(r, e);
      else internal_server_error_with_error(r, e);
      free(e);
    }
    else if (!strcmp(h, "list"))
    {
      str_list_t *l = split(t, ",");
      json_list_t jl = {l->n_str, ser, malloc(sizeof(void *) * (l->n_str + 1))};
      for (int i = 0; i < l->n_str; i++)
        jl.elements[i] = strdup(l->strings[i]);
      free_str_list_t(l);
      return_json_list(r, jl);
    }
    else if (!strcmp(h, "ok")) ok(r);
    else if (!strcmp(h, "created")) created(r);
    else if (!strcmp(h, "not_found")) not_found(r);
    else if (!strcmp(h, "bad_request")) bad_request(r);
    else if (!strcmp(h, "forbidden")) forbidden(r);
    else if (!strcmp(h, "not_auth")) not_authenticated(r);
    else if (!strcmp(h, "too_many")) too_many_connections(r);
    else if (!strcmp(h, "ise")) internal_server_error(r);
    else if (!strcmp(h, "mime"))
    {
      int n = return_headers_with_mime(r, st, t);
      send_empty_line(r);
      r->response_length = n + 2;
    }
    else if (!strcmp(h, "print")) { http_print(r, t, a[2].n); http_print_str(r, t2); r->response_length = a[2].n + strlen(t2); }
    cap_end();
    RN(cap, cap_n);
    RI(r->response_length);
    free(h);
    free(t);
    free(t2);
    free(r);
  }
  OP("loglevel") { log_set_level(N(0)); for (int i = 0; i < 6; i++) RI(log_level_is_enabled(i) != 0); }
  OP("logfile") { char *p = S(0); log_set_file(p); free(p); }
  OP("logroom")
  {
    /* log file, room left in it, messages: logged while the log cannot grow beyond that */
    char *p = S(0);
    struct stat st = {0};
    stat(p, &st);
    file_room(st.st_size + N(1));
    for (int i = 0; i < N(2); i++)
      log_error("no room %d", i);
    file_room(-1);
    free(p);
  }
  OP("logclose") { log_close_file(); }
  OP("nap") { usleep(N(0) * 1000); RI(time(NULL)); }
  OP("die") { if (N(0)) kill(getpid(), N(0)); else _exit(7); }
  OP("logmsg")
  {
    char *m = S(1);
    switch (N(0))
    {
    case 0: log_trace("%s", m); break;
    case 1: log_debug("%s", m); break;
    case 2: log_info("%s", m); break;
    case 3: log_warn("%s", m); break;
    case 4: log_error("%s", m); break;
    case 5: log_fatal("%s", m); break;
    }
    free(m);
  }
  OP("logrun")
  {
    /* threads, messages, seed, tag, fatal: one thread logs a fatal message at the end */
    int n = N(0);
    log_n = N(1);
    log_seed = N(2);
    log_tag = S(3);
    pthread_t th[n];
    if (N(4) < 0)
    {
      int fd = syscall(SYS_openat, AT_FDCWD, "done", O_RDWR | O_CREAT | O_TRUNC, 0644);
      if (fd < 0 || ftruncate(fd, 4096))
        _exit(3);
      log_done = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    }
    for (int i = 0; i < n; i++)
      pthread_create(&th[i], NULL, logger, (void *)(long)i);
    if (N(4) < 0)
    {
      usleep(-N(4));
      kill(getpid(), SIGKILL);
    }
    if (N(4))
    {
      usleep(N(4));
      log_fatal("%s FATAL end", log_tag);
    }
    for (int i = 0; i < n; i++)
      pthread_join(th[i], NULL);
  }
  else
    fprintf(out, " ?");
}

/* descriptors in use, and what uses the newest */
static int open_fds(void)
{
  int n = 0;
  for (int i = 0; i < 256; i++)
    n += fcntl(i, F_GETFD) != -1;
  return n;
}

int main(int argc, char *argv[])
{
  if (argc < 3)
    return 3;
  WAYUU_SSL_ON = false;
  FILE *in = __real_fopen(argv[1], "r");
  out = __real_fopen(argv[2], "w");
  if (!in || !out)
    return 3;
  char *line = NULL;
  size_t cap_l = 0;
  long idx = 0, leaky = -1;
  ssize_t n;
  while ((n = getline(&line, &cap_l, in)) > 0)
  {
    line[strcspn(line, "\n")] = 0;
    char *save = NULL, *op = strtok_r(line, " ", &save), *t;
    na = 0;
    a = NULL;
    while ((t = strtok_r(NULL, " ", &save)))
    {
      a = realloc(a, sizeof(arg) * (na + 1));
      memset(&a[na], 0, sizeof(arg));
      if (*t == '!')
        a[na].null = 1;
      else if (*t == 'x')
      {
        size_t l = strlen(t + 1) / 2;
        a[na].s = malloc(l + 1);
        a[na].n = l;
        for (size_t i = 0; i < l; i++)
        {
          unsigned v;
          char b[3] = {t[1 + 2 * i], t[2 + 2 * i], 0};
          v = strtoul(b, NULL, 16);
          a[na].s[i] = v;
        }
        a[na].s[l] = 0;
      }
      else
        a[na].num = strtoll(t, NULL, 10);
      na++;
    }
    fprintf(out, "%ld", idx++);
    int keeps = !strncmp(op, "log", 3), before = keeps ? 0 : open_fds();
    run(op);
    if (!keeps && leaky < 0 && open_fds() > before)
      leaky = idx - 1;
    fprintf(out, "\n");
    fflush(out);
    for (int i = 0; i < na; i++)
      free(a[i].s);
    free(a);
    a = NULL;
  }
  free(line);
  fclose(in);
  if (leaky >= 0)
    fprintf(out, "FD %ld\n", leaky);
  fprintf(out, "END\n");
  fclose(out);
  free(cap);
  return 0;
}
