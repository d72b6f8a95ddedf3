#ifndef SHIM_H
#define SHIM_H
#include <stdio.h>
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
/* Only allocations of the code under test can fail */
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
#define malloc(n) __real_malloc(n)
#define calloc(m, n) __real_calloc(m, n)
#define realloc(p, n) __real_realloc(p, n)

/* Settings of the interposed calls. Changed at run time by the control thread. */
enum {
  F_ACCEPT_N,     /* the next n accept() calls fail */
  F_ACCEPT_ERR,   /* with this errno */
  F_SRC,          /* peer address (host order, last byte) whose connections get faults */
  F_RECV_AFTER,   /* recv of those fails after this many bytes (-1: never) */
  F_RECV_ERR,     /* 0: end of stream, otherwise errno */
  F_SEND_AFTER,   /* send of those fails after this many bytes (-1: never) */
  F_SEND_ERR,
  F_SEND_SHORT,   /* 1: send of those transmits at most half */
  F_LOG_ERR,      /* opening the access log fails with this errno */
  F_UPLOAD_ERR,   /* opening or creating in the upload folder fails */
  F_STATIC_ERR,   /* opening any other file fails */
  F_CLOSE_DELAY,  /* microseconds to wait after each close of a socket */
  F_CHAOS,        /* random delays at basic block edges: 0 off, larger is more */
  F_WRITE_ERR,    /* fwrite fails */
  F_PEER_ERR,     /* the address of a peer is not available */
  F_KILL_AT,      /* n: the process is killed at the n-th operation on a file or connection from now */
  F_CLOCK_STEP,   /* milliseconds by which the clock of the system has been set forward or back */
  F_ALLOC_MIN,    /* allocations of at least this many bytes fail (0: never) */
  F_ALLOC_SKIP,   /* after this many of them */
  F_MAX
};
extern long shim_fault[F_MAX];
extern const char *shim_fault_name[F_MAX];
void shim_init(void);
/* Appends one whole record to the event log */
void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void ev_raw(const char *buf, size_t len);
extern int shim_ev_fd;
uint64_t shim_ns(void);
char *hexs(const char *s);
char *hexn(const char *s, size_t n);
long shim_get(int k);
void shim_set(int k, long v);
extern int shim_counts[8];
/* Calls on connections that a signal has interrupted, or ended early */
extern long shim_intr[4];
#endif
