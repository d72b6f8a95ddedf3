/* Basic block edges of the code under test: counts which were reached, and delays threads at
   random ones, so that many interleavings of a short workload are seen. Compiled without
   -fsanitize-coverage. */
#define _GNU_SOURCE
#include <fcntl.h>
#include <sched.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include "shim.h"

#define MAX_EDGES 65536
/* [0] edges that exist, [1] edges reached, [2] delays made, [3..] hit counts */
static uint32_t local_map[MAX_EDGES + 8];
static uint32_t *map = local_map;
static uint32_t n_edges;

__attribute__((constructor)) static void cov_init(void)
{
  const char *f = getenv("VSHIM_COV");
  if (!f || !*f)
    return;
  int fd = syscall(SYS_open, f, O_RDWR | O_CREAT | O_CLOEXEC, 0644);
  if (fd < 0 || syscall(SYS_ftruncate, fd, (long)sizeof local_map))
    return;
  void *m = mmap(NULL, sizeof local_map, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (m != MAP_FAILED)
  {
    map = m;
    map[0] = n_edges;
  }
  syscall(SYS_close, fd);
}
void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop)
{
  if (start == stop || *start)
    return;
  for (uint32_t *x = start; x < stop; x++)
    *x = (++n_edges) % MAX_EDGES;
  map[0] = n_edges;
}
static __thread uint32_t rng;
static __thread int inside;
void __sanitizer_cov_trace_pc_guard(uint32_t *guard)
{
  uint32_t i = *guard + 3;
  uint32_t h = __atomic_load_n(&map[i], __ATOMIC_RELAXED);
  __atomic_store_n(&map[i], h + 1, __ATOMIC_RELAXED);
  if (!h)
    __atomic_add_fetch(&map[1], 1, __ATOMIC_RELAXED);
  long chaos = shim_get(F_CHAOS);
  if (!chaos || inside)
    return;
  if (!rng)
    rng = (uint32_t)syscall(SYS_gettid) * 2654435761u ^ (uint32_t)(shim_ns() >> 4) ^ 0x9e3779b9u;
  rng ^= rng << 13;
  rng ^= rng >> 17;
  rng ^= rng << 5;
  /* edges that are seldom taken are where decisions are made: delay there more often */
  uint32_t n = h < 256 ? 16 : h < 4096 ? 48 : h < 65536 ? 512 : 8192;
  n = n * 8 / (uint32_t)chaos;
  if (n < 2)
    n = 2;
  if (rng % n)
    return;
  inside = 1;
  uint32_t d = (rng >> 8) % 100;
  __atomic_add_fetch(&map[2], 1, __ATOMIC_RELAXED);
  if (d < 50)
    sched_yield();
  else
  {
    struct timespec t = {0, (d < 90 ? 20000 : 500000) + (rng >> 12) % 60000};
    syscall(SYS_nanosleep, &t, NULL);
  }
  inside = 0;
}
