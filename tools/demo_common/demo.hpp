#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
extern "C" {
#include "libCacheSim.h"
}
typedef cache_t *(*init_fn)(const common_cache_params_t, const char *);
static cache_t *mk(init_fn f, uint64_t size, const char *params = NULL, bool md = false) {
  common_cache_params_t c = default_common_cache_params();
  c.cache_size = size;
  c.hashpower = 10;
  c.consider_obj_metadata = md;
  return f(c, params);
}
static void fill(request_t *q, uint64_t id, int64_t size, int64_t t = 0, int64_t next = INT64_MAX) {
  memset(q, 0, sizeof *q);
  q->obj_id = id;
  q->obj_size = size;
  q->clock_time = t;
  q->next_access_vtime = next;
  q->op = OP_GET;
  q->ttl = 86400;
  q->valid = true;
}
static bool get(cache_t *c, uint64_t id, int64_t size = 1, int64_t t = 0, int64_t next = INT64_MAX) {
  request_t q;
  fill(&q, id, size, t, next);
  return c->get(c, &q);
}
static bool has(cache_t *c, uint64_t id) {
  request_t q;
  fill(&q, id, 1);
  return c->find(c, &q, false) != NULL;
}
static long long bytes(cache_t *c) { return (long long)c->get_occupied_byte(c); }
static long long nobj(cache_t *c) { return (long long)c->get_n_obj(c); }
#define EXPECT(c, ...)              \
  do {                              \
    if (!(c)) {                     \
      printf("FAILED: " __VA_ARGS__); \
      printf("\n");                 \
      exit(1);                      \
    }                               \
  } while (0)
