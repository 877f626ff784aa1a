#pragma once
#include "common.hpp"
// cache sizes: over three orders of magnitude relative to the working set, and
// boundary values around object sizes
inline uint64_t pick_size(Rng &r, const Workload &w) {
  uint64_t s;
  if (r.chance(0.2)) {
    s = w.max_size * (1 + r.below(6)) + r.below(3) - 1;
  } else {
    double frac = pow(10, -2.2 * r.unit());
    s = (uint64_t)(w.distinct_bytes * frac);
  }
  return std::max<uint64_t>(1, s);
}
inline void resize_objects(Rng &r, Workload &w) {
  for (auto &q : w.reqs)
    if (r.chance(0.2)) q.size = 1 + r.below(std::max<int64_t>(2, std::min<int64_t>(2 * q.size, 4200000000ll)));
  w.fixed_size = false;
  w.uniform_size = false;
}
// true if the algorithm documents no reason to refuse an object of this size
inline bool always_fits(const Algo &a, const string &p, int64_t sz, uint64_t size) {
  string n = a.name;
  double lim = 1.0;
  if (n == "SLRU" || n == "TwoQ" || n == "S3FIFO" || n == "QDLP" || n == "ARC" || n == "Cacheus" || n == "LeCaR") lim = 0.04;
  if (n == "LHD") lim = 1.0;
  return (double)sz < lim * (double)size || (lim == 1.0 && sz <= (int64_t)size);
}

// an admitter that asks the real one (or a decision function) and records what was asked
struct Spy {
  admissioner_t *real = nullptr;
  std::function<bool(const request_t *)> fn;
  int asked = 0;
  bool answer = false;
  uint64_t id = 0;
  int64_t size = 0;
};
inline bool spy_admit(admissioner_t *ad, const request_t *q) {
  Spy *s = (Spy *)ad->params;
  s->asked++;
  s->id = q->obj_id;
  s->size = q->obj_size;
  s->answer = s->real ? s->real->admit(s->real, q) : s->fn(q);
  return s->answer;
}
inline void spy_free(admissioner_t *ad) {
  Spy *s = (Spy *)ad->params;
  if (s->real) s->real->free(s->real);
  free(ad);
}
inline admissioner_t *spy_on(Spy *s) {
  admissioner_t *ad = (admissioner_t *)calloc(1, sizeof *ad);
  ad->admit = spy_admit;
  ad->free = spy_free;
  ad->params = s;
  return ad;
}
