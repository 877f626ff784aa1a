// Admission (C18)
#include "common.hpp"
#include "cachepick.hpp"
#define V(a, kind, ...) R->viol((a), kind, __VA_ARGS__)

static Workload load(Rng &r, int maxreq) {
  WlOpt o;
  o.n_req = 30 + r.below(r.chance(0.3) ? 100 : maxreq);
  o.n_obj = 2 + r.below(r.chance(0.4) ? 12 : 250);
  return gen_workload(r, o);
}
static string thr_param(Rng &r, int64_t t) {
  static const char *f[] = {"size=%ld", "Size=%ld", "SIZE=%ld", "size=%ld,"};
  char b[64];
  snprintf(b, sizeof b, r.chance(0.7) ? f[0] : f[r.below(4)], (long)t);
  return b;
}

// every decision and its effect
static void monitor_case(const Algo &a, Rng &r) {
  Workload w = load(r, 1500);
  bool md = !a.has(T_NO_MD) && r.chance(0.25);
  uint64_t size = pick_size(r, w);
  string p = pick_param(a, r);
  if (r.chance(0.15) && !a.has(T_SENTINEL)) resize_objects(r, w);
  auto &v = w.reqs;
  cache_t *c = mk(a, size, p, md);
  Spy s;
  int kind = r.below(4);
  int64_t thr = 1 + r.below(r.chance(0.5) ? w.max_size + 2 : 2 * w.max_size + 2);
  std::unordered_map<uint64_t, int> seen;
  uint64_t salt = r.next();
  string what;
  switch (kind) {
    case 0: s.real = create_admissioner(r.chance(0.5) ? "size" : "SIZE", thr_param(r, thr).c_str()); what = "size " + std::to_string(thr); break;
    case 1: s.real = create_admissioner(r.chance(0.5) ? "bloomfilter" : "bloom-filter", NULL); what = "bloomfilter"; break;
    case 2: s.real = create_admissioner("prob", r.chance(0.3) ? NULL : r.chance(0.5) ? "prob=0.8" : "prob=0.1"); what = "prob"; break;
    default: {
      int pr = 1 + r.below(9);
      s.fn = [=](const request_t *q) { return (q->obj_id * 0x9E3779B97F4A7C15ull ^ salt ^ (uint64_t)q->n_req * 77777777777ull) % 10 < (uint64_t)pr; };
      what = "custom";
    }
  }
  c->admissioner = spy_on(&s);
  set_rand_seed(r.next());
  int64_t refused = 0, admitted = 0, hits = 0;
  int64_t mdsz = c->obj_md_size;
  bool do_rem = a.has(T_REMOVE) && r.chance(0.2);
  auto ctx = [&]() { return string(a.name) + " '" + p + "' cache " + std::to_string(size) + ", " + what + ", " + w.kind + (md ? ", metadata" : ""); };
#define F(kind, ...) do { char m_[256]; snprintf(m_, sizeof m_, __VA_ARGS__); V(a.name, kind, "request %zu: %s [%s]", i, m_, ctx().c_str()); return; } while (0)
  for (size_t i = 0; i < v.size(); i++) {
    request_t q;
    to_req(&q, v[i], i + 1);
    if (do_rem && r.chance(0.03)) c->remove(c, v[r.below(i + 1)].id);
    bool was = resident(c, q.obj_id), deep = i < 60 || r.chance(0.1);
    std::set<uint64_t> before, after;
    if (deep && !was) before = contents(c, w.universe);
    int64_t n0 = c->get_n_obj(c), b0 = c->get_occupied_byte(c);
    s.asked = 0;
    bool hit = c->get(c, &q);
    int64_t n1 = c->get_n_obj(c), b1 = c->get_occupied_byte(c);
    if (s.asked && (s.id != q.obj_id || s.size != q.obj_size)) F("wrong-question", "asked about object %lu of size %ld, not %lu of size %ld", s.id, (long)s.size, q.obj_id, (long)q.obj_size);
    if (hit != was) F("wrong-hit", "object %lu: %s, but it was %scached", q.obj_id, hit ? "hit" : "miss", was ? "" : "not ");
    if (hit) {
      hits++;
      if (s.asked) F("asked-on-hit", "the admission algorithm was asked on a hit");
      continue;
    }
    bool fits = always_fits(a, p, q.obj_size + mdsz, size);
    if (fits && s.asked != 1) F("asked", "the admission algorithm was asked %d times on a miss of an object that fits", s.asked);
    bool now = resident(c, q.obj_id);
    if (s.asked && kind == 0 && s.answer != (q.obj_size < thr)) F("size-decision", "size %ld %s, threshold %ld", (long)q.obj_size, s.answer ? "admitted" : "refused", (long)thr);
    if (s.asked && kind == 1 && s.answer != (seen[q.obj_id]++ > 0)) F("bloom-decision", "object %lu %s at its miss number %d", q.obj_id, s.answer ? "admitted" : "refused", seen[q.obj_id]);
    bool ok = s.asked && s.answer;
    if (now && !ok) F("not-admitted", "object %lu is cached, but was %s", q.obj_id, s.asked ? "refused" : "never put to the admission algorithm");
    if (ok && fits && !now && !a.has(T_ORACLE)) F("admitted-not-cached", "object %lu of size %ld was admitted and is not cached", q.obj_id, (long)q.obj_size);
    if (!ok) {
      refused++;
      if (n0 != n1 || b0 != b1) F("refused-changes", "refused, but objects %ld -> %ld, bytes %ld -> %ld", (long)n0, (long)n1, (long)b0, (long)b1);
      if (deep) {
        after = contents(c, w.universe);
        if (after != before) F("refused-changes", "refused, but the cached objects changed (%zu -> %zu)", before.size(), after.size());
        count("contents_compared");
      }
    } else admitted++;
    if (b1 > (int64_t)size) F("capacity", "%ld bytes", (long)b1);
  }
  count("requests", v.size());
  count("refused", refused);
  count("admitted", admitted);
  count("hits", hits);
  if (refused && admitted && hits) count("nontrivial");
  sample("%s: %zu requests, %ld hits, %ld admitted, %ld refused", ctx().c_str(), v.size(), (long)hits, (long)admitted, (long)refused);
  c->cache_free(c);
}

// a refused request has no effect at all: the run equals one on the admissible requests alone
static bool clockless(const Algo &a) {
  string n = a.name;
  return n != "Hyperbolic" && n != "LHD" && n != "LeCaR" && n != "Cacheus" && n != "BeladySize" && n != "WTinyLFU";
}
static void filter_case(const Algo &a, Rng &r) {
  Workload w = load(r, 2500);
  uint64_t size = pick_size(r, w);
  string p = pick_param(a, r);
  if (p.find("recency") != string::npos) p = "";  // ages counted in requests
  if (string(a.name) == "FIFO_Reinsertion") p = "retain-policy=frequency";
  auto &v = w.reqs;
  int64_t thr = w.uniform_size ? v[0].size + r.below(2) : 1 + r.below(w.max_size + 1);
  bool md = !a.has(T_NO_MD) && r.chance(0.25);
  cache_t *c = mk(a, size, p, md), *d = mk(a, size, p, md);
  c->admissioner = create_admissioner("size", thr_param(r, thr).c_str());
  if (r.chance(0.5)) {  // the clone and the resized cache keep it
    cache_t *e = r.chance(0.5) ? clone_cache(c) : create_cache_with_new_size(c, size);
    c->cache_free(c);
    c = e;
    count("clones");
  }
  uint64_t sd = r.next(), sc = sd, sdd = sd;
  int64_t hits = 0, dropped = 0, far = 0;
  vector<std::pair<cache_t *, uint64_t *>> z = {{c, &sc}, {d, &sdd}};
  for (size_t i = 0; i < v.size(); i++) {
    request_t q, q2;
    to_req(&q, v[i], i + 1);
    q2 = q;
    set_rand_seed(sc);
    bool h1 = c->get(c, &q);
    sc = rand_seed;
    bool h2 = false;
    if (v[i].size < thr) {
      set_rand_seed(sdd);
      h2 = d->get(d, &q2);
      sdd = rand_seed;
    } else dropped++;
    hits += h1;
    if (h1 != h2 || c->get_n_obj(c) != d->get_n_obj(d) || c->get_occupied_byte(c) != d->get_occupied_byte(d)) {
      V(a.name, "refused-matters", "request %zu (size %ld, threshold %ld): %d/%d, objects %ld/%ld with and without the refused requests [cache %ld '%s' %s]", i, (long)v[i].size, (long)thr, h1, h2,
        (long)c->get_n_obj(c), (long)d->get_n_obj(d), (long)size, p.c_str(), w.kind.c_str());
      return;
    }
    far++;
  }
  if (contents(c, w.universe) != contents(d, w.universe)) V(a.name, "refused-matters", "different objects at the end [cache %ld '%s' %s]", (long)size, p.c_str(), w.kind.c_str());
  count("requests", v.size());
  count("filtered", dropped);
  if (dropped && hits) count("nontrivial");
  c->cache_free(c);
  d->cache_free(d);
}
// cloned and resized caches keep their admitter and its setting, and do not share its state
static void clone_case(const Algo &a, Rng &r) {
  Workload w = load(r, 800);
  uint64_t size = std::max<uint64_t>(pick_size(r, w), w.max_size * 60);
  auto &v = w.reqs;
  int kind = r.below(3);
  int64_t thr = 1 + r.below(w.max_size + 1);
  cache_t *c = mk(a, size, "", false);
  if (kind == 0) c->admissioner = create_admissioner("size", thr_param(r, thr).c_str());
  if (kind == 1) c->admissioner = create_admissioner("bloomfilter", NULL);
  if (kind == 2) c->admissioner = create_admissioner("prob", r.chance(0.5) ? "prob=0.00000001" : "prob=1");
  bool none = kind == 2 && strstr((char *)c->admissioner->init_params, "0.0");
  int before = r.below(v.size());
  for (int i = 0; i < before; i++) {
    request_t q;
    to_req(&q, v[i], i + 1);
    c->get(c, &q);
  }
  cache_t *e = r.chance(0.5) ? clone_cache(c) : create_cache_with_new_size(c, size * 2);
  if (r.chance(0.5)) { c->cache_free(c); c = nullptr; }
  if (!e->admissioner) { V(a.name, "clone-drops", "the clone has no admission algorithm"); return; }
  if (r.chance(0.3)) {
    cache_t *g = clone_cache(e);
    e->cache_free(e);
    e = g;
    if (!e->admissioner) { V(a.name, "clone-drops", "the clone of the clone has no admission algorithm"); return; }
  }
  std::unordered_map<uint64_t, int> seen;
  int64_t adm = 0, ref = 0;
  for (size_t i = 0; i < v.size(); i++) {
    request_t q;
    to_req(&q, v[i], i + 1);
    if (c && !a.has(T_ORACLE) && r.chance(0.3)) { request_t q2 = q; q2.obj_id = v[r.below(v.size())].id; c->get(c, &q2); }
    if (e->get(e, &q)) continue;
    bool now = resident(e, q.obj_id), want = kind == 0 ? q.obj_size < thr : kind == 1 ? seen[q.obj_id]++ > 0 : !none;
    (want ? adm : ref)++;
    if (now && !want) { V(a.name, "clone-admits", "request %zu: the clone stored object %lu (size %ld) against the rule (%s)", i, q.obj_id, (long)q.obj_size, kind == 0 ? "size" : kind == 1 ? "bloomfilter" : "prob"); return; }
    if (!now && want && !a.has(T_ORACLE)) { V(a.name, "clone-refuses", "request %zu: the clone did not store object %lu (size %ld) against the rule (%s)", i, q.obj_id, (long)q.obj_size, kind == 0 ? "size" : kind == 1 ? "bloomfilter" : "prob"); return; }
  }
  count("requests", v.size());
  count("clones");
  if (adm || ref) count("nontrivial");
  e->cache_free(e);
  if (c) c->cache_free(c);
}

// the admitters alone, at the boundaries
static void size_case(Rng &r) {
  static const int64_t base[] = {1, 2, 10, 4096, 1 << 20, (1ll << 31) - 1, 1ll << 31, 1ll << 32, (1ll << 32) + 5, 1ll << 40, INT64_MAX};
  int64_t t = r.chance(0.6) ? base[r.below(11)] : 1 + (int64_t)r.below(1ll << (1 + r.below(44)));
  bool dflt = r.chance(0.1);
  admissioner_t *ad = create_admissioner("size", dflt ? NULL : thr_param(r, t).c_str());
  if (dflt) t = INT64_MAX;
  for (int k = 0; k < 3; k++) {
    for (int i = 0; i < 200; i++) {
      int64_t s = i < 5 ? t - 2 + i : (int64_t)r.below(1ll << (1 + r.below(44)));
      if (i < 5 && t > INT64_MAX - 3) s = t - i;
      if (s < 1) s = 1;
      request_t q;
      to_req(&q, Rq{r.next(), 1, 0, -1}, i);
      q.obj_size = s;
      if (ad->admit(ad, &q) != (s < t)) { V("size", "threshold", "size %ld and threshold %ld: %s", (long)s, (long)t, s < t ? "refused" : "admitted"); return; }
      count("decisions");
    }
    admissioner_t *b = ad->clone(ad);
    ad->free(ad);
    ad = b;
  }
  ad->free(ad);
  count("nontrivial");
}
static void bloom_case(Rng &r) {
  admissioner_t *ad = create_admissioner("bloomfilter", NULL);
  std::unordered_map<uint64_t, int> seen;
  int n = 1000 + r.below(20000), k = 1 + r.below(5000), mode = r.below(7);  // glib hashes ids that differ in the upper half alone to one value: correct, and too slow to ask for many
  if (mode != 5 && r.chance(0.06)) n = 400000 + r.below(400000), k = 100000 + r.below(400000);
  for (int i = 0; i < n; i++) {
    uint64_t x = r.below(k), id = mode == 5 ? x << 32 : mode == 6 ? (x << 48) + x : spread_id(x, mode);
    request_t q;
    to_req(&q, Rq{id, 1 + (int64_t)r.below(100), i, -1}, i);
    bool want = seen[id]++ > 0;
    if (ad->admit(ad, &q) != want) { V("bloomfilter", "second", "object %lu %s at its request number %d", id, want ? "refused" : "admitted", seen[id]); return; }
    count("decisions");
  }
  ad->free(ad);
  count("nontrivial");
}
// binomial: within 6.5 standard deviations, over all and for single objects; blocks of decisions too
static void prob_case(Rng &r) {
  static const double ps[] = {0.5, 0.1, 0.9, 0.01, 0.25, 0.75, 0.001, 0.999, 1.0, 0.33};
  double p = ps[r.below(10)];
  bool dflt = r.chance(0.15);
  if (dflt) p = 0.5;
  char b[64];
  snprintf(b, sizeof b, r.chance(0.5) ? "prob=%g" : "Prob=%g,", p);
  set_rand_seed(r.next());
  admissioner_t *ad = create_admissioner(r.chance(0.5) ? "prob" : "Prob", dflt ? NULL : b);
  if (r.chance(0.5)) {
    admissioner_t *x = ad->clone(ad);
    ad->free(ad);
    ad = x;
  }
  const int N = 100000, K = 1 + r.below(40);
  int64_t yes = 0, pair = 0;
  vector<int64_t> n(K), y(K);
  bool last = false;
  for (int i = 0; i < N; i++) {
    request_t q;
    int k = r.chance(0.5) ? 0 : r.below(K);
    to_req(&q, Rq{(uint64_t)k * 77 + 5, 1 + (int64_t)(i % 100000), i, -1}, i);
    bool x = ad->admit(ad, &q);
    yes += x;
    pair += x && last;
    last = x;
    n[k]++;
    y[k] += x;
  }
  auto off = [](double got, double n, double p) { return fabs(got - n * p) > 6.5 * sqrt(n * p * (1 - p)) + 3; };
  if (off(yes, N, p)) V("prob", "share", "%ld of %d admitted at probability %g", (long)yes, N, p);
  else {
    for (int k = 0; k < K; k++)
      if (off(y[k], n[k], p)) { V("prob", "share-of-object", "one object admitted %ld of %ld times at probability %g", (long)y[k], (long)n[k], p); break; }
    // consecutive pairs: variance of the count is at most 3 times the binomial one
    if (fabs(pair - N * p * p) > 6.5 * sqrt(3 * N * p * p * (1 - p * p)) + 10) V("prob", "dependent", "%ld pairs of consecutive admissions in %d at probability %g", (long)pair, N, p);
  }
  count("decisions", N);
  count("nontrivial");
  sample("prob=%g: %ld of %d admitted, %ld pairs", p, (long)yes, N, (long)pair);
  ad->free(ad);
}

void register_cases(vector<Case> &cs) {
  auto add = [&](const string &s, int n, std::function<void(Rng &)> f) {
    for (int i = 0; i < n; i++) cs.push_back({s, O.seed * 1000003ull + i, f});
  };
  add("size", ncase(250, 3000), size_case);
  add("bloomfilter", ncase(150,2000), bloom_case);
  add("prob", ncase(250, 3000), prob_case);
  for (auto &a : all_algos()) {
    if (a.has(T_OWN_ADMIT)) continue;
    const Algo *p = &a;
    add(a.name, ncase(280, 2400), [p](Rng &r) {
      int k = r.below(10);
      if (k < 6) monitor_case(*p, r);
      else if (k < 8 && clockless(*p)) filter_case(*p, r);
      else clone_case(*p, r);
    });
  }
}
