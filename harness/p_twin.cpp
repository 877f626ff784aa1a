// Offline comparison of the event logs of two executions that must agree:
// C04 lookups interleaved / not, C10 repeated, cloned, resized and interleaved
// instances, C25 renamed ids, shifted times, scaled sizes, other hash power.
#include "common.hpp"
#include "cachepick.hpp"

struct Ev {
  bool hit;
  int64_t n, b;
  bool operator==(const Ev &o) const { return hit == o.hit && n == o.n && b == o.b; }
};
typedef vector<Ev> Log;

static Ev step(cache_t *c, const Rq &q, size_t i) {
  request_t req;
  to_req(&req, q, i + 1);
  bool h = c->get(c, &req);
  return {h, c->get_n_obj(c), c->get_occupied_byte(c)};
}
static Log run_all(cache_t *c, const vector<Rq> &v) {
  Log l;
  l.reserve(v.size());
  for (size_t i = 0; i < v.size(); i++) l.push_back(step(c, v[i], i));
  return l;
}
struct Cfg {
  uint64_t size;
  bool md;
  string p;
  int hp;
  uint64_t rseed;
};
static string cfg_str(const Cfg &g, const Workload &w) {
  char b[300];
  snprintf(b, sizeof b, "[cache size %lu, md %d, params '%s', hash power %d, workload %s, %zu requests]", g.size, g.md, g.p.c_str(), g.hp, w.kind.c_str(), w.reqs.size());
  return b;
}
static bool differ(const Algo &a, const char *kind, const Log &x, const Log &y, const string &cs, int64_t nsc = 1, int64_t bsc = 1) {
  count("events_compared", x.size());
  for (size_t i = 0; i < x.size() && i < y.size(); i++)
    if (x[i].hit != y[i].hit || x[i].n != y[i].n || x[i].b * bsc != y[i].b) {
      R->viol(a.name, kind, "request %zu: hit %d objects %ld bytes %ld, versus hit %d objects %ld bytes %ld %s", i, x[i].hit, x[i].n, x[i].b, y[i].hit, y[i].n, y[i].b, cs.c_str());
      return true;
    }
  if (x.size() != y.size()) { R->viol(a.name, kind, "different lengths"); return true; }
  return false;
}
static void finish_counts(const Log &l) {
  int64_t h = 0, ev = 0;
  for (size_t i = 1; i < l.size(); i++) {
    h += l[i].hit;
    if (!l[i].hit && l[i].n <= l[i - 1].n) ev++;
  }
  count("hits", h);
  count("requests", l.size());
  if (h > 0 && ev > 0) count("nontrivial");
}
static int size_flavour;  // 0: small runs; 1: long runs; 2: many objects
static Workload make(Rng &r, WlOpt &o) {
  if (size_flavour) {
    o.n_req = size_flavour == 1 ? 30000 + r.below(40000) : 12000 + r.below(15000);
    o.n_obj = size_flavour == 1 ? 2 + r.below(80) : 1000 + r.below(8000);
    return gen_workload(r, o);
  }
  o.n_req = 200 + r.below(thorough() ? 3000 : 1000);
  o.n_obj = 2 + r.below(r.chance(0.3) ? 12 : 150);
  return gen_workload(r, o);
}
static Cfg pickcfg(const Algo &a, Rng &r, const Workload &w) {
  Cfg g;
  g.size = pick_size(r, w);
  g.md = !a.has(T_NO_MD) && r.chance(0.25);
  g.p = pick_param(a, r);
  g.hp = 1 + r.below(12);
  g.rseed = 1 + r.below(1000000);
  return g;
}
static cache_t *mkc(const Algo &a, const Cfg &g) {
  set_rand_seed(g.rseed);
  return mk(a, g.size, g.p, g.md, g.hp);
}

// ------------------------------------------------------------------ C04
static void c04(const Algo &a, Rng &r) {
  WlOpt o;
  Workload w = make(r, o);
  Cfg g = pickcfg(a, r, w);
  cache_t *c = mkc(a, g);
  Log l1 = run_all(c, w.reqs);
  std::set<uint64_t> s1 = contents(c, w.universe);
  c->cache_free(c);
  c = mkc(a, g);
  Log l2;
  double pf = r.chance(0.3) ? 1.0 : 0.05 + 0.5 * r.unit();
  int64_t nl = 0, nhit = 0;
  for (size_t i = 0; i < w.reqs.size(); i++) {
    if (r.chance(pf)) {
      int k = 1 + r.below(6);
      for (int j = 0; j < k; j++) {
        Rq q = w.reqs[r.below(w.reqs.size())];
        int how = r.below(6);
        if (how == 0) q = w.reqs[i];                       // about to be requested
        if (how == 1) q.id = r.next();                      // never seen
        if (how == 2 && i > 0) q = w.reqs[i - 1 - r.below(std::min<size_t>(i, 20))];  // recent (maybe in a ghost)
        q.size = r.chance(0.2) ? 1 + r.below(5000) : q.size;
        q.time = r.chance(0.2) ? 0 : w.reqs[i].time;
        if (r.chance(0.5)) q.next = -2 + (int64_t)r.below(1000);
        request_t req;
        to_req(&req, q, r.below(1000));
        nhit += c->find(c, &req, false) != NULL;
        nl++;
      }
    }
    l2.push_back(step(c, w.reqs[i], i));
  }
  std::set<uint64_t> s2 = contents(c, w.universe);
  c->cache_free(c);
  count("lookups", nl);
  count("lookups_found", nhit);
  if (!differ(a, "lookup-changes-behaviour", l1, l2, cfg_str(g, w)) && s1 != s2) R->viol(a.name, "lookup-changes-contents", "final contents differ %s", cfg_str(g, w).c_str());
  finish_counts(l1);
  sample("%s: %zu requests, %ld lookups of which %ld found %s", a.name, w.reqs.size(), nl, nhit, cfg_str(g, w).c_str());
}

// ------------------------------------------------------------------ C10
static bool fresh_like(const Algo &a, const char *kind, cache_t *d, const Cfg &g, const Workload &w, const Log *want, const string &cs) {
  if (d->get_n_obj(d) != 0 || d->get_occupied_byte(d) != 0) {
    R->viol(a.name, kind, "new cache is not empty: %ld objects, %ld bytes %s", d->get_n_obj(d), d->get_occupied_byte(d), cs.c_str());
    return false;
  }
  if (d->cache_size != g.size) { R->viol(a.name, kind, "new cache has size %lu, wanted %lu %s", d->cache_size, g.size, cs.c_str()); return false; }
  Log l = run_all(d, w.reqs);
  return !differ(a, kind, *want, l, cs);
}
static void c10(const Algo &a, Rng &r) {
  WlOpt o;
  Workload w = make(r, o);
  Cfg g = pickcfg(a, r, w);
  string cs = cfg_str(g, w);
  bool adm = !a.has(T_OWN_ADMIT) && r.chance(0.3);
  char thr[32];
  snprintf(thr, 32, "size=%ld", (long)std::max<int64_t>(1, w.max_size / 2));
  auto fresh = [&](const Cfg &gg) {
    cache_t *c = mkc(a, gg);
    if (adm) c->admissioner = create_size_admissioner(thr);
    return c;
  };
  cache_t *c = fresh(g);
  Log ref = run_all(c, w.reqs);
  finish_counts(ref);
  std::set<uint64_t> sref = contents(c, w.universe);
  // the same again, in the same process
  {
    cache_t *d = fresh(g);
    Log l = run_all(d, w.reqs);
    if (differ(a, "not-reproducible", ref, l, cs)) return;
    if (contents(d, w.universe) != sref) R->viol(a.name, "not-reproducible", "final contents differ %s", cs.c_str());
    d->cache_free(d);
    count("repeats");
  }
  // clones of a used cache, and clones of clones
  Cfg gm = g;  // the used cache may have a grown hash table: the clone keeps its hash power, which random sampling sees
  bool hp_matters = a.has(T_RAND) && strcmp(a.name, "LeCaR") && strcmp(a.name, "Cacheus") && strncmp(a.name, "FIFO_", 5);
  if (!hp_matters) {
    set_rand_seed(g.rseed);
    cache_t *d = clone_cache(c);
    if (d->obj_md_size != c->obj_md_size) R->viol(a.name, "clone", "metadata size %d, original %d %s", d->obj_md_size, c->obj_md_size, cs.c_str());
    if (strcmp(d->cache_name, c->cache_name)) R->viol(a.name, "clone", "name %s, original %s", d->cache_name, c->cache_name);
    if (!fresh_like(a, "clone", d, g, w, &ref, cs)) return;
    set_rand_seed(g.rseed);
    cache_t *e = clone_cache(d);
    d->cache_free(d);
    if (!fresh_like(a, "clone-of-clone", e, g, w, &ref, cs)) return;
    e->cache_free(e);
    count("clones");
    // another size, and back to the first size
    Cfg g2 = g;
    g2.size = pick_size(r, w);
    cache_t *f = fresh(g2);
    Log ref2 = run_all(f, w.reqs);
    f->cache_free(f);
    set_rand_seed(g2.rseed);
    cache_t *h = create_cache_with_new_size(c, g2.size);
    if (!fresh_like(a, "new-size", h, g2, w, &ref2, cs + cfg_str(g2, w))) return;
    set_rand_seed(g.rseed);
    cache_t *k = create_cache_with_new_size(h, g.size);
    h->cache_free(h);
    if (!fresh_like(a, "new-size-and-back", k, g, w, &ref, cs)) return;
    k->cache_free(k);
    count("resizes");
  }
  // the original is untouched by all this
  if (contents(c, w.universe) != sref || c->get_n_obj(c) != ref.back().n || c->get_occupied_byte(c) != ref.back().b)
    R->viol(a.name, "original-disturbed", "the original changed while its copies were used %s", cs.c_str());
  c->cache_free(c);
  // interleaved with another instance
  if (a.has(T_RAND)) return;
  vector<const Algo *> others;
  for (auto &x : all_algos())
    if (!x.has(T_RAND) && string(x.name) != "WTinyLFU") others.push_back(&x);
  for (int round = 0; round < 2; round++) {
    const Algo &b = round == 0 ? a : *others[r.below(others.size())];
    WlOpt o2;
    Workload w2 = make(r, o2);
    Cfg g2 = pickcfg(b, r, w2);
    cache_t *y = mkc(b, g2);
    Log refy = run_all(y, w2.reqs);
    y->cache_free(y);
    cache_t *x = fresh(g);
    y = mkc(b, g2);
    Log lx, ly;
    size_t ix = 0, iy = 0;
    cache_t *tmp = NULL;
    while (ix < w.reqs.size() || iy < w2.reqs.size()) {
      bool tx = iy >= w2.reqs.size() || (ix < w.reqs.size() && r.below(2));
      if (tx) { lx.push_back(step(x, w.reqs[ix], ix)); ix++; }
      else { ly.push_back(step(y, w2.reqs[iy], iy)); iy++; }
      if (r.chance(0.01)) {  // clone, use and free a third one in between
        if (tmp) { tmp->cache_free(tmp); tmp = NULL; }
        else { tmp = clone_cache(x && r.below(2) ? x : y); for (size_t j = 0; j < 20 && j < w.reqs.size(); j++) step(tmp, w.reqs[j], j); }
      }
      if (ix == w.reqs.size() && x) { x->cache_free(x); x = NULL; }
    }
    if (tmp) tmp->cache_free(tmp);
    if (x) x->cache_free(x);
    y->cache_free(y);
    if (differ(a, "not-independent", ref, lx, cs + " with " + b.name)) return;
    if (differ(b, "not-independent", refy, ly, cfg_str(g2, w2) + " with " + a.name)) return;
    count("interleavings");
  }
  sample("%s: repeated, cloned, resized, interleaved %s", a.name, cs.c_str());
}

// ------------------------------------------------------------------ C25
static bool in(const char *n, std::initializer_list<const char *> l) {
  for (auto x : l)
    if (!strcmp(n, x)) return true;
  return false;
}
static void c25(const Algo &a, Rng &r) {
  WlOpt o;
  Workload w = make(r, o);
  Cfg g = pickcfg(a, r, w);
  string cs = cfg_str(g, w);
  cache_t *c = mkc(a, g);
  Log ref = run_all(c, w.reqs);
  std::set<uint64_t> sref = contents(c, w.universe);
  c->cache_free(c);
  finish_counts(ref);
  bool hash_sampling = in(a.name, {"Random", "RandomTwo", "RandomLRU", "Hyperbolic", "BeladySize", "LHD"});
  bool id_hashing = hash_sampling || in(a.name, {"WTinyLFU"});
  // 1. renaming: every kind of id layout, order reversed
  if (!id_hashing) {
    Workload v = w;
    int how = r.below(4);
    uint64_t x = r.next() | 1;
    auto ren = [&](uint64_t id) -> uint64_t { return how == 0 ? ~id : how == 1 ? id * x : how == 2 ? (id ^ x) : (id << 32 | id >> 32); };
    std::set<uint64_t> want;
    for (auto &q : v.reqs) q.id = ren(q.id);
    for (auto &u : v.universe) u = ren(u);
    for (auto u : sref) want.insert(ren(u));
    c = mkc(a, g);
    Log l = run_all(c, v.reqs);
    if (!differ(a, "renaming", ref, l, cs) && contents(c, v.universe) != want) R->viol(a.name, "renaming", "other final contents %s", cs.c_str());
    c->cache_free(c);
    count("renamings");
  }
  // 2. time shift
  {
    Workload v = w;
    int64_t sh = r.below(2) ? 1000000000 : 1 + r.below(100000);
    for (auto &q : v.reqs) q.time += sh;
    c = mkc(a, g);
    Log l = run_all(c, v.reqs);
    if (!differ(a, "time-shift", ref, l, cs) && contents(c, v.universe) != sref) R->viol(a.name, "time-shift", "other final contents %s", cs.c_str());
    c->cache_free(c);
    count("time_shifts");
  }
  // 3. hash power
  if (!hash_sampling) {
    Cfg g2 = g;
    g2.hp = 1 + r.below(14);
    c = mkc(a, g2);
    Log l = run_all(c, w.reqs);
    if (!differ(a, "hash-power", ref, l, cs + cfg_str(g2, w)) && contents(c, w.universe) != sref) R->viol(a.name, "hash-power", "other final contents %s", cs.c_str());
    c->cache_free(c);
    count("hash_powers");
  }
  // 4. scaled sizes (a power of two keeps the floating-point priorities exact;
  // the cache size is a multiple of 1000 so that all ratios stay whole)
  if (!in(a.name, {"WTinyLFU", "LHD", "SLRU", "ARC", "LeCaR", "Cacheus"}) || (a.name[0] == 'S' && g.p.empty())) {
    Cfg g1 = g;
    g1.md = false;
    g1.size = (g.size / 1000 + 1) * 1000;
    if (g1.size > (uint64_t)w.distinct_bytes) g1.size = g.size >= 8 ? g.size / 8 * 8 : 8;
    bool ratios = in(a.name, {"TwoQ", "S3FIFO", "QDLP", "SLRU"});
    if (!ratios || g1.size % 1000 == 0) {
      int64_t k = 1ll << (1 + r.below(12));
      while (k > 1 && k * w.max_size > 4000000000ll) k /= 2;
      c = mkc(a, g1);
      Log l1 = run_all(c, w.reqs);
      c->cache_free(c);
      Workload v = w;
      for (auto &q : v.reqs) q.size *= k;
      Cfg g2 = g1;
      g2.size *= k;
      c = mkc(a, g2);
      Log l2 = run_all(c, v.reqs);
      c->cache_free(c);
      differ(a, "scaling", l1, l2, cfg_str(g1, w) + " scaled by " + std::to_string(k), 1, k);
      count("scalings");
    }
  }
  sample("%s: renamed, shifted, scaled %s", a.name, cs.c_str());
}

void register_cases(vector<Case> &cs) {
  int n = O.prop == "C04" ? ncase(120, 3000) : O.prop == "C10" ? ncase(60, 1400) : ncase(90, 2400);
  auto f = O.prop == "C04" ? c04 : O.prop == "C10" ? c10 : c25;
  for (int k = 0; k < n; k++)
    for (auto &a : all_algos()) cs.push_back({a.name, O.seed * 100000 + k, [&a, f](Rng &r) { size_flavour = 0; f(a, r); }});
  int nl = ncase(2, 100);
  for (int k = 0; k < nl; k++)
    for (auto &a : all_algos()) cs.push_back({a.name, O.seed * 100000 + 90000 + k, [&a, f, k](Rng &r) { size_flavour = 1 + k % 2; f(a, r); }});
}
