// Lock-step comparison of the real algorithms with reference models (C06-C08):
// hit or miss of every request, counters, victims and the resident set.
#include "cachepick.hpp"
#include "models.hpp"

static Model *make_model(const string &n, const string &p, int64_t cap, int64_t md) {
  Model *m = nullptr;
  auto setup = [&](Model *x) { x->cap = cap; x->md = md; return x; };
  if (n == "FIFO") m = setup(new MFifo);
  else if (n == "LRU") m = setup(new MLru);
  else if (n == "MRU") m = setup(new MMru);
  else if (n == "Sieve") m = setup(new MSieve);
  else if (n == "Clock") m = setup(new MClock(p.empty() ? 1 : atoi(p.c_str() + strlen("n-bit-counter="))));
  else if (n == "SLRU") { auto x = new MSlru; setup(x); x->init(p); m = x; }
  else if (n == "LFU" || n == "LFUCpp") m = setup(new MLfu);
  else if (n == "LFUDA") m = setup(new MLfuda);
  else if (n == "GDSF") m = setup(new MGdsf);
  else if (n == "TwoQ") { auto x = new MTwoQ; setup(x); x->md = 0; x->init(p); m = x; }
  else if (n == "S3FIFO") { auto x = new MS3; setup(x); x->md = 0; x->init(p); m = x; }
  else if (n == "QDLP") { auto x = new MQdlp; setup(x); x->md = 0; x->init(p); m = x; }
  else if (n == "ARC") m = setup(new MArc);
  return m;
}
static string idlist(const vector<uint64_t> &v) {
  string s;
  for (size_t i = 0; i < v.size() && i < 6; i++) s += (i ? "," : "") + std::to_string(v[i]);
  return s;
}

// 0: small, 1: a handful of objects, 2: long runs, 3: many objects
static WlOpt flavour_opt(Rng &r, int fl) {
  WlOpt o;
  o.n_req = fl == 1 ? 400 + r.below(800) : fl == 2 ? 40000 + r.below(60000) : fl == 3 ? 15000 + r.below(20000) : 300 + r.below(thorough() ? 3000 : 1200);
  o.n_obj = fl == 1 ? 2 + r.below(8) : fl == 2 ? 2 + r.below(60) : fl == 3 ? 1000 + r.below(8000) : 2 + r.below(120);
  return o;
}
static void lockstep(const Algo &a, Rng &r, int fl) {
  bool tiny = fl == 1, large = fl >= 2;
  WlOpt o = flavour_opt(r, fl);
  bool unit = !strcmp(a.name, "ARC");
  if (unit) o.size_mode = SZ_UNIT;
  else if (tiny) o.size_mode = r.below(2) ? SZ_UNIT : SZ_SMALLVAR;
  Workload w = gen_workload(r, o);
  uint64_t size = tiny ? 1 + r.below(std::max<int64_t>(2, w.distinct_bytes)) : pick_size(r, w);
  if (!unit && r.chance(0.1)) resize_objects(r, w);
  bool md = !a.has(T_NO_MD) && !unit && r.chance(0.25);
  if (md) size += 40 + r.below(200);
  string p = pick_param(a, r);
  cache_t *c = mk(a, size, p, md, 1 + r.below(12));
  Model *m = make_model(a.name, p, size, c->obj_md_size);
  bool rem = a.has(T_REMOVE) && r.chance(0.4);
  bool evc = a.has(T_EVICT) && r.chance(0.3);
  double prem = 0.01 + 0.2 * r.unit(), pev = 0.01 + 0.1 * r.unit(), cmp_share = 100.0 / (o.n_req + 1);
  Spy spy;  // an admission algorithm that refuses some of the misses
  bool adm = r.chance(0.15);
  if (adm) {
    uint64_t salt = r.next(), pr = 3 + r.below(7);
    spy.fn = [=](const request_t *q) { return h64(std::to_string(q->obj_id * 131 + q->clock_time) + std::to_string(salt)) % 10 < pr; };
    c->admissioner = spy_on(&spy);
  }
  char cs[300];
  snprintf(cs, sizeof cs, "[cache size %lu, md %d, params '%s', workload %s, removals %d, direct evictions %d, admission %d]", size, md, p.c_str(), w.kind.c_str(), rem, evc, adm);
  request_t req;
  int64_t hits = 0;
  bool bad = false;
  auto compare = [&](size_t i, const char *what) {
    std::map<uint64_t, int64_t> want;
    m->dump(want);
    vector<uint64_t> extra, missing;
    for (uint64_t id : w.universe) {
      bool in = resident(c, id), ex = want.count(id);
      if (in && !ex) extra.push_back(id);
      if (!in && ex) missing.push_back(id);
    }
    count("state_compares");
    if (!extra.empty() || !missing.empty()) {
      R->viol(a.name, "wrong-contents", "%s, step %zu: policy says otherwise, cached but should not be: {%s} (%zu), should be but is not: {%s} (%zu) %s", what, i,
              idlist(extra).c_str(), extra.size(), idlist(missing).c_str(), missing.size(), cs);
      bad = true;
    }
  };
  size_t universe = w.universe.size();
  for (size_t i = 0; i < w.reqs.size() && !bad; i++) {
    to_req(&req, w.reqs[i], i + 1);
    bool mh = m->get(w.reqs[i].id, w.reqs[i].size, !adm || spy.fn(&req));
    bool h = c->get(c, &req);
    hits += h;
    if (h != mh) { R->viol(a.name, "wrong-hit", "request %zu of %zu to object %lu: %s, policy says %s %s", i, w.reqs.size(), w.reqs[i].id, h ? "hit" : "miss", mh ? "hit" : "miss", cs); bad = true; break; }
    int64_t mo = m->occ();
    if (c->get_occupied_byte(c) != mo) {
      R->viol(a.name, "wrong-bytes", "request %zu: %ld bytes cached, policy says %ld %s", i, c->get_occupied_byte(c), mo, cs);
      bad = true;
      break;
    }
    if ((universe <= 20 && !large) || (large ? r.chance(cmp_share) : i % 11 == 0) || i + 1 == w.reqs.size()) compare(i, "after get");
    if (rem && !bad && r.chance(prem)) {
      uint64_t id = w.universe[r.below(universe)];
      bool x = m->remove(id), y = c->remove(c, id);
      if (x != y) { R->viol(a.name, "wrong-remove", "step %zu: remove %lu returned %d, policy says %d %s", i, id, y, x, cs); bad = true; break; }
      count("removes", y);
      if (!large || r.chance(0.01)) compare(i, "after remove");
    }
    if (evc && !bad && r.chance(pev)) {
      for (int k = 1 + r.below(3); k > 0 && c->get_n_obj(c) > 0 && !bad; k--) {
        m->evict(0, 0);
        c->evict(c, &req);
        count("direct_evictions");
        if (!large || r.chance(0.01)) compare(i, "after evict");
      }
    }
  }
  count("requests", w.reqs.size());
  count("hits", hits);
  count("misses", w.reqs.size() - hits);
  count("model_evictions", m->nev);
  if (hits > 0 && m->nev > 0) count("nontrivial");
  sample("%s %s: %zu requests in lock step, %ld hits, %ld evictions", a.name, cs, w.reqs.size(), hits, m->nev);
  delete m;
  c->cache_free(c);
}

// Size: the victims of a request are largest objects (ties are free), and no
// more are taken than the new object needs
static void largest_first(const Algo &a, Rng &r, int fl) {
  WlOpt o = flavour_opt(r, fl == 3 ? 0 : fl);
  Workload w = gen_workload(r, o);
  if (w.universe.size() > 300 && w.reqs.size() > 3000) w.reqs.resize(3000);  // the cost is their product
  uint64_t size = pick_size(r, w);
  bool md = r.chance(0.25);
  cache_t *c = mk(a, size, "", md, 1 + r.below(12));
  std::map<uint64_t, int64_t> in;  // resident -> size
  request_t req;
  int64_t hits = 0, ev = 0;
  bool rem = r.chance(0.4);
  for (size_t i = 0; i < w.reqs.size(); i++) {
    const Rq &q = w.reqs[i];
    to_req(&req, q, i + 1);
    int64_t mds = c->obj_md_size, occ = 0;
    for (auto &p : in) occ += p.second + mds;
    bool h = c->get(c, &req);
    hits += h;
    if (h != (in.count(q.id) > 0)) { R->viol(a.name, "wrong-hit", "request %zu: hit=%d, resident=%zu [cache size %lu, workload %s]", i, h, in.count(q.id), size, w.kind.c_str()); break; }
    int64_t minv = INT64_MAX, sumv = 0, maxrem = 0;
    vector<uint64_t> gone;
    for (auto &p : in) {
      if (resident(c, p.first)) maxrem = std::max(maxrem, p.second);
      else { minv = std::min(minv, p.second); sumv += p.second + mds; gone.push_back(p.first); }
    }
    bool fits = q.size + mds <= (int64_t)size;
    if ((h || !fits) && !gone.empty()) { R->viol(a.name, "needless-eviction", "request %zu: %zu objects left on a hit or refused request [cache size %lu]", i, gone.size(), size); break; }
    if (!h && fits) {
      if (!gone.empty() && minv < maxrem) { R->viol(a.name, "not-largest", "request %zu: evicted an object of size %ld while one of size %ld stays [cache size %lu, workload %s]", i, minv, maxrem, size, w.kind.c_str()); break; }
      if (!gone.empty() && occ - (sumv - minv - mds) + q.size + mds <= (int64_t)size) { R->viol(a.name, "needless-eviction", "request %zu: more evicted than needed [cache size %lu]", i, size); break; }
      ev += gone.size();
      for (auto g : gone) in.erase(g);
      in[q.id] = q.size;
    }
    if (rem && r.chance(0.1)) {
      uint64_t id = w.universe[r.below(w.universe.size())];
      bool y = c->remove(c, id);
      if (y != (in.erase(id) > 0)) { R->viol(a.name, "wrong-remove", "remove %lu returned %d", id, y); break; }
    }
  }
  count("requests", w.reqs.size());
  count("hits", hits);
  count("size_victims", ev);
  if (hits && ev) count("nontrivial");
  c->cache_free(c);
}

void register_cases(vector<Case> &cs) {
  vector<string> names;
  int nq, nt;
  if (O.prop == "C06") { names = {"FIFO", "LRU", "MRU", "Clock", "Sieve", "SLRU"}; nq = 330; nt = 12000; }
  else if (O.prop == "C07") { names = {"LFU", "LFUCpp", "LFUDA", "GDSF", "Size"}; nq = 330; nt = 12000; }
  else { names = {"TwoQ", "S3FIFO", "QDLP", "ARC"}; nq = 500; nt = 16000; }
  int n = ncase(nq, nt);
  auto add = [&](const string &s, uint64_t seed, int fl) {
    const Algo *a = find_algo(s);
    if (s == "Size") cs.push_back({s, seed, [a, fl](Rng &r) { largest_first(*a, r, fl); }});
    else cs.push_back({s, seed, [a, fl](Rng &r) { lockstep(*a, r, fl); }});
  };
  for (int k = 0; k < n; k++)
    for (auto &s : names) add(s, O.seed * 100000 + k, k % 3 == 0);
  int nl = ncase(8, 300);
  for (int k = 0; k < nl; k++)
    for (auto &s : names) add(s, O.seed * 100000 + 90000 + k, 2 + k % 2);
}
