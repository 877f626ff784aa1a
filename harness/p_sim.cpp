// Multi-threaded simulation against a sequential replay (C11)
#include <dlfcn.h>
#include <pthread.h>

#include <atomic>
#include <deque>

#include "cachepick.hpp"
#include "traces.hpp"
extern "C" {
#include "libCacheSim/simulator.h"
}
#define V(a, kind, ...) R->viol((a), kind, __VA_ARGS__)
#if defined(__SANITIZE_THREAD__)
#define TSAN 1
#else
#define TSAN 0
#endif

// ---------------------------------------------------- stand-ins of the thread library
// glib is not built with the race detector, so it would not see how glib's pool and
// mutexes order the threads. These do the same with pthreads, and schedule badly on purpose.
static bool hostile = true;
static uint64_t sched_seed = 1;
static std::atomic<int64_t> n_tasks{0}, running{0}, max_running{0}, out_of_order{0};
struct Pool {
  pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
  pthread_cond_t c = PTHREAD_COND_INITIALIZER, idle = PTHREAD_COND_INITIALIZER;
  GFunc f;
  gpointer user;
  std::deque<std::pair<gpointer, int>> q;
  vector<pthread_t> th;
  int maxth, busy = 0, started = 0, last_done = -1;
  bool stop = false, drop = false;
  Rng r{sched_seed};
  int mood = 0;
};
static void nap(uint64_t us) { if (us) usleep(us); }
static void *worker(void *p) {
  Pool *P = (Pool *)p;
  pthread_mutex_lock(&P->m);
  for (;;) {
    while (P->q.empty() && !P->stop) pthread_cond_wait(&P->c, &P->m);
    if (P->q.empty() || P->drop) break;
    auto t = P->q.front();
    P->q.pop_front();
    P->busy++;
    uint64_t d = P->mood == 1 ? P->r.below(3000) : P->mood == 2 && P->r.chance(0.3) ? P->r.below(8000) : 0, e = P->mood ? P->r.below(300) : 0;
    pthread_mutex_unlock(&P->m);
    int64_t k = ++running, old = max_running;
    while (k > old && !max_running.compare_exchange_weak(old, k)) {}
    nap(d);
    P->f(t.first, P->user);
    nap(e);
    running--;
    n_tasks++;
    pthread_mutex_lock(&P->m);
    if (t.second < P->last_done) out_of_order++;
    P->last_done = t.second;
    P->busy--;
    pthread_cond_broadcast(&P->idle);
  }
  pthread_mutex_unlock(&P->m);
  return nullptr;
}
extern "C" {
unsigned sleep(unsigned) {  // the simulator polls its workers with sleep(2)
  usleep(200);
  return 0;
}
typedef GThreadPool *(*new_t)(GFunc, gpointer, gint, gboolean, GError **);
typedef gboolean (*push_t)(GThreadPool *, gpointer, GError **);
typedef void (*free_t)(GThreadPool *, gboolean, gboolean);
static std::set<void *> own;
GThreadPool *g_thread_pool_new(GFunc f, gpointer user, gint maxth, gboolean ex, GError **err) {
  if (!hostile) return ((new_t)dlsym(RTLD_NEXT, "g_thread_pool_new"))(f, user, maxth, ex, err);
  Pool *P = new Pool;
  P->f = f;
  P->user = user;
  P->maxth = maxth < 0 ? 16 : maxth;
  P->r = Rng(sched_seed++);
  P->mood = P->r.below(4);
  own.insert(P);
  for (int i = 0; i < P->maxth; i++) {
    pthread_t t;
    if (pthread_create(&t, nullptr, worker, P)) { fprintf(stderr, "pthread_create\n"); exit(3); }
    P->th.push_back(t);
  }
  return (GThreadPool *)P;
}
gboolean g_thread_pool_push(GThreadPool *gp, gpointer d, GError **err) {
  if (!own.count(gp)) return ((push_t)dlsym(RTLD_NEXT, "g_thread_pool_push"))(gp, d, err);
  Pool *P = (Pool *)gp;
  pthread_mutex_lock(&P->m);
  P->q.push_back({d, P->started++});
  pthread_cond_signal(&P->c);
  if (P->mood == 3 && P->r.chance(0.6))  // everything pushed so far runs to completion before push returns
    while (!P->q.empty() || P->busy) pthread_cond_wait(&P->idle, &P->m);
  uint64_t d2 = P->mood == 2 ? P->r.below(500) : 0;
  pthread_mutex_unlock(&P->m);
  nap(d2);
  return TRUE;
}
void g_thread_pool_free(GThreadPool *gp, gboolean immediate, gboolean wait) {
  if (!own.count(gp)) return ((free_t)dlsym(RTLD_NEXT, "g_thread_pool_free"))(gp, immediate, wait);
  Pool *P = (Pool *)gp;
  own.erase(P);
  pthread_mutex_lock(&P->m);
  P->stop = true;
  P->drop = immediate;
  pthread_cond_broadcast(&P->c);
  pthread_mutex_unlock(&P->m);
  if (!wait) {
    for (auto t : P->th) pthread_detach(t);
    return;  // the pool stays allocated for its threads
  }
  for (auto t : P->th) pthread_join(t, nullptr);
  delete P;
}
#if TSAN
static pthread_mutex_t *pm(GMutex *m) {
  gpointer p = __atomic_load_n(&m->p, __ATOMIC_ACQUIRE);
  if (!p) {
    pthread_mutex_t *n = (pthread_mutex_t *)malloc(sizeof *n);
    pthread_mutex_init(n, nullptr);
    if (__atomic_compare_exchange_n(&m->p, &p, (gpointer)n, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) p = n;
    else free(n);
  }
  return (pthread_mutex_t *)p;
}
void g_mutex_init(GMutex *m) { m->p = nullptr; }
void g_mutex_clear(GMutex *m) {
  if (m->p) { pthread_mutex_destroy((pthread_mutex_t *)m->p); free(m->p); }
  m->p = nullptr;
}
void g_mutex_lock(GMutex *m) { pthread_mutex_lock(pm(m)); }
gboolean g_mutex_trylock(GMutex *m) { return pthread_mutex_trylock(pm(m)) == 0; }
void g_mutex_unlock(GMutex *m) { pthread_mutex_unlock(pm(m)); }
static pthread_cond_t *pc(GCond *m) {
  gpointer p = __atomic_load_n(&m->p, __ATOMIC_ACQUIRE);
  if (!p) {
    pthread_cond_t *n = (pthread_cond_t *)malloc(sizeof *n);
    pthread_cond_init(n, nullptr);
    if (__atomic_compare_exchange_n(&m->p, &p, (gpointer)n, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) p = n;
    else free(n);
  }
  return (pthread_cond_t *)p;
}
void g_cond_init(GCond *c) { c->p = nullptr; }
void g_cond_clear(GCond *c) {
  if (c->p) { pthread_cond_destroy((pthread_cond_t *)c->p); free(c->p); }
  c->p = nullptr;
}
void g_cond_wait(GCond *c, GMutex *m) { pthread_cond_wait(pc(c), pm(m)); }
void g_cond_signal(GCond *c) { pthread_cond_signal(pc(c)); }
void g_cond_broadcast(GCond *c) { pthread_cond_broadcast(pc(c)); }
#endif
}

// ------------------------------------------------------------------ traces
static Trace some_trace(Rng &r, int nreq, int nobj) {
  WlOpt o;
  o.n_req = nreq;
  o.n_obj = nobj;
  o.id_mode = 0;
  Workload w = gen_workload(r, o);
  vector<Rec> v;
  int64_t last = r.chance(0.5) ? 0 : 1000000;
  for (auto &q : w.reqs) {
    last = std::max(last, q.time);
    v.push_back(Rec{q.id, "s" + std::to_string(q.id), q.size, last, q.next, 1, 1, 100});
  }
  static const char *f[] = {"txt", "csv", "csv", "csvstr", "bin", "oracleGeneral", "oracleGeneral", "oracleGeneral", "vscsi2", "lcs", "twr"};
  string fmt = f[r.below(sizeof f / sizeof *f)];
  if (fmt == "vscsi2" && nreq < 10) fmt = "oracleGeneral";
  TrOpt t;
  t.recs = &v;
  t.plain = true;
  t.zst = fmt_zst_ok(fmt) && r.chance(0.1);
  Trace tr = make_trace(r, fmt, t);
  tr.detail = w.kind + " " + tr.detail;
  return tr;
}
static vector<request_t> read_all(reader_t *rd) {
  vector<request_t> v;
  request_t *q = new_request();
  while (read_one_req(rd, q) == 0) v.push_back(*q);
  free_request(q);
  return v;
}
struct Warm {
  double frac = 0;
  int sec = 0;
  Trace *tr = nullptr;
  vector<request_t> reqs;
  reader_t *rd = nullptr;
};
static cache_stat_t replay(cache_t *c, const vector<request_t> &v, const Warm &w, uint64_t n_warm) {
  cache_stat_t s;
  memset(&s, 0, sizeof s);
  set_rand_seed(0);
  request_t *q = new_request();
  for (auto &x : w.reqs) {
    *q = x;
    c->get(c, q);
    s.n_warmup_req++;
  }
  size_t i = 0;
  if (v.size()) {
    int64_t t0 = v[0].clock_time;
    bool warm = n_warm > 0 || w.sec > 0;
    for (; i < v.size(); i++) {
      *q = v[i];
      q->clock_time -= t0;
      if (warm && !(i < n_warm || (int64_t)q->clock_time < w.sec)) warm = false;
      bool hit = c->get(c, q);
      if (warm) { s.n_warmup_req++; continue; }
      s.n_req++;
      s.n_req_byte += v[i].obj_size;
      if (!hit) { s.n_miss++; s.n_miss_byte += v[i].obj_size; }
    }
  }
  s.n_obj = c->get_n_obj(c);
  s.occupied_byte = c->get_occupied_byte(c);
  s.cache_size = c->cache_size;
  strncpy(s.cache_name, c->cache_name, CACHE_NAME_ARRAY_LEN);
  free_request(q);
  return s;
}
static string cmp(const cache_stat_t &got, const cache_stat_t &want) {
  char b[200];
#define EQ(f) if ((int64_t)got.f != (int64_t)want.f) { snprintf(b, sizeof b, #f " is %ld instead of %ld", (long)got.f, (long)want.f); return b; }
  EQ(cache_size) EQ(n_req) EQ(n_req_byte) EQ(n_miss) EQ(n_miss_byte) EQ(n_warmup_req) EQ(n_obj) EQ(occupied_byte)
  if (strncmp(got.cache_name, want.cache_name, CACHE_NAME_ARRAY_LEN)) return string("cache name is ") + got.cache_name + " instead of " + want.cache_name;
  return "";
}
static const Algo &pick_algo(Rng &r, const Trace &t, bool oracle_ok) {
  auto &v = all_algos();
  for (;;) {
    const Algo &a = v[r.below(v.size())];
    if (string(a.name) == "BeladySize" || (!no_huge && string(a.name) == "WTinyLFU")) continue;
    if (a.has(T_ORACLE) && !(t.has_next && oracle_ok)) continue;
    return a;
  }
}

static void sim_case(Rng &r, const Algo *fixed) {
  sched_seed = r.next();
  hostile = TSAN || r.chance(0.75);
  int nreq = r.chance(0.1) ? 1 + r.below(8) : 20 + r.below(r.chance(0.3) ? 200 : TSAN ? 800 : 2000);
  Trace t = some_trace(r, nreq, 2 + r.below(r.chance(0.3) ? 12 : 200));
  reader_t *rd = open_tr(t), *rd2 = open_tr(t);
  vector<request_t> v = read_all(rd2);
  close_reader(rd2);
  if (v.empty()) return;
  int64_t bytes = 0, mx = 1;
  std::unordered_map<uint64_t, int64_t> sz;
  for (auto &q : v) { sz[q.obj_id] = q.obj_size; mx = std::max<int64_t>(mx, q.obj_size); }
  for (auto &p : sz) bytes += p.second;

  Warm w;
  Trace wt;
  bool own_warm = false;
  if (r.chance(0.25)) w.frac = r.chance(0.2) ? 1.0 : r.chance(0.1) ? 0.0001 : r.unit();
  if (r.chance(0.25) && t.has_time) w.sec = 1 + r.below(std::max<int64_t>(2, 2 * ((int64_t)v.back().clock_time - (int64_t)v[0].clock_time) + 2));
  if (r.chance(0.25)) {
    if (r.chance(0.5)) { w.rd = rd; w.reqs = v; own_warm = true; }
    else {
      wt = some_trace(r, 1 + r.below(300), 2 + r.below(100));
      w.rd = open_tr(wt);
      reader_t *x = open_tr(wt);
      w.reqs = read_all(x);
      close_reader(x);
    }
  }
  uint64_t n_warm = (uint64_t)((double)v.size() * w.frac);
  int nth = 1 + r.below(r.chance(0.5) ? 4 : 16);
  int ns = 1 + r.below(r.chance(0.3) ? 3 : 14);
  auto pick = [&]() -> uint64_t {
    if (r.chance(0.2)) return 1 + r.below(2 * mx);
    if (r.chance(0.06)) return (1ull << (31 + r.below(10))) + r.below(1000);
    return std::max<uint64_t>(1, (uint64_t)(bytes * pow(10, -2.0 * r.unit()) * 1.1));
  };
  // read a little first: the simulation still uses the whole trace
  if (r.chance(0.3)) {
    request_t *q = new_request();
    for (int k = r.below(4); k > 0; k--) read_one_req(rd, q);
    free_request(q);
  }
  char ctx[500];
  int kind = r.below(3);
  snprintf(ctx, sizeof ctx, "%s, %d threads%s, warm-up %g of the trace, %d s, %zu requests, %.200s", kind == 2 ? "several caches" : kind ? "several sizes" : "steps", nth, hostile ? " (stand-in pool)" : "", w.frac, w.sec, w.reqs.size(), t.detail.c_str());
  int64_t hits = 0;
  bool oracle_ok = !w.rd || own_warm;
  int rounds = r.chance(0.2) ? 2 : 1;
  auto admit = [&](cache_t *c, const Algo &a) {
    if (a.has(T_OWN_ADMIT) || !r.chance(0.15)) return;
    int k = r.below(3);
    c->admissioner = create_admissioner(k == 0 ? "size" : k == 1 ? "bloomfilter" : "prob", k == 0 ? ("size=" + std::to_string(1 + r.below(mx + 1))).c_str() : NULL);
  };
  if (kind < 2) {
    const Algo &a = fixed ? *fixed : pick_algo(r, t, oracle_ok);
    // Cacheus draws its learning rate when it is created
    if ((a.has(T_ORACLE) && !(t.has_next && oracle_ok)) || string(a.name) == "Cacheus") { close_reader(rd); return; }
    string p = pick_param(a, r);
    bool md = !a.has(T_NO_MD) && r.chance(0.2);
    uint64_t full = pick();
    if (kind == 0) full = std::max<uint64_t>(full, ns);
    cache_t *c = mk(a, full, p, md, 6 + r.below(8));
    admit(c, a);
    vector<uint64_t> sizes;
    uint64_t step = 0;
    if (kind == 0) {
      step = std::max<uint64_t>(1, full / ns);
      if (r.chance(0.5)) step = std::max<uint64_t>(step, 1 + r.below(full));
      for (uint64_t s = step; s < full + step; s += step) sizes.push_back(s);
    } else
      for (int i = 0; i < ns; i++) sizes.push_back(i && r.chance(0.15) ? sizes[r.below(i)] : pick());
    for (int rd_no = 0; rd_no < rounds; rd_no++) {
      cache_stat_t *res = kind == 0 ? simulate_at_multi_sizes_with_step_size(rd, c, step, w.rd, w.frac, w.sec, nth)
                                    : simulate_at_multi_sizes(rd, c, sizes.size(), sizes.data(), w.rd, w.frac, w.sec, nth);
      for (size_t i = 0; i < sizes.size(); i++) {
        cache_t *d = create_cache_with_new_size(c, sizes[i]);
        cache_stat_t want = replay(d, v, w, n_warm);
        string e = cmp(res[i], want);
        if (e.size()) { V(a.name, "wrong-result", "size %lu (entry %zu of %zu): %s [params '%s', %s]", sizes[i], i, sizes.size(), e.c_str(), p.c_str(), ctx); return; }
        hits += want.n_req - want.n_miss;
        d->cache_free(d);
        count("results_compared");
      }
      free(res);
    }
    if (c->get_n_obj(c) != 0) V(a.name, "template-used", "the cache passed in holds objects after the simulation [%s]", ctx);
    c->cache_free(c);
    sample("%s, %zu sizes, %s", a.name, sizes.size(), ctx);
  } else {
    vector<cache_t *> cs, ref;
    vector<string> pars;
    bool freeing = r.chance(0.5);
    for (int i = 0; i < ns; i++) {
      const Algo &a = fixed && r.chance(0.5) && !fixed->has(T_ORACLE) ? *fixed : pick_algo(r, t, oracle_ok);
      string p = pick_param(a, r);
      uint64_t cs0 = r.next();
      set_rand_seed(cs0);
      cache_t *c = mk(a, pick(), p, !a.has(T_NO_MD) && r.chance(0.2), 6 + r.below(8));
      admit(c, a);
      cs.push_back(c);
      pars.push_back(p);
      set_rand_seed(cs0);
      ref.push_back(clone_cache(c));
    }
    cache_stat_t *res = simulate_with_multi_caches(rd, cs.data(), ns, w.rd, w.frac, w.sec, nth, freeing);
    vector<uint64_t> ids;
    for (auto &p : sz) ids.push_back(p.first);
    for (int i = 0; i < ns; i++) {
      cache_stat_t want = replay(ref[i], v, w, n_warm);
      string e = cmp(res[i], want);
      if (e.empty() && !freeing && contents(cs[i], ids) != contents(ref[i], ids)) e = "the final contents differ";
      if (e.size()) { V(ref[i]->cache_name, "wrong-result", "cache %d of %d (%s, size %lu): %s [params '%s', %s]", i, ns, ref[i]->cache_name, (unsigned long)ref[i]->cache_size, e.c_str(), pars[i].c_str(), ctx); return; }
      hits += want.n_req - want.n_miss;
      count("results_compared");
    }
    free(res);
    for (auto c : ref) c->cache_free(c);
    if (!freeing) for (auto c : cs) c->cache_free(c);
    sample("%d caches, %s", ns, ctx);
  }
  // the reader can be used as before
  reset_reader(rd);
  vector<request_t> again = read_all(rd);
  bool same = again.size() == v.size();
  for (size_t i = 0; same && i < v.size(); i++) same = again[i].obj_id == v[i].obj_id && again[i].obj_size == v[i].obj_size && again[i].clock_time == v[i].clock_time;
  if (!same) V("reader", "reader-used", "the reader yields something else after the simulation [%s]", ctx);
  if (w.rd && w.rd != rd) close_reader(w.rd);
  close_reader(rd);
  count("requests_simulated", v.size() * ns);
  count("tasks", n_tasks);
  count("finished_out_of_order", out_of_order);
  count("max_parallel_sum", max_running);
  if (hits && ns > 1 && nth > 1) count("nontrivial");
}

void register_cases(vector<Case> &cs) {
  auto add = [&](const string &s, int n, std::function<void(Rng &)> f) {
    for (int i = 0; i < n; i++) cs.push_back({s, O.seed * 1000003ull + i, f});
  };
  int q = TSAN ? 60 : 160, per = TSAN ? 4 : 10;
  add(TSAN ? "race:mixed" : "mixed", ncase(q, q * 20), [](Rng &r) { sim_case(r, nullptr); });
  for (auto &a : all_algos()) {
    if (string(a.name) == "BeladySize") continue;
    const Algo *p = &a;
    add(TSAN ? string("race:") + a.name : a.name, ncase(per, per * 20), [p](Rng &r) { sim_case(r, p); });
  }
}
