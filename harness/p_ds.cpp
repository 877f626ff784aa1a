// Distances (C15), the one-pass LRU curve (C16), data structures (C17)
#include "traces.hpp"
extern "C" {
#include "dataStructure/bloom.h"
#include "dataStructure/hashtable/hashtable.h"
#include "dataStructure/minimalIncrementCBF.h"
#include "dataStructure/pqueue.h"
#include "dataStructure/splay.h"
#include "libCacheSim/dist.h"
#include "libCacheSim/profilerLRU.h"
#include "libCacheSim/simulator.h"
bool chained_hashtable_delete_obj_id_v2(hashtable_t *hashtable, const obj_id_t obj_id);
// the simulator polls its workers with sleep(2)
unsigned sleep(unsigned) {
  usleep(300);
  return 0;
}
}

// ------------------------------------------------------------- trace makers
static vector<Rec> recs_of(const Workload &w) {
  vector<Rec> v;
  int64_t last = 0;
  for (auto &q : w.reqs) {
    Rec x{q.id, "s" + std::to_string(q.id), std::max<int64_t>(1, q.size), last = std::max(last, q.time), q.next, 1, 1, 100};
    v.push_back(x);
  }
  return v;
}
static string pick_fmt(Rng &r) {
  static const char *f[] = {"txt", "txtstr", "csv", "csvstr", "bin", "oracleGeneral", "oracleGeneral", "vscsi2", "lcs", "twr", "opns"};
  return f[r.below(sizeof f / sizeof *f)];
}
static Trace some_trace(Rng &r, int nreq, int nobj, int kind = -1) {
  WlOpt o;
  o.n_req = nreq;
  o.n_obj = nobj;
  o.kind = kind;
  o.id_mode = r.chance(0.7) ? 0 : 3;
  if (r.chance(0.1)) o.id_mode = 4;
  Workload w = gen_workload(r, o);
  vector<Rec> v = recs_of(w);
  string fmt = pick_fmt(r);
  if (fmt == "vscsi2" && nreq < 10) fmt = "txt";
  if (o.id_mode != 0) fmt = r.chance(0.5) ? "oracleGeneral" : "txt";
  if (o.id_mode == 4 && fmt == "txt") fmt = "oracleGeneral";
  TrOpt t;
  t.recs = &v;
  t.plain = true;
  t.zst = fmt_zst_ok(fmt) && r.chance(0.1);
  Trace tr = make_trace(r, fmt, t);
  tr.detail = w.kind + " " + tr.detail;
  return tr;
}
static vector<uint64_t> ids_of(Trace &t) {
  vector<uint64_t> v;
  reader_t *rd = open_tr(t);
  request_t *q = new_request();
  while (read_one_req(rd, q) == 0) v.push_back(q->obj_id);
  free_request(q);
  close_reader(rd);
  return v;
}

// ------------------------------------------------------------- references
struct Dists {
  vector<int64_t> last, first, stack, future;
};
static Dists ref_dists(const vector<uint64_t> &v) {
  size_t n = v.size();
  Dists d;
  d.last.assign(n, -1);
  d.first = d.stack = d.future = d.last;
  std::unordered_map<uint64_t, size_t> lastp, firstp;
  vector<int> fen(n + 1, 0);
  auto add = [&](size_t i, int x) { for (i++; i <= n; i += i & -i) fen[i] += x; };
  auto sum = [&](size_t i) { int s = 0; for (; i > 0; i -= i & -i) s += fen[i]; return s; };  // of the first i
  for (size_t i = 0; i < n; i++) {
    auto it = lastp.find(v[i]);
    if (it == lastp.end()) {
      firstp[v[i]] = i;
    } else {
      size_t p = it->second;
      d.last[i] = i - p;
      d.first[i] = i - firstp[v[i]];
      d.stack[i] = sum(i) - sum(p + 1);  // distinct objects whose last request is in (p, i)
      d.future[p] = d.stack[i];
      add(p, -1);
    }
    add(i, 1);
    lastp[v[i]] = i;
  }
  return d;
}
// directly from the definition
static int64_t stack_by_definition(const vector<uint64_t> &v, size_t i) {
  std::set<uint64_t> s;
  for (size_t j = i; j-- > 0;) {
    if (v[j] == v[i]) return s.size();
    s.insert(v[j]);
  }
  return -1;
}

static bool cmp_dist(const char *what, const vector<int64_t> &want, const int32_t *got, int64_t n, const string &detail) {
  if (n != (int64_t)want.size()) {
    R->viol(what, "wrong-length", "%ld distances for %zu requests %s", (long)n, want.size(), detail.c_str());
    return false;
  }
  for (size_t i = 0; i < want.size(); i++)
    if (want[i] != got[i]) {
      R->viol(what, "wrong-distance", "request %zu of %zu has distance %d instead of %ld %s", i, want.size(), got[i], (long)want[i], detail.c_str());
      return false;
    }
  count("distances_compared", n);
  return true;
}

static const dist_type_e all_types[] = {DIST_SINCE_LAST_ACCESS, DIST_SINCE_FIRST_ACCESS, STACK_DIST, FUTURE_STACK_DIST};
static string slurp(const string &p) {
  string s;
  FILE *f = fopen(p.c_str(), "rb");
  if (!f) return "<missing>";
  char b[65536];
  size_t k;
  while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k);
  fclose(f);
  return s;
}

static void dist_case(Rng &r, int big) {
  int n = big ? big : 1 + r.below(r.chance(0.3) ? 12 : 2500);
  int nobj = big ? (r.chance(0.5) ? n : n / 10) : 1 + r.below(r.chance(0.3) ? 5 : n + 1);
  Trace t = some_trace(r, n, nobj, big ? (int)(r.below(2) ? 2 : 3) : -1);
  vector<uint64_t> ids = ids_of(t);
  Dists d = ref_dists(ids);
  // the fast reference itself against the definition
  for (int k = 0; k < 8; k++) {
    size_t i = r.below(ids.size());
    if (stack_by_definition(ids, i) != d.stack[i]) { fprintf(stderr, "the reference is wrong\n"); exit(3); }
  }
  reader_t *rd = open_tr(t);
  request_t *q = new_request();
  vector<int> order = {0, 1, 2, 3};
  for (int k = 3; k > 0; k--) std::swap(order[k], order[r.below(k + 1)]);
  for (int k : order) {
    dist_type_e ty = all_types[k];
    int64_t n = -1;
    int32_t *a = k < 2 ? get_access_dist(rd, ty, &n) : get_stack_dist(rd, ty, &n);
    const vector<int64_t> &want = k == 0 ? d.last : k == 1 ? d.first : k == 2 ? d.stack : d.future;
    bool ok = cmp_dist(g_dist_type_name[ty], want, a, n, t.detail);
    if (ok && r.chance(big ? 0.2 : 0.5)) {  // saving
      string base = mon_tmp() + "/dist";
      save_dist(rd, a, n, base.c_str(), ty);
      string f = base + "." + g_dist_type_name[ty];
      int64_t m = -1;
      int32_t *b = load_dist(rd, f.c_str(), &m);
      cmp_dist((string(g_dist_type_name[ty]) + " saved").c_str(), want, b, m, t.detail);
      free(b);
      unlink(f.c_str());
      save_dist_txt(rd, a, n, base.c_str(), ty);
      f = base + "." + g_dist_type_name[ty] + ".txt";
      string s = slurp(f), w;
      for (int64_t x : want) w += std::to_string(x) + "\n";
      if (s != w) R->viol(g_dist_type_name[ty], "wrong-text", "the text file differs: '%.80s' instead of '%.80s' %s", s.c_str(), w.c_str(), t.detail.c_str());
      unlink(f.c_str());
      save_dist_as_cnt_txt(rd, a, n, base.c_str(), ty);
      f = base + "." + g_dist_type_name[ty] + ".cnt";
      s = slurp(f);
      std::map<int64_t, int64_t> h, g;
      for (int64_t x : want) h[x == -1 ? INT64_MAX : x]++;
      const char *p = s.c_str();
      long x, c;
      int used = 0, dup = 0;
      while (sscanf(p, "%ld:%ld, %n", &x, &c, &used) == 2 && used > 0) { dup += g.count(x); g[x] += c; p += used; used = 0; }
      if (*p || dup || g != h) R->viol(g_dist_type_name[ty], "wrong-counts", "the count file is not the histogram of the distances: '%.100s' %s", s.c_str(), t.detail.c_str());
      unlink(f.c_str());
      count("saved", 3);
    }
    free(a);
    // the reader is left at the start of the trace
    if (r.chance(0.3)) {
      if (read_one_req(rd, q) != 0 || q->obj_id != ids[0]) R->viol(g_dist_type_name[ty], "reader-moved", "the reader is not back at the first request afterwards %s", t.detail.c_str());
      reset_reader(rd);
    }
  }
  std::set<int64_t> ds(d.stack.begin(), d.stack.end());
  count("distinct_stack_distances", ds.size());
  if (ds.size() > 2) count("nontrivial");
  free_request(q);
  close_reader(rd);
  sample("%s: %zu distinct stack distances", t.detail.c_str(), ds.size());
  unlink(t.path.c_str());
}

// --------------------------------------------------------------- LRU curve
static void curve_case(Rng &r, int big) {
  int n = big ? big : 1 + r.below(r.chance(0.3) ? 20 : 2000);
  int nobj = 1 + r.below(r.chance(0.3) ? 5 : n / 2 + 1);
  Trace t = some_trace(r, n, nobj);
  t.par.ignore_obj_size = true;  // every object has one size
  t.has_params = true;
  t.ignore_size = true;
  vector<uint64_t> ids = ids_of(t);
  std::set<uint64_t> uniq(ids.begin(), ids.end());
  int64_t size = r.chance(0.2) ? (int64_t)uniq.size() : r.range(1, uniq.size() + 20);
  reader_t *rd = open_tr(t);
  double *ratio = r.chance(0.5) ? get_lru_obj_miss_ratio(rd, size) : get_lru_obj_miss_ratio_curve(rd, size);
  guint64 *miss = _get_lru_miss_cnt(rd, size);
  for (int64_t i = 0; i <= size; i++) {
    if (fabs(ratio[i] - (double)miss[i] / ids.size()) > 1e-9) { R->viol("curve", "wrong-ratio", "size %ld: ratio %.9f, %lu misses of %zu %s", (long)i, ratio[i], (unsigned long)miss[i], ids.size(), t.detail.c_str()); break; }
    if (i && miss[i] > miss[i - 1]) { R->viol("curve", "increases", "size %ld has %lu misses, size %ld %lu %s", (long)i, (unsigned long)miss[i], (long)i - 1, (unsigned long)miss[i - 1], t.detail.c_str()); break; }
  }
  if (miss[0] != ids.size()) R->viol("curve", "size-zero", "size 0 has %lu misses of %zu requests %s", (unsigned long)miss[0], ids.size(), t.detail.c_str());
  // simulate sizes one by one on the real LRU and on a plain list
  vector<uint64_t> sizes;
  int k = std::min<int64_t>(size, big ? 6 : 24);
  std::set<uint64_t> ss{1, (uint64_t)size};
  if (size <= k) for (int64_t i = 1; i <= size; i++) ss.insert(i);
  while ((int)ss.size() < k) ss.insert(r.range(1, size));
  sizes.assign(ss.begin(), ss.end());
  Dists d = ref_dists(ids);
  for (uint64_t s : sizes) {
    uint64_t want = 0;
    for (int64_t x : d.stack) want += !(x >= 0 && x < (int64_t)s);
    if (miss[s] != want) { R->viol("curve", "wrong-misses", "size %lu has %lu misses instead of %lu %s", s, (unsigned long)miss[s], want, t.detail.c_str()); break; }
  }
  cache_t *lru = mk(*find_algo("LRU"), size);
  cache_stat_t *st = simulate_at_multi_sizes(rd, lru, sizes.size(), sizes.data(), NULL, 0, 0, 1 + r.below(4));
  for (size_t i = 0; i < sizes.size(); i++) {
    if (st[i].n_miss != miss[sizes[i]] || st[i].n_req != ids.size() || st[i].cache_size != sizes[i]) {
      R->viol("simulation", "differs", "size %lu: the simulation has %lu misses of %lu, the curve %lu of %zu %s", sizes[i], (unsigned long)st[i].n_miss, (unsigned long)st[i].n_req, (unsigned long)miss[sizes[i]], ids.size(), t.detail.c_str());
      break;
    }
    count("sizes_compared");
  }
  free(st);
  if (!big && size >= 1) {
    uint64_t step = std::max<int64_t>(1, size / (1 + r.below(20)));
    cache_t *c2 = mk(*find_algo("LRU"), size);
    cache_stat_t *s2 = simulate_at_multi_sizes_with_step_size(rd, c2, step, NULL, 0, 0, 1 + r.below(4));
    int m = (size + step - 1) / step;
    for (int i = 0; i < m; i++) {
      uint64_t s = step * (i + 1);
      if (s > (uint64_t)size) continue;
      if (s2[i].cache_size != s || s2[i].n_miss != miss[s]) { R->viol("simulation", "step-differs", "step %d (size %lu, expected %lu): %lu misses, the curve says %lu %s", i, (unsigned long)s2[i].cache_size, s, (unsigned long)s2[i].n_miss, (unsigned long)miss[s], t.detail.c_str()); break; }
      count("sizes_compared");
    }
    free(s2);
    c2->cache_free(c2);
  }
  // one size replayed by hand
  uint64_t s = sizes[r.below(sizes.size())];
  cache_t *c = mk(*find_algo("LRU"), s);
  uint64_t m = 0;
  request_t q;
  for (size_t i = 0; i < ids.size(); i++) {
    Rq x{ids[i], 1, (int64_t)i, -1};
    to_req(&q, x, i);
    m += !c->get(c, &q);
  }
  if (m != miss[s]) R->viol("replay", "differs", "size %lu: a replay has %lu misses, the curve %lu %s", s, m, (unsigned long)miss[s], t.detail.c_str());
  c->cache_free(c);
  lru->cache_free(lru);
  count("curve_points", size + 1);
  if (miss[size] < miss[0] && uniq.size() > 2) count("nontrivial");
  free(ratio);
  free(miss);
  close_reader(rd);
  sample("%s curve to %ld", t.detail.c_str(), (long)size);
  unlink(t.path.c_str());
}

// ---------------------------------------------------------- data structures
struct Walk {
  std::map<uint64_t, int> seen;
  cache_obj_t *bad = nullptr;
  std::unordered_map<uint64_t, cache_obj_t *> *ref;
};
static void walk_cb(cache_obj_t *o, void *u) {
  Walk *w = (Walk *)u;
  w->seen[o->obj_id]++;
  auto it = w->ref->find(o->obj_id);
  if (it == w->ref->end() || it->second != o) w->bad = o;
}
static void ht_case(Rng &r) {
  int hp = r.range(1, 10);
  bool ext = r.chance(0.25);
  hashtable_t *h = create_hashtable(hp);
  h->external_obj = ext;
  std::unordered_map<uint64_t, cache_obj_t *> ref;
  vector<uint64_t> keys;
  int nkey = 1 + r.below(r.chance(0.5) ? 60 : 6000), idm = r.below(6);
  int nops = 200 + r.below(thorough() ? 40000 : 8000);
  double pins = 0.3 + 0.5 * r.unit();
  set_rand_seed(r.next());
  auto fail = [&](const char *k, const char *what, uint64_t id) { R->viol("hashtable", k, "%s, id %lu, %zu objects, power %d, external %d", what, id, ref.size(), (int)h->hashpower, (int)ext); };
  int grown = 0, hp0 = h->hashpower;
  for (int i = 0; i < nops; i++) {
    uint64_t id = spread_id(r.below(nkey), idm);
    request_t q;
    Rq x{id, (int64_t)(1 + r.below(1000)), i, -1};
    to_req(&q, x, i);
    auto it = ref.find(id);
    cache_obj_t *f = r.chance(0.5) ? hashtable_find(h, &q) : hashtable_find_obj_id(h, id);
    if (f != (it == ref.end() ? nullptr : it->second)) { fail("wrong-find", it == ref.end() ? "found an object that is not in the table" : f ? "found another object" : "an object is lost", id); return; }
    if (it == ref.end() && r.chance(pins)) {
      cache_obj_t *o;
      if (ext) {
        o = (cache_obj_t *)calloc(1, sizeof(cache_obj_t));
        o->obj_id = id;
        o->obj_size = x.size;
        if (hashtable_insert_obj(h, o) != o) { fail("wrong-insert", "insert_obj returned another object", id); return; }
      } else {
        o = hashtable_insert(h, &q);
        if (!o || o->obj_id != id || o->obj_size != x.size) { fail("wrong-insert", "the inserted object is not the request's", id); return; }
      }
      ref[id] = o;
    } else if (it != ref.end() && r.chance(0.6)) {
      cache_obj_t *o = it->second;
      int how = r.below(4);
      if (how == 0) hashtable_delete(h, o);
      else if (how == 1) { if (!hashtable_delete_obj_id(h, id)) { fail("delete", "delete by id failed", id); return; } }
      else if (how == 2) { if (!hashtable_try_delete(h, o)) { fail("delete", "try_delete failed", id); return; } }
      else if (hashtable_find_obj(h, o) != o) { fail("wrong-find", "find_obj found another object", id); return; }
      else hashtable_delete(h, o);
      ref.erase(it);
      if (ext) free(o);
      count("deletions");
    } else if (it == ref.end() && r.chance(0.3)) {
      if (hashtable_delete_obj_id(h, id)) { fail("delete", "deleted an object that is not in the table", id); return; }
      cache_obj_t ghost;
      memset(&ghost, 0, sizeof ghost);
      ghost.obj_id = id;
      if (hashtable_try_delete(h, &ghost)) { fail("delete", "try_delete deleted an object that is not in the table", id); return; }
    }
    if (h->n_obj != ref.size()) { fail("wrong-count", ("the table counts " + std::to_string(h->n_obj) + " objects").c_str(), id); return; }
    if (!ref.empty() && r.chance(0.02)) {
      cache_obj_t *o = hashtable_rand_obj(h);
      auto j = o ? ref.find(o->obj_id) : ref.end();
      if (j == ref.end() || j->second != o) { fail("rand", "the random object is not in the table", o ? o->obj_id : 0); return; }
    }
    if (r.chance(0.01) || i == nops - 1) {
      Walk w;
      w.ref = &ref;
      hashtable_foreach(h, walk_cb, &w);
      bool dup = false;
      for (auto &p : w.seen) dup |= p.second != 1;
      if (w.bad || dup || w.seen.size() != ref.size()) { fail("foreach", ("the walk sees " + std::to_string(w.seen.size()) + " objects" + (dup ? ", some twice" : "") + (w.bad ? ", a wrong one" : "")).c_str(), 0); return; }
      count("walks");
    }
    count("operations");
  }
  grown = h->hashpower - hp0;
  count("growths", grown);
  if (grown > 0 && ref.size() > 2) count("nontrivial");
  free_hashtable(h);
  if (ext) for (auto &p : ref) free(p.second);
  sample("hashtable: %d operations on %d keys, %d growths, external %d", nops, nkey, grown, ext);
}

static void pq_case(Rng &r) {
  pqueue_t *q = pqueue_init(1 + r.below(50));
  std::set<std::pair<double, pq_node_t *>> ref;  // by priority
  vector<pq_node_t *> in;
  std::map<pq_node_t *, size_t> pos;
  int nops = 200 + r.below(thorough() ? 20000 : 5000);
  int cls = r.below(4);
  auto pri = [&]() -> double {
    switch (cls) {
      case 0: return (double)r.below(10);
      case 1: return r.unit();
      case 2: return (double)(int64_t)(r.next() >> 20);
      default: return (r.chance(0.5) ? -1 : 1) * pow(10, r.range(-20, 20)) * r.unit();
    }
  };
  auto drop = [&](pq_node_t *n) {
    ref.erase({n->pri.pri, n});
    size_t p = pos[n];
    in[p] = in.back();
    pos[in[p]] = p;
    in.pop_back();
    pos.erase(n);
  };
  double grow = 0.35 + 0.4 * r.unit();
  for (int i = 0; i < nops; i++) {
    if (in.empty() || r.chance(grow)) {
      pq_node_t *n = (pq_node_t *)calloc(1, sizeof *n);
      n->pri.pri = pri();
      n->obj_id = i;
      if (pqueue_insert(q, n) != 0) { R->viol("pqueue", "insert", "insert failed"); return; }
      ref.insert({n->pri.pri, n});
      pos[n] = in.size();
      in.push_back(n);
    } else {
      int how = r.below(3);
      if (how == 0) {  // largest first
        pq_node_t *n = (pq_node_t *)pqueue_pop(q);
        if (!n || !pos.count(n) || n->pri.pri != ref.rbegin()->first) { R->viol("pqueue", "wrong-pop", "operation %d: popped priority %g instead of %g, %zu entries", i, n ? n->pri.pri : NAN, ref.rbegin()->first, ref.size()); return; }
        drop(n);
        free(n);
      } else if (how == 1) {
        pq_node_t *n = in[r.below(in.size())];
        pqueue_pri_t np = {pri()};
        ref.erase({n->pri.pri, n});
        pqueue_change_priority(q, np, n);
        if (n->pri.pri != np.pri) { R->viol("pqueue", "change", "the priority was not changed"); return; }
        ref.insert({n->pri.pri, n});
        count("priority_changes");
      } else {
        pq_node_t *n = in[r.below(in.size())];
        if (pqueue_remove(q, n) != 0) { R->viol("pqueue", "remove", "remove failed"); return; }
        drop(n);
        free(n);
        count("removals");
      }
    }
    pq_node_t *top = (pq_node_t *)pqueue_peek(q);
    if (pqueue_size(q) != ref.size()) { R->viol("pqueue", "wrong-size", "operation %d: size %zu instead of %zu", i, pqueue_size(q), ref.size()); return; }
    if (ref.empty() ? top != NULL : !top || !pos.count(top) || top->pri.pri != ref.rbegin()->first) { R->viol("pqueue", "wrong-peek", "operation %d: the top has priority %g instead of %g, %zu entries", i, top ? top->pri.pri : NAN, ref.empty() ? NAN : ref.rbegin()->first, ref.size()); return; }
    if (r.chance(0.02) && !pqueue_is_valid(q)) { R->viol("pqueue", "invalid", "operation %d: pqueue_is_valid says no", i); return; }
    count("operations");
  }
  if (in.size() > 1) count("nontrivial");
  sample("pqueue: %d operations, %zu entries left", nops, in.size());
  double last = INFINITY;  // largest first
  size_t n = 0;
  while (pq_node_t *x = (pq_node_t *)pqueue_pop(q)) {
    if (x->pri.pri > last) { R->viol("pqueue", "wrong-order", "draining: %g after %g", x->pri.pri, last); return; }
    last = x->pri.pri;
    free(x);
    n++;
  }
  if (n != in.size()) R->viol("pqueue", "lost", "draining gave %zu of %zu entries", n, in.size());
  pqueue_free(q);
}

static bool splay_ok(sTree *t, vector<long long> &out) {  // iterative in-order walk with subtree sizes
  struct F { sTree *t; int st; };
  vector<F> st;
  if (t) st.push_back({t, 0});
  while (!st.empty()) {
    F &f = st.back();
    if (f.st == 0) { f.st = 1; if (f.t->left) st.push_back({f.t->left, 0}); }
    else if (f.st == 1) { f.st = 2; out.push_back(f.t->key); if (f.t->right) st.push_back({f.t->right, 0}); }
    else {
      if (f.t->value != 1 + node_value(f.t->left) + node_value(f.t->right)) return false;
      st.pop_back();
    }
  }
  return true;
}
static void splay_case(Rng &r) {
  sTree *t = NULL;
  std::set<long long> ref;
  int nops = 100 + r.below(thorough() ? 6000 : 2500);
  long long range = r.chance(0.5) ? 50 : 1ll << r.range(4, 40);
  bool seq = r.chance(0.3);
  for (int i = 0; i < nops; i++) {
    long long k = seq && r.chance(0.7) ? i : (long long)r.below(range) - (r.chance(0.1) ? range / 2 : 0);
    int how = r.below(4);
    if (how <= 1) {
      t = insert(k, t);
      ref.insert(k);
      if (!t || t->key != k) { R->viol("splay", "insert", "after inserting %lld the root is another key", k); return; }
    } else if (how == 2 && !ref.empty()) {
      if (r.chance(0.7)) k = *std::next(ref.begin(), r.below(std::min<size_t>(ref.size(), 40)));
      t = splay_delete(k, t);
      ref.erase(k);
    } else if (!ref.empty()) {
      if (r.chance(0.7)) { auto it = ref.lower_bound(k); k = it == ref.end() ? *ref.rbegin() : *it; }
      t = splay(k, t);
      // the root is the key, or a neighbour of it if absent
      if (ref.count(k)) {
        if (t->key != k) { R->viol("splay", "splay", "splaying %lld brought %lld up", k, t->key); return; }
        size_t right = std::distance(ref.upper_bound(k), ref.end());
        if (node_value(t->right) != (long)right) { R->viol("splay", "rank", "%ld keys above %lld instead of %zu", (long)node_value(t->right), k, right); return; }
        count("ranks");
      }
    }
    if (node_value(t) != (long)ref.size()) { R->viol("splay", "size", "operation %d: %ld keys instead of %zu", i, (long)node_value(t), ref.size()); return; }
    if (i % 16 == 0 || i == nops - 1) {
      vector<long long> o;
      if (!splay_ok(t, o)) { R->viol("splay", "sizes", "operation %d: a subtree size is wrong", i); return; }
      if (!std::equal(o.begin(), o.end(), ref.begin(), ref.end())) { R->viol("splay", "order", "operation %d: the keys are not those inserted, in order", i); return; }
      count("walks");
    }
    count("operations");
  }
  if (ref.size() > 2) count("nontrivial");
  sample("splay: %d operations, %zu keys left", nops, ref.size());
  free_sTree(t);
}

static void bloom_case(Rng &r) {
  struct bloom b;
  memset(&b, 0, sizeof b);
  int n = 1000 + r.below(thorough() ? 60000 : 12000);
  double err = r.chance(0.3) ? 0.01 : pow(10, -0.7 - 3 * r.unit());
  if (bloom_init(&b, n, err) != 0) { R->viol("bloom", "init", "init of %d entries, error %g failed", n, err); return; }
  int idm = r.below(5);
  uint64_t base = r.below(1000000);
  int fp_add = 0;
  bool str = r.chance(0.3);
  auto key = [&](uint64_t i, char *s) {
    uint64_t id = spread_id(base + i, idm);
    if (str) return sprintf(s, "key:%lu", id);
    memcpy(s, &id, 8);
    return 8;
  };
  char s[64];
  for (int round = 0; round < 2; round++) {
    fp_add = 0;
    for (int i = 0; i < n; i++) {
      int l = key(i, s);
      bool before = bloom_check(&b, s, l) == 1;
      bool was = bloom_add(&b, s, l) == 1;
      if (before != was) { R->viol("bloom", "add", "check says %d, add says %d for a new key", before, was); return; }
      fp_add += was;
      if (bloom_check(&b, s, l) != 1) { R->viol("bloom", "false-negative", "a key just added is not found (%d of %d, error %g)", i, n, err); return; }
    }
    for (int i = 0; i < n; i++) {
      int l = key(i, s);
      if (bloom_check(&b, s, l) != 1) { R->viol("bloom", "false-negative", "key %d of %d is not found (error %g)", i, n, err); return; }
    }
    int m = 20000, fp = 0;
    for (int i = 0; i < m; i++) { int l = key(n + i, s); fp += bloom_check(&b, s, l) == 1; }
    double lim = err * m * 1.5 + 6 * sqrt(err * m) + 8;
    if (fp > lim) R->viol("bloom", "error-rate", "%d of %d absent keys are found, the filter is for %g (%d entries)", fp, m, err, n);
    if (fp_add > err * n * 1.5 + 6 * sqrt(err * n) + 8) R->viol("bloom", "error-rate", "%d of %d new keys were already there, the filter is for %g", fp_add, n, err);
    count("operations", 4 * n + m);
    count("false_positives", fp);
    bloom_reset(&b);
    int l = key(0, s);
    if (bloom_check(&b, s, l) != 0) { R->viol("bloom", "reset", "a key is found after reset"); return; }
  }
  count("nontrivial");
  sample("bloom: %d keys, error %g", n, err);
  bloom_free(&b);
}

static void cbf_case(Rng &r) {
  struct minimalIncrementCBF c;
  memset(&c, 0, sizeof c);
  int n = r.chance(0.2) ? 1 + r.below(20) : 100 + r.below(5000);
  double err = r.chance(0.3) ? 0.01 : pow(10, -1 - 3 * r.unit());
  if (minimalIncrementCBF_init(&c, n, err) != 0) { R->viol("cbf", "init", "init failed"); return; }
  std::unordered_map<uint64_t, unsigned> cnt;
  int nops = 2000 + r.below(20000), idm = r.below(5), decays = 0, exact = 0;
  double alpha = r.unit() * 2;
  for (int i = 0; i < nops; i++) {
    uint64_t id = spread_id((uint64_t)(n * pow(r.unit(), 1 + alpha)), idm);
    int before = minimalIncrementCBF_estimate(&c, &id, 8);
    if (before < (int)cnt[id]) { R->viol("cbf", "underestimate", "estimate %d of a key counted at least %u times, after %d halvings", before, cnt[id], decays); return; }
    if (r.chance(0.7)) {
      int a = minimalIncrementCBF_add(&c, &id, 8);
      cnt[id]++;
      if (a != before + 1) { R->viol("cbf", "add", "add returned %d, the estimate before was %d", a, before); return; }
      if (minimalIncrementCBF_estimate(&c, &id, 8) < before + 1) { R->viol("cbf", "underestimate", "the estimate is %d after an add to %d", minimalIncrementCBF_estimate(&c, &id, 8), before); return; }
    }
    if (r.chance(0.0005)) {
      minimalIncrementCBF_decay(&c);
      for (auto &p : cnt) p.second /= 2;
      decays++;
    }
  }
  uint64_t over = 0, seen = 0;
  for (auto &p : cnt) {
    int e = minimalIncrementCBF_estimate(&c, &p.first, 8);
    if (e < (int)p.second) { R->viol("cbf", "underestimate", "final estimate %d of a key counted %u times", e, p.second); return; }
    if (decays == 0) { seen++; over += e > (int)p.second; exact += e == (int)p.second; }
  }
  // with at most the configured number of keys, few estimates are too high
  if (decays == 0 && (int)seen <= n && n >= 100 && over > 1.5 * err * seen + 6 * sqrt(err * seen) + 8)
    R->viol("cbf", "error-rate", "%lu of %lu estimates are too high, the filter is for %g", over, seen, err);
  count("operations", nops);
  count("decays", decays);
  if (seen > 2 || decays) count("nontrivial");
  sample("cbf: %d operations, %d entries, error %g, %d halvings", nops, n, err, decays);
  minimalIncrementCBF_free(&c);
}

void register_cases(vector<Case> &cs) {
  auto add = [&](const string &s, int n, std::function<void(Rng &)> f) {
    for (int i = 0; i < n; i++) cs.push_back({s, O.seed * 1000003ull + i, f});
  };
  if (O.prop == "C15") {
    add("distances", ncase(1200, 16000), [](Rng &r) { dist_case(r, 0); });
    add("distances-long", ncase(8, 60), [](Rng &r) { dist_case(r, 30000); });
    // a scan long enough to make the tree as deep as the trace
    add("distances-deep", thorough() ? 8 : 1, [](Rng &r) { dist_case(r, thorough() ? 1500000 : 400000); });
  } else if (O.prop == "C16") {
    add("curve", ncase(1200, 16000), [](Rng &r) { curve_case(r, 0); });
    add("curve-long", ncase(8, 80), [](Rng &r) { curve_case(r, 30000); });
  } else if (O.prop == "C17") {
    add("hashtable", ncase(1000, 12000), ht_case);
    add("pqueue", ncase(1000, 12000), pq_case);
    add("splay", ncase(1000, 12000), splay_case);
    add("bloom", ncase(120, 1500), bloom_case);
    add("cbf", ncase(240, 4000), cbf_case);
  }
}
