// Optimality of Belady (C09)
#include "common.hpp"
#include "cachepick.hpp"
#define V(a, kind, ...) R->viol((a), kind, __VA_ARGS__)
static const int64_t NEVER = INT64_MAX;

// next use of every request, recomputed from the sequence itself
static vector<int64_t> next_use(const vector<Rq> &v) {
  vector<int64_t> n(v.size(), NEVER);
  std::unordered_map<uint64_t, int64_t> at;
  for (size_t i = v.size(); i-- > 0;) {
    auto it = at.find(v[i].id);
    if (it != at.end()) n[i] = it->second;
    at[v[i].id] = i;
  }
  return n;
}
// optimal offline replacement with `slots` objects; bypass: a missed object need not be stored
static int64_t opt_hits(const vector<Rq> &v, const vector<int64_t> &nx, int64_t slots, bool bypass) {
  std::set<std::pair<int64_t, uint64_t>> q;  // (next use, id)
  std::unordered_map<uint64_t, int64_t> in;
  int64_t hits = 0;
  for (size_t i = 0; i < v.size(); i++) {
    auto it = in.find(v[i].id);
    if (it != in.end()) {
      hits++;
      q.erase({it->second, v[i].id});
      it->second = nx[i];
      q.insert({nx[i], v[i].id});
      continue;
    }
    if (slots <= 0) continue;
    if ((int64_t)in.size() >= slots) {
      auto f = *q.rbegin();
      if (bypass && f.first <= nx[i]) continue;
      q.erase(std::prev(q.end()));
      in.erase(f.second);
    }
    in[v[i].id] = nx[i];
    q.insert({nx[i], v[i].id});
  }
  return hits;
}
// maximum hits over all policies, by trying everything (tiny inputs): the greedy references themselves are checked with it
static int64_t brute(const vector<Rq> &v, size_t i, std::set<uint64_t> c, size_t slots, bool bypass, std::map<std::pair<size_t, std::set<uint64_t>>, int64_t> &memo) {
  if (i == v.size()) return 0;
  auto key = std::make_pair(i, c);
  auto it = memo.find(key);
  if (it != memo.end()) return it->second;
  int64_t best;
  if (c.count(v[i].id)) best = 1 + brute(v, i + 1, c, slots, bypass, memo);
  else {
    best = bypass ? brute(v, i + 1, c, slots, bypass, memo) : 0;
    if (c.size() < slots) {
      auto d = c;
      d.insert(v[i].id);
      best = std::max(best, brute(v, i + 1, d, slots, bypass, memo));
    } else
      for (uint64_t x : c) {
        auto d = c;
        d.erase(x);
        d.insert(v[i].id);
        best = std::max(best, brute(v, i + 1, d, slots, bypass, memo));
      }
  }
  return memo[key] = best;
}
static void check_reference(Rng &r) {
  vector<Rq> v;
  int n = 3 + r.below(9), k = 2 + r.below(4);
  for (int i = 0; i < n; i++) v.push_back({1 + r.below(k), 1, i, -1});
  auto nx = next_use(v);
  for (int s = 1; s <= 3; s++)
    for (int b = 0; b < 2; b++) {
      std::map<std::pair<size_t, std::set<uint64_t>>, int64_t> memo;
      if (brute(v, 0, {}, s, b, memo) != opt_hits(v, nx, s, b)) { fprintf(stderr, "the optimal reference is wrong\n"); exit(3); }
    }
  count("reference_checked", 6);
}

static Workload uniform(Rng &r, int maxreq) {
  WlOpt o;
  o.n_req = 20 + r.below(r.chance(0.4) ? 80 : maxreq);
  o.n_obj = 2 + r.below(r.chance(0.4) ? 10 : 300);
  o.size_mode = r.chance(0.5) ? SZ_UNIT : SZ_CONST;
  return gen_workload(r, o);
}
static int64_t base = 0;  // where in a longer trace the requests are
static request_t mkreq(const Rq &q, int64_t nx, size_t i) {
  request_t x;
  Rq y = q;
  y.next = nx == NEVER ? -1 : nx + 1 + base;
  to_req(&x, y, (int64_t)i + 1);
  return x;
}

// Belady against the optimum and, step by step, against its definition
static void belady_case(Rng &r) {
  check_reference(r);
  base = r.chance(0.6) ? 0 : r.chance(0.5) ? (1ll << 31) - (int64_t)r.below(3000) : (int64_t)r.below(1ll << 40);
  Workload w = uniform(r, 3000);
  auto &v = w.reqs;
  auto nx = next_use(v);
  int64_t sz = v[0].size, slots = 1 + r.below(r.chance(0.4) ? 6 : w.universe.size() + 2);
  int64_t size = slots * sz + (r.chance(0.5) ? r.below(sz) : 0);
  cache_t *c = mk(*find_algo("Belady"), size, "", false, 2 + r.below(10));
  int64_t hits = 0, want = opt_hits(v, nx, slots, false), rem = 0;
  bool removing = r.chance(0.3), lookups = r.chance(0.3);
  std::unordered_map<uint64_t, int64_t> nextof;  // of the resident objects
  for (size_t i = 0; i < v.size(); i++) {
    if (removing && !nextof.empty() && r.chance(0.03)) {
      auto it = std::next(nextof.begin(), r.below(std::min<size_t>(nextof.size(), 8)));
      if (!c->remove(c, it->first)) { V("Belady", "remove", "request %zu: cannot remove a resident object", i); return; }
      nextof.erase(it);
      rem++;
    }
    if (lookups && r.chance(0.2)) resident(c, v[r.below(v.size())].id);
    request_t q = mkreq(v[i], nx[i], i);
    int64_t far = -1;
    for (auto &p : nextof) far = std::max(far, p.second);
    bool was = nextof.count(v[i].id), full = (int64_t)nextof.size() == slots;
    if (!nextof.empty() && r.chance(full && !was ? 0.3 : 0.1)) {
      cache_obj_t *o = c->to_evict(c, &q);
      if (!o || !nextof.count(o->obj_id) || nextof[o->obj_id] != far) { V("Belady", "candidate", "request %zu: the candidate is not the object used furthest in the future [slots %ld, %s]", i, (long)slots, w.kind.c_str()); return; }
      count("candidates");
    }
    bool hit = c->get(c, &q);
    hits += hit;
    if (hit != was) { V("Belady", "wrong-hit", "request %zu of %zu is a %s [slots %ld, %s]", i, v.size(), hit ? "hit" : "miss", (long)slots, w.kind.c_str()); return; }
    if (!was && full) {
      vector<uint64_t> gone;
      for (auto &p : nextof) if (!resident(c, p.first)) gone.push_back(p.first);
      if (gone.size() != 1 || nextof[gone[0]] != far) {
        V("Belady", "wrong-victim", "request %zu: %zu objects left the cache, the first is used next at %ld, the furthest at %ld [slots %ld, %s]", i, gone.size(), gone.empty() ? -1 : (long)nextof[gone[0]], (long)far, (long)slots, w.kind.c_str());
        return;
      }
      nextof.erase(gone[0]);
      count("victims_checked");
    }
    nextof[v[i].id] = nx[i];
    if (c->get_n_obj(c) != (int64_t)nextof.size()) { V("Belady", "wrong-count", "request %zu: %ld objects instead of %zu [slots %ld, %s]", i, (long)c->get_n_obj(c), nextof.size(), (long)slots, w.kind.c_str()); return; }
  }
  if (!rem && hits != want) V("Belady", "not-optimal", "%ld hits, the optimum is %ld of %zu requests [slots %ld, size %ld, %s]", (long)hits, (long)want, v.size(), (long)slots, (long)sz, w.kind.c_str());
  count("requests", v.size());
  count("hits", hits);
  if (hits && slots < (int64_t)w.universe.size()) count("nontrivial");
  sample("Belady, %zu requests, %zu objects, %ld slots of size %ld, %s: %ld hits", v.size(), w.universe.size(), (long)slots, (long)sz, w.kind.c_str(), (long)hits);
  c->cache_free(c);
}
// objects of different sizes: furthest first until there is room
static void belady_sizes(Rng &r) {
  base = r.chance(0.6) ? 0 : (int64_t)r.below(1ll << 40);
  WlOpt o;
  o.n_req = 50 + r.below(1500);
  o.n_obj = 3 + r.below(120);
  o.size_mode = r.chance(0.5) ? SZ_SMALLVAR : SZ_MIXED;
  Workload w = gen_workload(r, o);
  auto &v = w.reqs;
  auto nx = next_use(v);
  int64_t size = pick_size(r, w);
  cache_t *c = mk(*find_algo("Belady"), size, "", false);
  std::map<uint64_t, std::pair<int64_t, int64_t>> in;  // id -> next, size
  int64_t bytes = 0, hits = 0, ev = 0;
  for (size_t i = 0; i < v.size(); i++) {
    request_t q = mkreq(v[i], nx[i], i);
    bool was = in.count(v[i].id);
    bool hit = c->get(c, &q);
    hits += hit;
    if (hit != was) { V("Belady-sizes", "wrong-hit", "request %zu of %zu is a %s [cache %ld, %s]", i, v.size(), hit ? "hit" : "miss", (long)size, w.kind.c_str()); return; }
    if (was) { in[v[i].id].first = nx[i]; continue; }
    if (v[i].size > size) {
      if (resident(c, v[i].id)) { V("Belady-sizes", "too-big", "an object larger than the cache was stored"); return; }
      continue;
    }
    // what left must be the furthest ones, and no more than needed; among objects never used again any may go
    vector<std::pair<int64_t, int64_t>> gone;
    int64_t keep = -1, gb = 0, smallest = INT64_MAX, gnever = 0;
    for (auto it = in.begin(); it != in.end();) {
      if (!resident(c, it->first)) {
        gone.push_back(it->second);
        gb += it->second.second;
        it = in.erase(it);
      } else { keep = std::max(keep, it->second.first); ++it; }
    }
    for (auto &g : gone)
      if (g.first < keep) { V("Belady-sizes", "wrong-victim", "request %zu: an object used at %ld left, one used at %ld stayed [cache %ld, %s]", i, (long)g.first, (long)keep, (long)size, w.kind.c_str()); return; }
    int64_t nearest = INT64_MAX;
    for (auto &g : gone) nearest = std::min(nearest, g.first);
    bool need = true;  // the last to leave was needed
    if (!gone.empty()) {
      int64_t mx = 0;
      for (auto &g : gone) if (g.first == nearest) mx = std::max(mx, g.second);
      need = bytes - gb + mx + v[i].size > size;
    }
    if (!need) { V("Belady-sizes", "too-many", "request %zu: more objects left than needed [cache %ld, %s]", i, (long)size, w.kind.c_str()); return; }
    ev += gone.size();
    bytes += v[i].size - gb;
    in[v[i].id] = {nx[i], v[i].size};
    if (c->get_occupied_byte(c) != bytes) { V("Belady-sizes", "wrong-bytes", "request %zu: %ld bytes instead of %ld", i, (long)c->get_occupied_byte(c), (long)bytes); return; }
  }
  count("requests", v.size());
  count("victims_checked", ev);
  if (hits && ev) count("nontrivial");
  c->cache_free(c);
}

// no algorithm has more hits than the optimum
static void bound_case(const Algo &a, Rng &r) {
  base = r.chance(0.8) ? 0 : (int64_t)r.below(1ll << 33);
  Workload w = uniform(r, 1500);
  auto &v = w.reqs;
  auto nx = next_use(v);
  int64_t sz = v[0].size, slots = 1 + r.below(r.chance(0.4) ? 10 : w.universe.size() + 2);
  int64_t size = slots * sz + (r.chance(0.5) ? r.below(sz) : 0);
  string p = pick_param(a, r);
  cache_t *c = mk(a, size, p, false);
  cache_t *b = mk(*find_algo("Belady"), size, "", false);
  int64_t hits = 0, bel = 0, missed_out = 0;
  set_rand_seed(r.next());
  for (size_t i = 0; i < v.size(); i++) {
    request_t q = mkreq(v[i], nx[i], i), q2 = q;
    bool h = c->get(c, &q);
    hits += h;
    bel += b->get(b, &q2);
    if (!h && !resident(c, v[i].id)) missed_out++;
  }
  int64_t lim = opt_hits(v, nx, slots, true);
  if (hits > lim) V(a.name, "beats-optimum", "%ld hits, no policy can have more than %ld of %zu [slots %ld, params '%s', %s]", (long)hits, (long)lim, v.size(), (long)slots, p.c_str(), w.kind.c_str());
  else if (missed_out == 0 && hits > bel) V(a.name, "beats-belady", "%ld hits, Belady %ld of %zu [slots %ld, params '%s', %s]", (long)hits, (long)bel, v.size(), (long)slots, p.c_str(), w.kind.c_str());
  count("requests", v.size());
  count("hits", hits);
  if (missed_out == 0) count("compared_with_belady");
  if (hits && slots < (int64_t)w.universe.size()) count("nontrivial");
  sample("%s %s, %zu requests, %ld slots, %s: %ld hits, Belady %ld, optimum %ld", a.name, p.c_str(), v.size(), (long)slots, w.kind.c_str(), (long)hits, (long)bel, (long)lim);
  c->cache_free(c);
  b->cache_free(b);
}

void register_cases(vector<Case> &cs) {
  auto add = [&](const string &s, int n, std::function<void(Rng &)> f) {
    for (int i = 0; i < n; i++) cs.push_back({s, O.seed * 1000003ull + i, f});
  };
  add("Belady", ncase(1200, 12000), belady_case);
  add("Belady-sizes", ncase(160, 2500), belady_sizes);
  for (auto &a : all_algos()) {
    const Algo *p = &a;
    add(a.name, ncase(60,500), [p](Rng &r) { bound_case(*p, r); });
  }
}
