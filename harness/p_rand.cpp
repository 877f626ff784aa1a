// Sampling-based eviction (C24): the distribution of the victims of the real
// caches over many seeds, placements and contents.
#include "common.hpp"
#include "cachepick.hpp"
#define V(subj, kind, ...) R->viol((subj), kind, __VA_ARGS__)

static bool get(cache_t *c, uint64_t id, int64_t size, int64_t t) {
  request_t q;
  to_req(&q, Rq{id, size, t, -1}, t + 1);
  return c->get(c, &q);
}
static void evict(cache_t *c, int64_t t) {
  request_t q;
  to_req(&q, Rq{~0ull, 1, t, -1}, t + 1);
  c->evict(c, &q);
}
struct Conf {
  const char *name;   // as reported
  const char *algo;
  string par;
  int samples;        // victims are the worst of this many sampled objects
  int score;          // 0 none (uniform), 1 last access, 2 hyperbolic priority
};
static vector<Conf> confs() {
  return {{"Random", "Random", "", 1, 0}, {"RandomTwo", "RandomTwo", "", 2, 1}, {"RandomLRU", "RandomLRU", "", 16, 1},
          {"RandomLRU-2", "RandomLRU", "n-samples=2", 2, 1}, {"RandomLRU-5", "RandomLRU", "n-sample=5", 5, 1},
          {"Hyperbolic", "Hyperbolic", "", 64, 2}, {"Hyperbolic-1", "Hyperbolic", "n-sample=1", 1, 2}, {"Hyperbolic-4", "Hyperbolic", "n-sample=4", 4, 2}};
}

// cumulative distribution of the rank of the worst of s objects out of n
static double cdf_without(int n, int s, int k) {  // P(rank <= k), rank 0 = worst, s distinct samples
  double p = 1;
  for (int i = 0; i < s; i++) p *= std::max(0.0, (double)(n - k - 1 - i) / (n - i));
  return 1 - p;
}
static double cdf_with(int n, int s, int k) { return 1 - pow((double)(n - k - 1) / n, s); }

// contents drawn anew for every trial: the rank of the victim among the cached objects
static void rank_case(const Conf &f, Rng &r) {
  const Algo &a = *find_algo(f.algo);
  static const int ns[] = {2, 3, 8, 20, 60, 100};
  int n = ns[r.below(6)], s = f.samples;
  if (s > 8) n = s == 16 ? 40 + r.below(60) : 150 + r.below(100);
  int style = r.below(4), sizes = r.below(3), trials = n > 50 ? 2500 : 5000;
  bool by_get = r.chance(0.5), narrow = r.chance(0.2);
  int inserts = 0;
  vector<int64_t> hist(n);
  double chain = 0;
  for (int t = 0; t < trials; t++) {
    set_rand_seed(r.next());
    cache_t *c = mk(a, 1ull << 30, f.par, false, narrow ? 20 : 10 + r.below(12));
    vector<uint64_t> ids;
    vector<double> enter(n), last(n), freq(n);
    int64_t now = 0;
    int64_t big = 0;
    for (int i = 0; i < n; i++) {
      ids.push_back(r.next() >> r.below(40));
      if (std::count(ids.begin(), ids.end(), ids[i]) > 1) { ids.pop_back(); i--; continue; }
      int64_t sz = sizes == 0 ? 1 : sizes == 1 ? 1 + r.below(1000) : 1 + (1ll << r.below(20));
      big += sz;
      get(c, ids[i], sz, now++);
      enter[i] = last[i] = now;
      freq[i] = 1;
      inserts++;
      if (style == 1 && r.chance(0.4)) {  // hits in between
        int k = r.below(i + 1);
        get(c, ids[k], 1, now++);
        last[k] = now;
        freq[k]++;
      }
    }
    if (style >= 2) {
      int m = style == 2 ? n : 3 * n;
      for (int i = 0; i < m; i++) {
        int k = style == 3 ? std::min(r.below(n), r.below(n)) : r.below(n);
        get(c, ids[k], 1, now++);
        last[k] = now;
        freq[k]++;
      }
    }
    now++;
    get(c, ids[n - 1], 1, now - 1);  // so that no priority is infinite
    last[n - 1] = now;
    freq[n - 1]++;
    int before = c->get_n_obj(c);
    if (before != n) { V(f.name, "content", "%d objects were inserted, %d are cached", n, before); return; }
    if (by_get) {  // through a miss that needs room
      cache_t *d = c;
      request_t q;
      uint64_t nid = 0x7fffffffffull + t;
      int64_t occ = d->get_occupied_byte(d);
      d->cache_size = occ;
      to_req(&q, Rq{nid, 1, now, -1}, now + 1);
      d->get(d, &q);
      now++;
    } else
      evict(c, now);
    vector<int> gone;
    for (int i = 0; i < n; i++)
      if (!resident(c, ids[i])) gone.push_back(i);
    if (gone.size() != 1) { V(f.name, "victims", "%zu objects left on one eviction", gone.size()); return; }
    int v = gone[0];
    auto score = [&](int i) { return f.score == 0 ? (double)i : f.score == 1 ? last[i] : freq[i] / (now - enter[i]); };
    double sv = score(v);
    int lower = 0, same = 0;
    for (int i = 0; i < n; i++) {
      double x = score(i);
      if (i != v && fabs(x - sv) <= 1e-12 * fabs(sv)) same++;
      else if (x < sv) lower++;
    }
    hist[lower + r.below(same + 1)]++;
    c->cache_free(c);
    count("victims");
  }
  chain = 0.5 * n / 4096 * n;  // expected objects behind another one in the table
  double tol = 0.012 + 1.5 * chain / n * (s > 1 ? 1 + s * 0.3 : 1);
  int64_t acc = 0;
  for (int k = 0; k < n; k++) {
    acc += hist[k];
    double got = (double)acc / trials, lo = std::min(cdf_with(n, s, k), cdf_without(n, std::min(s, n), k)), hi = std::max(cdf_with(n, s, k), cdf_without(n, std::min(s, n), k));
    double sd = sqrt(std::max(hi * (1 - hi), lo * (1 - lo)) / trials) + 1e-3;
    if (got < lo - 5 * sd - tol || got > hi + 5 * sd + tol) {
      V(f.name, "rank", "of %d trials with %d objects, the victim was among the %d %s in %.4f, expected %.4f to %.4f (%d samples) [style %d, %s]", trials, n, k + 1, f.score == 0 ? "first inserted" : f.score == 1 ? "least recently used" : "lowest priority", got,
        lo, hi, s, style, by_get ? "on a miss" : "evict");
      return;
    }
  }
  count("nontrivial");
  count("trials", trials);
  sample("%s: %d objects, %d trials, style %d: victim is the worst in %.3f", f.name, n, trials, style, (double)hist[0] / trials);
}

// one content, many seeds: every object can be chosen; and how often
static void fixed_case(const Conf &f, Rng &r) {
  const Algo &a = *find_algo(f.algo);
  int n = 2 + r.below(9), bad = 0, skew = 0;
  string why, why2;
  for (int place = 0; place < 3; place++) {
    set_rand_seed(r.next());
    cache_t *c = mk(a, 1ull << 30, f.par);
    vector<uint64_t> ids;
    for (int i = 0; i < n; i++) ids.push_back(r.next());
    int64_t now = 0;
    for (auto x : ids) get(c, x, 1, now++);
    vector<int64_t> hist(n);
    int T = 12000;
    for (int t = 0; t < T; t++) {
      if (f.score == 1) get(c, ids[r.below(n)], 1, now++);
      set_rand_seed(r.next());
      evict(c, now);
      int v = -1, m = 0;
      for (int i = 0; i < n; i++)
        if (!resident(c, ids[i])) v = i, m++;
      if (m != 1) { V(f.name, "victims", "%d objects left on one eviction", m); return; }
      hist[v]++;
      get(c, ids[v], 1, now++);
    }
    count("victims", T);
    for (int i = 0; i < n; i++)
      if (!hist[i]) {
        bad++;
        why = "object " + std::to_string(ids[i]) + " of " + std::to_string(n) + " was never chosen in " + std::to_string(T) + " evictions with random seeds";
        break;
      }
    for (int i = 0; i < n; i++)
      if (f.samples == 1 && fabs((double)hist[i] / T - 1.0 / n) > 0.05 + 6 * sqrt(1.0 / n / T)) {
        skew++;
        char b[200];
        snprintf(b, sizeof b, "object %d of %d was chosen in %.4f of %d evictions with random seeds from the same content", i, n, (double)hist[i] / T, T);
        why2 = b;
        break;
      }
    c->cache_free(c);
  }
  // two objects in one chain of the table: one placement in a hundred or so
  if (bad >= 3) V(f.name, "never-chosen", "%s (in each of 3 placements)", why.c_str());
  if (skew >= 2) V(f.name, "fixed-content-share", "%s (in %d of 3 placements)", why2.c_str(), skew);
  count("nontrivial");
}

// many objects per slot of the hash table: what can be chosen at all
static void load_case(const Conf &f, Rng &r) {
  const Algo &a = *find_algo(f.algo);
  static const int ns[] = {3000, 4000, 6000, 8200, 9000, 12000, 20000, 33000};
  int n = ns[r.below(8)] + r.below(500);
  set_rand_seed(r.next());
  cache_t *c = mk(a, 1ull << 30, f.par);
  vector<uint64_t> ids;
  bool dense = r.chance(0.3);
  uint64_t base = r.next() >> 20;
  int64_t now = 0;
  for (int i = 0; i < n; i++) {
    ids.push_back(dense ? base + i : r.next());
    get(c, ids[i], 1, now++);
  }
  // the victims of 30 n evictions, each put back at once
  std::unordered_map<uint64_t, int> idx;
  for (int i = 0; i < n; i++) idx[ids[i]] = i;
  vector<int> hist(n);
  int T = 12 * n, distinct = 0;
  // the victim is known from the last object that is asked for: ask the cache after a batch of evictions
  for (int t = 0; t < T;) {
    int b = std::max(1, n / 100);
    for (int i = 0; i < b; i++, t++) evict(c, now);
    for (int i = 0; i < n; i++)
      if (!resident(c, ids[i])) {
        if (!hist[i]++) distinct++;
        get(c, ids[i], 1, now++);
      }
  }
  count("victims", T);
  int hp = 12;
  while (n > (1 << hp)) hp++;
  double load = (double)n / (1 << hp), heads = (1 - exp(-load)) / load;  // share of objects that are first in their chain
  double got = (double)distinct / n;
  // with 12 draws for each slot or object, hardly one is left out
  if (got < 0.93 * heads) V(f.name, "few-chosen", "only %d of %d objects were ever evicted in %d evictions (%.3f, the slots of the hash table allow %.3f)", distinct, n, T, got, heads);
  else if (got < 0.97) V(f.name, "chained-never-chosen", "only %d of %d objects were ever evicted in %d evictions with every victim put back at once", distinct, n, T);
  count("nontrivial");
  count("trials");
  c->cache_free(c);
}

// unused objects leave while others come: nothing stays for ever
static void churn_case(const string &name, const string &par, Rng &r) {
  const Algo &a = *find_algo(name);
  static const int ns[] = {10, 50, 300, 1000, 5000, 9000};
  int n = ns[r.below(6)] + r.below(10);
  set_rand_seed(r.next());
  cache_t *c = mk(a, n, par);
  int64_t now = 0;
  vector<uint64_t> old;
  for (int i = 0; i < n; i++) {
    old.push_back(r.next());
    get(c, old[i], 1, now++);
  }
  vector<uint64_t> hot;
  int nh = r.below(n / 4 + 1);
  for (int i = 0; i < nh; i++) hot.push_back(old[i]);
  int64_t left = 0, rounds = 0;
  for (rounds = 1; rounds <= 60; rounds++) {
    for (int i = 0; i < n; i++) {
      get(c, r.next(), 1, now++);
      if (nh && r.chance(0.3)) get(c, hot[r.below(nh)], 1, now++);
    }
    left = 0;
    for (int i = nh; i < n; i++) left += resident(c, old[i]);
    if (!left) break;
  }
  count("trials");
  count("churn_rounds", rounds);
  // objects that stand behind another one in a slot of the hash table stay (known finding); the others leave
  if (left > n / 8) V(name, "never-evicted", "%ld of %d objects that were used once are still cached after %ld other objects went through a cache of %d", (long)left, n - nh, (long)(60 * n), n);
  else if (left > n / 200) V(name, "chained-stays", "%ld of %d objects that were used once are still cached after %ld other objects went through a cache of %d", (long)left, n - nh, (long)(60 * n), n);
  count("nontrivial");
  sample("%s: cache of %d, the unused objects were gone after %ld times as many others", name.c_str(), n, (long)rounds);
  c->cache_free(c);
}

void register_cases(vector<Case> &cs) {
  auto add = [&](const string &s, int n, std::function<void(Rng &)> f) {
    for (int i = 0; i < n; i++) cs.push_back({s, O.seed * 1000003ull + i, f});
  };
  for (auto &f : confs()) {
    add(f.name, ncase(12, 300), [f](Rng &r) { rank_case(f, r); });
    add(string(f.name) + "-content", ncase(f.samples == 1 ? 5 : 2, 40), [f](Rng &r) { fixed_case(f, r); });
  }
  for (auto &f : confs())
    if (f.samples == 1 || f.samples == 2) add(string(f.name) + "-load", ncase(3, 40), [f](Rng &r) { load_case(f, r); });
  static const char *ch[] = {"Random", "RandomTwo", "RandomLRU", "Hyperbolic", "LHD"};
  for (const char *n : ch) add(string(n) + "-churn", ncase(8, 60), [n](Rng &r) { churn_case(n, "", r); });
}
