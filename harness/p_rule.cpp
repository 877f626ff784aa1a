// C26: adaptive, sampling and batch algorithms evict only what their rule
// names. The eviction function of the real cache is hooked; what left the
// cache is compared with the candidates of a model, which then follows the
// choice that the cache made (where the rule leaves one).
#include "cachepick.hpp"
#include "models.hpp"
extern "C" {
#include "dataStructure/minimalIncrementCBF.h"
int minimalIncrementCBF_decay(struct minimalIncrementCBF *CBF);
#include "dataStructure/hash/hash.h"
}
static uint64_t mon_hash(uint64_t id) { return get_hash_value_int_64(&id); }

typedef vector<uint64_t> Ids;
struct Rule {
  const char *name = "";
  cache_t *c = nullptr;
  void (*real_evict)(cache_t *, const request_t *) = nullptr;
  int64_t cap = 0, md = 0, nreq = 0;
  std::unordered_map<uint64_t, int64_t> size;  // resident -> bytes
  int64_t bytes = 0, nev = 0, nbatch = 0, ndecided = 0;
  bool bad = false, stop = false;  // stop: the model cannot follow any further
  string cs;
  const request_t *cur = nullptr;
  int64_t need = 0;  // bytes of the object to insert, 0 for a direct eviction
  virtual ~Rule() {}
  virtual void hit(const Rq &) = 0;
  virtual void miss(const Rq &) {}
  virtual void insert(const Rq &) = 0;
  virtual void gone(uint64_t id) = 0;   // removed by the user
  virtual void before() {}              // just before an eviction
  virtual void evicted(const Ids &v) = 0;
  virtual void finish() {}
  void fail(const char *kind, const char *fmt, ...) __attribute__((format(printf, 3, 4))) {
    char b[600];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    R->viol(name, kind, "%s %s", b, cs.c_str());
    bad = true;
  }
};
static Rule *G;
static void evict_hook(cache_t *c, const request_t *q) {
  Rule *m = G;
  if (!m || m->bad || m->stop) { m->real_evict(c, q); return; }
  if (m->need && m->bytes + m->need <= m->cap) m->fail("needless-eviction", "request %ld: an eviction although %ld of %ld bytes are in use and %ld needed", m->nreq, m->bytes, m->cap, m->need);
  int64_t n = c->get_n_obj(c);
  m->before();
  m->real_evict(c, q);
  m->nev++;
  if (m->bad || m->stop) return;
  Ids v;
  for (auto &p : m->size)
    if (!resident(c, p.first)) v.push_back(p.first);
  std::sort(v.begin(), v.end());
  if ((int64_t)v.size() != n - c->get_n_obj(c)) { m->fail("lost", "request %ld: %ld objects fewer, but %zu left", m->nreq, n - c->get_n_obj(c), v.size()); return; }
  if (v.empty()) { m->fail("no-victim", "request %ld: nothing left the cache", m->nreq); return; }
  m->evicted(v);
  for (auto id : v) {
    m->bytes -= m->size[id];
    m->size.erase(id);
  }
}

// ------------------------------------------------------------------ LeCaR
struct RLecar : Rule {
  struct O { int64_t f; uint64_t tf, ta; };  // frequency, time it reached it, last access
  std::unordered_map<uint64_t, O> o;
  struct Gh { uint64_t id; int64_t sz, t; };
  std::list<Gh> g[2];  // evicted by LRU / by LFU, newest first
  int64_t gb[2] = {0, 0};
  double w = 0.5, lr = 0.45, dr = 0;
  bool upd = true;
  uint64_t clk = 0, c_lru = 0, c_lfu = 0;
  double ep = 0, vp = 0;
  int64_t nl = 0, nghit = 0;
  void hit(const Rq &q) override {
    O &x = o[q.id];
    x.f++;
    x.tf = x.ta = clk++;
  }
  void miss(const Rq &q) override {
    for (int e = 0; e < 2; e++)
      for (auto i = g[e].begin(); i != g[e].end(); ++i)
        if (i->id == q.id) {
          if (upd) {
            double a = e == 0 ? w : 1 - w, b = 1 - a;
            a = a * exp(-lr * pow(dr, (double)(nreq - i->t)));
            a = a / (a + b);
            w = e == 0 ? a : 1 - a;
          }
          nghit++;
          gb[e] -= i->sz;
          g[e].erase(i);
          return;
        }
  }
  void insert(const Rq &q) override { o[q.id] = {1, clk, clk}; clk++; }
  void gone(uint64_t id) override { o.erase(id); }
  void history_removed(uint64_t id) {
    for (int e = 0; e < 2; e++)
      for (auto i = g[e].begin(); i != g[e].end(); ++i)
        if (i->id == id) { gb[e] -= i->sz; g[e].erase(i); return; }
  }
  void before() override {
    bool first = true;
    O bl{}, bf{};
    for (auto &p : o) {
      if (first || p.second.ta < bl.ta) { c_lru = p.first; bl = p.second; }
      if (first || p.second.f < bf.f || (p.second.f == bf.f && p.second.tf < bf.tf)) { c_lfu = p.first; bf = p.second; }
      first = false;
    }
  }
  void evicted(const Ids &v) override {
    if (v.size() != 1) { fail("wrong-victim", "request %ld: %zu objects left in one eviction", nreq, v.size()); return; }
    uint64_t id = v[0];
    int64_t sz = size[id];
    if (id != c_lru && id != c_lfu) {
      fail("wrong-victim", "request %ld: object %lu (frequency %ld) left; the least recently used is %lu, the least frequently used %lu (frequency %ld)", nreq, id, o[id].f, c_lru, c_lfu, o[c_lfu].f);
      return;
    }
    if (c_lru != c_lfu) {
      int k = 0;
      for (int i = 0; i < 100; i++) k += i / 100.0 < w;
      double near = 0;  // the draw has steps of 1 %: the model's weight may be off by rounding
      if (fabs(w * 100 - nearbyint(w * 100)) < 1e-4) near = 0.01;
      int e = id == c_lru ? 0 : 1;
      if (near == 0 && ((k == 0 && e == 0) || (k == 100 && e == 1)))
        fail("wrong-expert", "request %ld: the victim of %s was taken although the weight of LRU is %.6f", nreq, e ? "LFU" : "LRU", w);
      ep += k / 100.0;
      vp += k / 100.0 * (1 - k / 100.0) + near;
      nl += e == 0;
      ndecided++;
      g[e].push_front({id, sz, nreq});
      gb[e] += sz;
      while (gb[e] > cap / 2) {
        gb[e] -= g[e].back().sz;
        g[e].pop_back();
      }
    }
    o.erase(id);
  }
  void finish() override {
    count("lecar_choices", ndecided);
    count("lecar_history_hits", nghit);
    if (bad || stop || ndecided < 200) return;
    double z = (nl - ep) / sqrt(vp + 1);
    count("lecar_shares");
    if (fabs(z) > 6.5) fail("wrong-share", "%ld of %ld choices went to LRU, expected %.1f by its weights (now %.4f): %.1f standard deviations", nl, ndecided, ep, w, z);
  }
};

// -------------------------------------- value of an object as an interval
struct Val {
  enum { REC, FREQ, BEL } pol = FREQ;
  struct O { int64_t f, last, next, sz; };
  std::unordered_map<uint64_t, O> o;
  // smaller leaves first; products instead of quotients for exactness
  struct I { double lo, hi; int64_t key = 0; };
  I of(uint64_t id, int64_t now) const {
    const O &x = o.at(id);
    switch (pol) {
      case REC: return {0, 0, -(now - x.last) * x.sz};
      case BEL: return {0, 0, x.next < 0 ? INT64_MIN : -(x.next - now) * x.sz};
      default: return {(double)x.f / x.sz, (x.f + 0.1) / x.sz, 0};
    }
  }
  bool less(const I &a, const I &b) const {  // certainly
    if (pol != FREQ) return a.key < b.key;
    return a.hi < b.lo * (1 + 1e-12) && a.hi <= b.lo;
  }
};

// -------------------------------------------------------- FIFO_Reinsertion
struct RReins : Rule {
  Val v;
  int nx = 100, nk = 20;
  bool none = false;
  vector<uint64_t> q;        // oldest first
  std::unordered_map<uint64_t, int> grp;  // neighbours of one group: order among them unknown
  int ngrp = 0;
  bool has_p = false;
  uint64_t ptr = 0;
  bool batch = false, single = false;
  uint64_t want = 0;
  Ids exam;
  std::unordered_map<uint64_t, Val::I> val;
  int64_t kept = 0;
  size_t pos(uint64_t id) { return std::find(q.begin(), q.end(), id) - q.begin(); }
  void next_of(uint64_t id) {  // the pointer moves on to the next newer object
    size_t i = pos(id);
    has_p = i + 1 < q.size();
    if (has_p) ptr = q[i + 1];
  }
  void hit(const Rq &x) override {
    auto &e = v.o[x.id];
    e.f++;
    e.last = nreq;
    e.next = x.next;
  }
  void insert(const Rq &x) override {
    v.o[x.id] = {0, nreq, x.next, x.size};
    grp[x.id] = ngrp++;
    q.push_back(x.id);
  }
  void drop(uint64_t id) {
    q.erase(q.begin() + pos(id));
    v.o.erase(id);
    grp.erase(id);
  }
  bool same_group(size_t i, size_t j) { return grp[q[i]] == grp[q[j]]; }
  void gone(uint64_t id) override {
    if (has_p && ptr == id) {
      size_t i = pos(id);
      if (i + 1 < q.size() && same_group(i, i + 1)) { stop = true; return; }
      next_of(id);
    }
    drop(id);
  }
  void before() override {
    size_t n = q.size();
    size_t p = has_p ? pos(ptr) : 0;
    if ((int)n <= nx || none) {
      single = true;
      want = q[p];
      if ((p > 0 && same_group(p, p - 1)) || (p + 1 < n && same_group(p, p + 1))) stop = true;
      return;
    }
    single = false;
    // a group that the batch cuts: which of its objects are examined is unknown
    size_t end = (p + nx) % n;
    if (end > 0 && same_group(end, end - 1)) { stop = true; count("reinsertion_cut"); return; }
    exam.clear();
    val.clear();
    for (int i = 0; i < nx; i++) {
      uint64_t id = q[(p + i) % n];
      exam.push_back(id);
      val[id] = v.of(id, nreq);
    }
    has_p = true;
    ptr = q[end];
  }
  void evicted(const Ids &w) override {
    if (single) {
      if (w.size() != 1 || w[0] != want) { fail("wrong-victim", "request %ld: %zu objects left, one of them %lu; expected %lu, %zu objects cached", nreq, w.size(), w[0], want, q.size()); return; }
      next_of(want);
      drop(want);
      return;
    }
    nbatch++;
    if ((int)w.size() != nx - nk) { fail("wrong-victim", "request %ld: %zu objects left of the %d examined, %d are to be kept", nreq, w.size(), nx, nk); return; }
    std::set<uint64_t> out(w.begin(), w.end());
    Ids keep;
    size_t nin = 0;
    for (auto id : exam)
      if (out.count(id)) nin++;
      else keep.push_back(id);
    if (nin != w.size()) { fail("wrong-victim", "request %ld: %zu of the %zu objects that left were not examined", nreq, w.size() - nin, w.size()); return; }
    for (auto a : w)
      for (auto b : keep) {
        ndecided++;
        if (v.less(val[b], val[a])) {
          fail("wrong-victim", "request %ld: object %lu left (frequency %ld, last used at %ld, next at %ld, %ld bytes) and %lu stayed (frequency %ld, last used at %ld, next at %ld, %ld bytes)", nreq,
               a, v.o[a].f, v.o[a].last, v.o[a].next, v.o[a].sz, b, v.o[b].f, v.o[b].last, v.o[b].next, v.o[b].sz);
          return;
        }
      }
    for (auto id : w) drop(id);
    // kept objects go to the new end, the most valuable last
    std::stable_sort(keep.begin(), keep.end(), [&](uint64_t a, uint64_t b) { return v.pol == Val::FREQ ? val[a].lo < val[b].lo : val[a].key < val[b].key; });
    double reach = -1;
    for (size_t i = 0; i < keep.size(); i++) {
      uint64_t id = keep[i];
      q.erase(q.begin() + pos(id));
      q.push_back(id);
      bool tie = i > 0 && (v.pol == Val::FREQ ? val[id].lo <= reach : val[id].key == val[keep[i - 1]].key);
      grp[id] = tie ? grp[keep[i - 1]] : ngrp++;
      reach = std::max(reach, val[id].hi);
      v.o[id].f = (v.o[id].f + 1) / 2;
      kept++;
    }
  }
  void finish() override {
    count("reinsertion_batches", nbatch);
    count("reinserted", kept);
  }
};

// ------------------------------------------------------------- FIFO_Merge
struct RMerge : Rule {
  Val v;
  int nx = 100, nk = 50;
  bool none = false;
  vector<uint64_t> q;  // oldest first
  bool has_p = false;
  uint64_t ptr = 0;
  int taken = 1 << 30;             // how many of the last batch have left
  Ids batch;
  std::unordered_map<uint64_t, Val::I> val;
  bool single = false;
  void hit(const Rq &x) override {
    auto &e = v.o[x.id];
    e.f++;
    e.last = nreq;
    e.next = x.next;
  }
  void insert(const Rq &x) override {
    v.o[x.id] = {0, nreq, x.next, x.size};
    q.push_back(x.id);
  }
  void drop(uint64_t id) {
    q.erase(std::find(q.begin(), q.end(), id));
    v.o.erase(id);
  }
  void gone(uint64_t) override { stop = true; }
  void before() override {
    single = false;
    if (!none && taken < nx - nk - 1) return;  // objects already chosen to leave
    if (none || (int)q.size() <= nx) {
      single = true;
      has_p = false;
      return;
    }
    size_t n = q.size(), p = has_p ? std::find(q.begin(), q.end(), ptr) - q.begin() : 0;
    batch.clear();
    val.clear();
    for (int i = 0; i < nx; i++) {
      uint64_t id = q[(p + i) % n];
      batch.push_back(id);
      val[id] = v.of(id, nreq);
    }
    size_t end = p + nx;
    has_p = end != n;
    if (has_p) ptr = q[end % n];
    taken = 0;
    nbatch++;
  }
  void evicted(const Ids &w) override {
    if (w.size() != 1) { fail("wrong-victim", "request %ld: %zu objects left in one eviction", nreq, w.size()); return; }
    uint64_t a = w[0];
    if (single) {
      if (a != q[0]) { fail("wrong-victim", "request %ld: object %lu left, the oldest is %lu, %zu objects cached", nreq, a, q[0], q.size()); return; }
      drop(a);
      return;
    }
    if (!val.count(a)) { fail("wrong-victim", "request %ld: object %lu left, which is not one of the %d examined", nreq, a, nx); return; }
    for (auto b : batch) {
      if (b == a || !val.count(b)) continue;
      ndecided++;
      if (v.less(val[b], val[a])) {
        fail("wrong-victim", "request %ld: object %lu left (%ld requests, %ld bytes), %lu stays (%ld requests, %ld bytes)", nreq, a, v.o[a].f, v.o[a].sz, b, v.o[b].f, v.o[b].sz);
        return;
      }
    }
    val.erase(a);
    taken++;
    drop(a);
  }
  void finish() override { count("merge_batches", nbatch); }
};

// ------------------------------------------------------------- Hyperbolic
struct RHyper : Rule {
  struct O { int64_t f, t; };
  std::unordered_map<uint64_t, O> o;
  void hit(const Rq &q) override { o[q.id].f++; }
  void insert(const Rq &q) override { o[q.id] = {1, nreq}; }
  void gone(uint64_t id) override { o.erase(id); }
  void evicted(const Ids &w) override {
    if (w.size() != 1) { fail("wrong-victim", "request %ld: %zu objects left in one eviction", nreq, w.size()); return; }
    O &a = o[w[0]];
    if (o.size() <= 6) for (auto &p : o) {
      ndecided++;
      // frequency over age, cross-multiplied
      if (p.first != w[0] && p.second.f * (nreq - a.t) < a.f * (nreq - p.second.t)) {
        fail("wrong-victim", "request %ld: object %lu left with %ld requests in %ld, %lu stayed with %ld in %ld", nreq, w[0], a.f, nreq - a.t, p.first, p.second.f, nreq - p.second.t);
        return;
      }
    }
    o.erase(w[0]);
  }
};

// ------------------------------------------------------------------ runs
static void drive(const Algo &a, Rule &m, Rng &r, const Workload &w, uint64_t size, const string &p, bool md, int hp) {
  m.name = a.name;
  set_rand_seed(r.next());
  cache_t *c = mk(a, size, p, md, hp);
  m.c = c;
  m.cap = size;
  m.md = c->obj_md_size;
  m.real_evict = c->evict;
  c->evict = evict_hook;
  G = &m;
  char b[300];
  snprintf(b, sizeof b, "[cache size %lu, md %d, params '%s', workload %s of %zu objects]", size, md, p.c_str(), w.kind.c_str(), w.universe.size());
  m.cs = b;
  bool rem = a.has(T_REMOVE) && r.chance(0.35), evc = a.has(T_EVICT) && r.chance(0.3), look = r.chance(0.2);
  double prem = 0.002 + 0.1 * r.unit() * r.unit(), pev = 0.01 + 0.05 * r.unit();
  Spy spy;
  bool adm = r.chance(0.12);
  if (adm) {
    uint64_t salt = r.next(), pr = 3 + r.below(7);
    spy.fn = [=](const request_t *q) { return h64(std::to_string(q->obj_id * 131 + q->clock_time) + std::to_string(salt)) % 10 < pr; };
    c->admissioner = spy_on(&spy);
  }
  request_t req;
  int64_t hits = 0, n = 0;
  for (size_t i = 0; i < w.reqs.size() && !m.bad && !m.stop; i++) {
    const Rq &q = w.reqs[i];
    to_req(&req, q, i + 1);
    m.nreq++;
    n++;
    bool want = m.size.count(q.id);
    if (want) m.hit(q);
    else m.miss(q);
    m.need = q.size + m.md;
    bool h = c->get(c, &req);
    m.need = 0;
    if (m.bad || m.stop) break;
    hits += h;
    if (h != want) { m.fail("wrong-hit", "request %zu to %lu: hit=%d, expected %d", i, q.id, h, want); break; }
    bool fits = q.size + m.md <= (int64_t)size && (!adm || spy.fn(&req));
    if (!want) {
      if (resident(c, q.id) != fits) { m.fail("wrong-contents", "request %zu to %lu: inserted=%d, expected %d", i, q.id, !fits, fits); break; }
      if (fits) {
        m.size[q.id] = q.size + m.md;
        m.bytes += q.size + m.md;
        m.insert(q);
      }
    }
    if (c->get_occupied_byte(c) != m.bytes) { m.fail("wrong-contents", "request %zu: %ld bytes cached, expected %ld", i, c->get_occupied_byte(c), m.bytes); break; }
    if (look && r.chance(0.3)) resident(c, w.universe[r.below(w.universe.size())]);
    if (rem && r.chance(prem)) {
      uint64_t id = w.universe[r.below(w.universe.size())];
      bool in = m.size.count(id);
      if (c->remove(c, id) != in) { m.fail("wrong-remove", "remove of %lu did not return %d", id, in); break; }
      count("removes", in);
      if (in) {
        m.gone(id);
        m.bytes -= m.size[id];
        m.size.erase(id);
      } else if (auto l = dynamic_cast<RLecar *>(&m)) l->history_removed(id);
    }
    if (evc && r.chance(pev))
      for (int k = 1 + r.below(3); k > 0 && !m.size.empty() && !m.bad && !m.stop; k--) {
        c->evict(c, &req);
        count("direct_evictions");
      }
  }
  m.finish();
  G = &m;
  m.stop = true;
  c->cache_free(c);
  G = nullptr;
  count("requests", n);
  count("hits", hits);
  count("evictions", m.nev);
  count("pairs_judged", m.ndecided);
  if (hits && m.nev) count("nontrivial");
  sample("%s %s: %ld requests, %ld hits, %ld evictions, %ld batches", a.name, m.cs.c_str(), n, hits, m.nev, m.nbatch);
}
static bool is_prime(int64_t x) {
  for (int64_t d = 2; d * d <= x; d++)
    if (x % d == 0) return false;
  return x > 1;
}

static void lecar_case(Rng &r) {
  const Algo &a = *find_algo("LeCaR");
  WlOpt o;
  bool lng = r.chance(0.15);
  o.n_req = lng ? 20000 + r.below(20000) : 500 + r.below(3000);
  o.n_obj = 3 + r.below(lng ? 60 : 150);
  Workload w = gen_workload(r, o);
  uint64_t size = pick_size(r, w);
  bool md = r.chance(0.2);
  if (md) size += 60 + r.below(300);
  RLecar m;
  string p;
  m.dr = pow(0.005, 1.0 / (double)size);
  switch (r.below(6)) {
    case 0: p = "update-weight=0"; m.upd = false; break;
    case 1: p = "update-weight=0,lru-weight=1"; m.upd = false; m.w = 1; break;
    case 2: p = "update-weight=0,lru-weight=0"; m.upd = false; m.w = 0; break;
    case 3: p = "lru-weight=0.9"; m.w = 0.9; break;
    case 4: {
      char b[60];
      m.w = (1 + r.below(99)) / 100.0;
      snprintf(b, sizeof b, "lru-weight=%.2f,update-weight=0", m.w);
      m.upd = false;
      p = b;
      break;
    }
    default: break;
  }
  drive(a, m, r, w, size, p, md, 1 + r.below(12));
}
template <class T> static string batch_params(T &m, Rng &r, const char *def) {
  string p;
  auto add = [&](const string &s) { p += (p.empty() ? "" : ",") + s; };
  if (r.chance(0.8)) {
    m.nx = 2 + r.below(r.chance(0.5) ? 8 : 40);
    m.nk = r.below(m.nx);
    add("n-exam=" + std::to_string(m.nx));
    add("n-keep=" + std::to_string(m.nk));
  }
  int pol = r.below(8);
  const char *nm[] = {"recency", "frequency", "belady", "freq", "optimal"};
  if (pol < 5) {
    m.v.pol = pol == 0 ? Val::REC : pol == 1 || pol == 3 ? Val::FREQ : Val::BEL;
    string s = string("retain-policy=") + nm[pol];
    p = r.chance(0.5) ? (p.empty() ? s : p + "," + s) : (p.empty() ? s : s + "," + p);
  } else m.v.pol = def[0] == 'r' ? Val::REC : Val::FREQ;
  return p;
}
static Workload batch_workload(Rng &r, int nx, bool primes) {
  WlOpt o;
  o.n_req = 1000 + r.below(4000);
  o.n_obj = 2 * nx + 3 + r.below(10 * nx);
  o.n_obj = std::min(o.n_obj, 500);
  if (r.chance(0.3)) o.size_mode = r.chance(0.5) ? SZ_UNIT : SZ_CONST;
  Workload w = gen_workload(r, o);
  if (primes && !w.uniform_size) {  // so that few values tie
    std::unordered_map<uint64_t, int64_t> sz;
    w.distinct_bytes = w.max_size = 0;
    for (auto &q : w.reqs) {
      int64_t &s = sz[q.id];
      if (!s) {
        for (s = 20001 + 2 * r.below(100000); !is_prime(s); s += 2) {}
        w.distinct_bytes += s;
        w.max_size = std::max(w.max_size, s);
      }
      q.size = s;
    }
    w.kind += "->primes";
  }
  return w;
}
template <class T> static void batch_case(const char *name, const char *def, Rng &r) {
  const Algo &a = *find_algo(name);
  T m;
  string p = batch_params(m, r, def);
  Workload w = batch_workload(r, m.nx, m.v.pol != Val::FREQ || r.chance(0.3));
  double per = (double)w.distinct_bytes / w.universe.size();
  // from a few objects to several batches
  uint64_t size = std::max<uint64_t>(w.max_size, per * (r.chance(0.15) ? 1 + r.below(m.nx) : m.nx * (0.9 + 4 * r.unit())));
  bool md = r.chance(0.2);
  if (md) size += 4 * (uint64_t)(size / per + 1);
  drive(a, m, r, w, size, p, md, 1 + r.below(12));
}
static void none_case(const char *name, Rng &r) {
  const Algo &a = *find_algo(name);
  Workload w = batch_workload(r, 10, false);
  string p = r.chance(0.5) ? "retain-policy=none,n-exam=10" : "n-exam=10,n-keep=5,retain-policy=none";
  uint64_t size = pick_size(r, w);
  if (!strcmp(name, "FIFO_Merge")) {
    RMerge m;
    m.none = true;
    drive(a, m, r, w, size, p, false, 10);
  } else {
    RReins m;
    m.none = true;
    drive(a, m, r, w, size, p, false, 10);
  }
}
static void hyper_case(Rng &r) {
  const Algo &a = *find_algo("Hyperbolic");
  // objects in distinct places of the table, so that every draw reaches each of them;
  // with the number of draws the object with the lowest value of at most 6 is missed with probability below 1e-12
  RHyper m;
  WlOpt o;
  o.n_req = 300 + r.below(1000);
  o.n_obj = 3 + r.below(20);
  o.kind = r.chance(0.1) ? 8 : r.below(3) == 0 ? 0 : r.below(2) ? 1 : 6;
  Workload w = gen_workload(r, o);
  int hp = 6;
  std::map<uint64_t, uint64_t> to;
  std::set<uint64_t> used;
  vector<uint64_t> uni;
  size_t keep = 0;
  for (auto &q : w.reqs) {
    auto it = to.find(q.id);
    if (it == to.end()) {
      if (used.size() >= 40) break;
      uint64_t x = q.id;
      while (used.count(mon_hash(x) & ((1 << hp) - 1))) x = x * 6364136223846793005ull + 1442695040888963407ull;
      used.insert(mon_hash(x) & ((1 << hp) - 1));
      uni.push_back(x);
      it = to.emplace(q.id, x).first;
    }
    q.id = it->second;
    keep++;
  }
  w.reqs.resize(keep);
  w.universe = uni;
  int64_t per = std::max<int64_t>(1, w.distinct_bytes / std::max<size_t>(1, uni.size()));
  uint64_t size = w.uniform_size ? per * (1 + r.below(7)) : std::max<int64_t>(w.max_size, per * (1 + r.below(6)));
  drive(a, m, r, w, size, "n-sample=160", false, hp);
}

// --------------------------------------------------------------- WTinyLFU
struct MTiny : Model {
  MLru win;
  Model *main = nullptr;
  bool slru = false;
  std::function<Model *(Model *)> copy;
  struct minimalIncrementCBF cbf;
  int64_t cnt = 0, maxcnt = 0, nmain = 0, nwin = 0, nroom = 0, ndecay = 0;
  void init(uint64_t size, double ws) {
    uint64_t wsz = (double)size * ws;
    win.cap = wsz;
    main->cap = size - wsz;
    maxcnt = 32 * main->cap;
    memset(&cbf, 0, sizeof cbf);
    minimalIncrementCBF_init(&cbf, main->cap, 0.001);
  }
  ~MTiny() override {
    delete main;
    minimalIncrementCBF_free(&cbf);
  }
  void add(uint64_t id) { minimalIncrementCBF_add(&cbf, &id, sizeof id); }
  int est(uint64_t id) { return minimalIncrementCBF_estimate(&cbf, &id, sizeof id); }
  bool fits(uint64_t id, int64_t sz) override { return sz <= cap && sz <= win.cap && main->fits(id, sz); }
  bool hit(uint64_t id) override {
    if (win.hit(id)) return true;
    if (!main->hit(id)) return false;
    add(id);
    if (++cnt >= maxcnt) {
      cnt = 0;
      ndecay++;
      minimalIncrementCBF_decay(&cbf);
    }
    return true;
  }
  void insert(uint64_t id, int64_t sz) override {
    win.insert(id, sz);
    add(id);
  }
  uint64_t main_victim() {
    std::map<uint64_t, int64_t> a, b;
    Model *t = copy(main);
    t->dump(a);
    t->evict(0, 0);
    t->dump(b);
    delete t;
    for (auto &p : a)
      if (!b.count(p.first)) return p.first;
    return 0;
  }
  void main_insert(uint64_t id, int64_t sz) {
    if (slru) {
      auto s = (MSlru *)main;
      bool room = false;
      for (size_t i = 0; i < s->s.size(); i++) room |= qsum(s->s[i]) + sz <= s->mx[i];
      while (!room && s->occ() + sz > s->cap) s->evict(0, 0);
    }
    main->insert(id, sz);
  }
  void evict(uint64_t, int64_t) override {
    while (!win.q.empty()) {
      Ent e = win.q.back();
      if (main->occ() + e.sz <= main->cap) {
        nroom++;
        win.q.pop_back();
        main_insert(e.id, e.sz);
        add(e.id);
        continue;
      }
      uint64_t v = main_victim();
      if (est(e.id) > est(v)) {
        nmain++;
        main->evict(0, 0);
        win.q.pop_back();
        main_insert(e.id, e.sz);
        add(e.id);
      } else {
        nwin++;
        win.q.pop_back();
        add(e.id);
        return;
      }
    }
    main->evict(0, 0);
  }
  bool remove(uint64_t id) override { return win.remove(id) || main->remove(id); }
  int64_t occ() override { return win.occ() + main->occ(); }
  void dump(std::map<uint64_t, int64_t> &m) override {
    win.dump(m);
    main->dump(m);
  }
};
static void tiny_case(Rng &r) {
  const Algo &a = *find_algo("WTinyLFU");
  WlOpt o;
  bool lng = r.chance(0.2);
  o.n_req = lng ? 8000 + r.below(15000) : 400 + r.below(2500);
  o.n_obj = 4 + r.below(lng ? 50 : 150);
  o.size_mode = r.chance(0.6) ? SZ_UNIT : SZ_SMALLVAR;
  Workload w = gen_workload(r, o);
  MTiny m;
  double ws = 0.01;
  string p, ty = "SLRU";
  static const char *tys[] = {"SLRU", "LRU", "LFU", "FIFO", "clock", "SIEVE"};
  static const double wss[] = {0.05, 0.1, 0.2, 0.3, 0.5, 0.8};
  if (r.chance(0.9)) {
    ty = tys[r.below(6)];
    ws = wss[r.below(6)];
    char b[80];
    snprintf(b, sizeof b, r.chance(0.5) ? "main-cache=%s,window-size=%.2f" : "window-size=%2$.2f,main-cache=%1$s", ty.c_str(), ws);
    p = b;
  }
  uint64_t size = std::max<uint64_t>((uint64_t)(w.distinct_bytes * pow(10, -1.5 * r.unit())), 2 + r.below(20));
  if (ws < 0.05) size = std::max<uint64_t>(size, 200);
  if (ty == "LRU") { m.main = new MLru; m.copy = [](Model *x) { return (Model *)new MLru(*(MLru *)x); }; }
  else if (ty == "LFU") { m.main = new MLfu; m.copy = [](Model *x) { return (Model *)new MLfu(*(MLfu *)x); }; }
  else if (ty == "FIFO") { m.main = new MFifo; m.copy = [](Model *x) { return (Model *)new MFifo(*(MFifo *)x); }; }
  else if (ty == "clock") { m.main = new MClock(1); m.copy = [](Model *x) { return (Model *)new MClock(*(MClock *)x); }; }
  else if (ty == "SIEVE") { m.main = new MSieve; m.copy = [](Model *x) { return (Model *)new MSieve(*(MSieve *)x); }; }
  else { m.main = new MSlru; m.slru = true; m.copy = [](Model *x) { return (Model *)new MSlru(*(MSlru *)x); }; }
  m.cap = size;
  m.init(size, ws);
  if (m.slru) ((MSlru *)m.main)->init("seg-size=1:4");
  cache_t *c = mk(a, size, p, false, 1 + r.below(12));
  char cs[300];
  snprintf(cs, sizeof cs, "[cache size %lu, params '%s', workload %s of %zu objects]", size, p.c_str(), w.kind.c_str(), w.universe.size());
  bool rem = r.chance(0.3), evc = r.chance(0.3), bad = false;
  double prem = 0.01 + 0.1 * r.unit(), pev = 0.01 + 0.05 * r.unit();
  int64_t hits = 0;
  request_t req;
  for (size_t i = 0; i < w.reqs.size() && !bad; i++) {
    const Rq &q = w.reqs[i];
    to_req(&req, q, i + 1);
    bool mh = m.get(q.id, q.size), h = c->get(c, &req);
    hits += h;
    if (h != mh) { R->viol(a.name, "wrong-hit", "request %zu to %lu: hit=%d, expected %d %s", i, q.id, h, mh, cs); break; }
    if (c->get_occupied_byte(c) != m.occ()) { R->viol(a.name, "wrong-contents", "request %zu: %ld bytes cached, expected %ld %s", i, c->get_occupied_byte(c), m.occ(), cs); break; }
    auto compare = [&]() {
      std::map<uint64_t, int64_t> want;
      m.dump(want);
      count("state_compares");
      for (uint64_t id : w.universe)
        if (resident(c, id) != (want.count(id) > 0)) {
          R->viol(a.name, "wrong-contents", "request %zu: object %lu is %scached, the policy says otherwise %s", i, id, want.count(id) ? "not " : "", cs);
          bad = true;
          return;
        }
    };
    if (i % 13 == 0 || i + 1 == w.reqs.size()) compare();
    if (rem && !bad && r.chance(prem)) {
      uint64_t id = w.universe[r.below(w.universe.size())];
      bool x = m.remove(id);
      if (c->remove(c, id) != x) { R->viol(a.name, "wrong-remove", "remove of %lu did not return %d %s", id, x, cs); break; }
    }
    if (evc && !bad && r.chance(pev) && c->get_n_obj(c) > 0) {
      m.evict(0, 0);
      c->evict(c, &req);
      count("direct_evictions");
      compare();
    }
  }
  count("requests", w.reqs.size());
  count("hits", hits);
  count("evictions", m.nev);
  count("tiny_window_lost", m.nwin);
  count("tiny_window_won", m.nmain);
  count("tiny_room", m.nroom);
  count("tiny_decays", m.ndecay);
  if (hits && m.nev) count("nontrivial");
  sample("%s %s: %zu requests, %ld hits, window victim lost %ld and won %ld, %ld decays", a.name, cs, w.reqs.size(), hits, m.nwin, m.nmain, m.ndecay);
  c->cache_free(c);
}

void register_cases(vector<Case> &cs) {
  int n = ncase(300, 8000);
  for (int k = 0; k < n; k++) {
    uint64_t s = O.seed * 100000 + k;
    cs.push_back({"LeCaR", s, [](Rng &r) { lecar_case(r); }});
    cs.push_back({"FIFO_Reinsertion", s, [](Rng &r) { if (r.chance(0.06)) none_case("FIFO_Reinsertion", r); else batch_case<RReins>("FIFO_Reinsertion", "recency", r); }});
    cs.push_back({"FIFO_Merge", s, [](Rng &r) { if (r.chance(0.06)) none_case("FIFO_Merge", r); else batch_case<RMerge>("FIFO_Merge", "frequency", r); }});
    cs.push_back({"Hyperbolic", s, [](Rng &r) { hyper_case(r); }});
    if (k % 2 == 0) cs.push_back({"WTinyLFU", s, [](Rng &r) { tiny_case(r); }});
  }
}
