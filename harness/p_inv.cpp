// Online monitor of the invariants that every cache must keep (C01-C05): the
// real cache is driven through its public interface; after every step the
// oracle looks at counters and looks up every object of the universe.
#include "common.hpp"
#include "cachepick.hpp"

static const bool CAP() { return O.prop == "C01"; }

struct Mon {
  const Algo &a;
  Rng &r;
  Workload w;
  uint64_t size;
  bool md;
  string p;
  cache_t *c;
  std::unordered_map<uint64_t, int64_t> insz;  // size with which the object was inserted last
  std::set<uint64_t> may;                      // objects that may be resident (requested and not removed since)
  size_t i = 0;
  bool bad = false;
  Mon(const Algo &a_, Rng &r_) : a(a_), r(r_) {}
  ~Mon() {}
  void fail(const char *kind, const char *fmt, ...) {
    if (bad) return;
    bad = true;
    char b[800];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    R->viol(a.name, kind, "step %zu of %zu: %s [cache size %lu, md %d, params '%s', workload %s]", i, w.reqs.size(), b, size, md, p.c_str(), w.kind.c_str());
  }
  int64_t md_size() { return c->obj_md_size; }
  void check_bound() {
    int64_t occ = c->get_occupied_byte(c), n = c->get_n_obj(c);
    if (occ > (int64_t)size) fail("over-capacity", "occupied %ld > cache size %lu after request of size %ld", occ, size, i < w.reqs.size() ? w.reqs[i].size : -1);
    if (occ < 0 || n < 0) fail("negative", "occupied %ld, objects %ld", occ, n);
    if (n == 0 && occ != 0) fail("empty-not-zero", "no objects but occupied %ld", occ);
    count("bound_checks");
    if (occ > (int64_t)(size - size / 8)) count("nearly_full");
    if (occ == (int64_t)size) count("exactly_full");
  }
  void check_account(const char *when) {
    int64_t n = 0, b = 0;
    bool token = a.has(T_SENTINEL);
    for (uint64_t id : w.universe) {
      request_t q;
      memset(&q, 0, sizeof q);
      q.obj_id = id;
      q.obj_size = 1;
      q.valid = true;
      q.next_access_vtime = -2;
      cache_obj_t *o = c->find(c, &q, false);
      if (!o) continue;
      n++;
      b += (token ? insz[id] : o->obj_size) + md_size();
      if (!token && o->obj_id != id) fail("wrong-object", "lookup of %lu returned object %lu", id, (uint64_t)o->obj_id);
      if (!token && w.fixed_size && (int64_t)o->obj_size != insz[id]) fail("object-size", "object %lu cached with size %ld but requested with size %ld", id, (int64_t)o->obj_size, insz[id]);
    }
    if (n != c->get_n_obj(c)) fail("object-count", "%s: reports %ld objects, %ld are resident", when, c->get_n_obj(c), n);
    if (b != c->get_occupied_byte(c)) fail("byte-count", "%s: reports %ld bytes, resident objects have %ld", when, c->get_occupied_byte(c), b);
    count("account_checks");
    count("resident_seen", n);
  }
};

static void run_case(const Algo &a, Rng &r, int flavour) {
  Mon m(a, r);
  WlOpt o;
  o.n_req = 200 + r.below(thorough() ? 3000 : 1200);
  o.n_obj = 2 + r.below(r.chance(0.3) ? 12 : 150);
  bool large = flavour == 1;  // many objects or many requests to a few; the costly checks are spread out
  if (large) {
    o.n_req = 15000 + r.below(thorough() ? 400000 : 60000);
    o.n_obj = r.chance(0.3) ? 2 + r.below(40) : 500 + r.below(20000);
  }
  m.w = gen_workload(r, o);
  Workload &w = m.w;
  m.size = pick_size(r, w);
  m.md = !a.has(T_NO_MD) && r.chance(0.3);
  if (r.chance(0.15) && !a.has(T_SENTINEL)) resize_objects(r, w);  // sizes that change over the life of an object
  m.p = pick_param(a, r);
  // the window and the main cache of WTinyLFU may count different metadata
  if (O.prop != "C01" && !strcmp(a.name, "WTinyLFU") && m.p.find("Clock") != string::npos) m.md = false;
  set_rand_seed(r.next() % 100000);
  m.c = mk(a, m.size, m.p, m.md, 1 + r.below(12));
  // algorithms that declare metadata for each object count it if asked to, and only then
  static const std::set<string> with_md = {"ARC", "Cacheus", "FIFO_Merge", "FIFO_Reinsertion", "GDSF", "Hyperbolic", "LeCaR", "LFU", "LFUCpp", "LFUDA", "LHD", "LRU", "Sieve", "SLRU"};
  if (!m.md && m.c->obj_md_size != 0) m.fail("metadata", "%d bytes of metadata are counted for each object although metadata is not to be considered", (int)m.c->obj_md_size);
  if (m.md && with_md.count(a.name) && m.c->obj_md_size == 0) m.fail("metadata", "no metadata is counted although it is to be considered");
  cache_t *c = m.c;
  const string &P = O.prop;
  bool do_rem = a.has(T_REMOVE) && (P == "C05" || ((P == "C02" || P == "C01" || P == "C03") && r.chance(0.35)));
  bool do_evc = a.has(T_EVICT) && ((P == "C05" && r.chance(0.7)) || (P == "C02" && r.chance(0.2)));
  if (P == "C05" && !do_rem && !a.has(T_EVICT)) return;
  double prem = 0.02 + 0.3 * r.unit(), pev = 0.02 + 0.2 * r.unit();
  int64_t hits = 0, misses = 0, evicted = 0, removed = 0;
  request_t req;
  double share = large ? 50.0 / o.n_req : 1;
  if (large) { prem = r.unit() * 0.02; pev = r.unit() * 0.005; }
  for (m.i = 0; m.i < w.reqs.size() && !m.bad; m.i++) {
    size_t i = m.i;
    to_req(&req, w.reqs[i], i + 1);
    int64_t n0 = c->get_n_obj(c), b0 = c->get_occupied_byte(c);
    bool pre = P == "C03" ? resident(c, req.obj_id) : false;
    std::set<uint64_t> before;
    bool deep = P == "C03" && (large ? r.chance(share) : i % 8 == 3);
    if (deep) before = contents(c, w.universe);
    bool hit = c->get(c, &req);
    (hit ? hits : misses)++;
    if (!hit) m.insz[req.obj_id] = req.obj_size;
    int64_t n1 = c->get_n_obj(c), b1 = c->get_occupied_byte(c);
    if (n1 < n0 || (n1 == n0 && !hit)) evicted++;
    if (P == "C01") {
      m.check_bound();
      if (!hit && req.obj_size + m.md_size() > (int64_t)m.size && resident(c, req.obj_id)) m.fail("oversized-cached", "object of size %ld cached", req.obj_size);
      if (req.obj_size > (int64_t)m.size) count("oversized_requests");
    } else if (P == "C02") {
      if ((large ? r.chance(share) : i % 7 == 0) || i + 1 == w.reqs.size() || (!large && w.universe.size() < 20)) m.check_account("after get");
    } else if (P == "C03") {
      bool post = resident(c, req.obj_id);
      if (hit != pre) m.fail("hit-not-resident", "object %lu resident=%d but request reported hit=%d", req.obj_id, pre, hit);
      if (hit && !m.may.count(req.obj_id)) m.fail("phantom-hit", "hit on object %lu that was never requested or was removed", req.obj_id);
      if (!hit) m.may.insert(req.obj_id);
      if (hit && !post && !a.has(T_HIT_VANISH)) m.fail("hit-then-gone", "object %lu gone after its hit", req.obj_id);
      if (hit && !a.has(T_HIT_EVICTS) && (n1 != n0 || b1 != b0)) m.fail("hit-changes-contents", "hit changed counters: objects %ld -> %ld, bytes %ld -> %ld", n0, n1, b0, b1);
      if (!hit && !post && !a.has(T_ORACLE) && !a.has(T_OWN_ADMIT) && always_fits(a, m.p, req.obj_size + m.md_size(), m.size))
        m.fail("miss-not-inserted", "object %lu of size %ld not cached after its miss", req.obj_id, req.obj_size);
      if (!hit && !post) count("not_inserted");
      if (deep) {
        std::set<uint64_t> after = contents(c, w.universe);
        for (uint64_t id : after) {
          if (id != req.obj_id && !before.count(id)) m.fail("appeared", "object %lu appeared in the cache on a request to %lu", id, req.obj_id);
          if (!m.may.count(id)) m.fail("phantom-resident", "object %lu is resident but was never requested or was removed", id);
        }
        if (hit && !a.has(T_HIT_EVICTS) && after != before) m.fail("hit-changes-contents", "resident set changed on a hit");
        count("content_checks");
      }
    }
    // removals
    if (do_rem && !m.bad && r.chance(prem)) {
      uint64_t id = r.chance(0.3) ? w.reqs[i].id : r.chance(0.1) ? r.next() : w.universe[r.below(w.universe.size())];
      bool was = resident(c, id);
      bool chk = P == "C05" && r.chance(0.5) && (!large || r.chance(0.1));
      std::set<uint64_t> bf;
      int64_t nb = c->get_n_obj(c), bb = c->get_occupied_byte(c);
      int64_t osz = m.insz[id] + m.md_size();
      if (chk) bf = contents(c, w.universe);
      if (was && !a.has(T_SENTINEL)) {
        request_t q;
        to_req(&q, w.reqs[i], 0);
        q.obj_id = id;
        cache_obj_t *ob = c->find(c, &q, false);
        osz = ob->obj_size + m.md_size();
      }
      bool ok = c->remove(c, id);
      m.may.erase(id);
      removed += was;
      count(was ? "removed_resident" : "removed_absent");
      if (P == "C05") {
        if (ok != was) m.fail("remove-result", "remove(%lu) returned %d, object resident=%d", id, ok, was);
        if (resident(c, id)) m.fail("remove-ineffective", "object %lu still resident after remove", id);
        if (c->get_n_obj(c) != nb - was) m.fail("remove-count", "objects %ld -> %ld on removing a %s object", nb, c->get_n_obj(c), was ? "resident" : "absent");
        if (c->get_occupied_byte(c) != bb - (was ? osz : 0)) m.fail("remove-bytes", "bytes %ld -> %ld on removing %ld bytes", bb, c->get_occupied_byte(c), was ? osz : 0);
        if (chk) {
          bf.erase(id);
          if (bf != contents(c, w.universe)) m.fail("remove-others", "removing %lu changed other contents", id);
        }
        m.check_bound();
      } else if (P == "C02") { if (!large || r.chance(0.1)) m.check_account("after remove"); }
      else if (P == "C01") m.check_bound();
      else if (P == "C03" && resident(c, id)) m.fail("removed-still-hit", "object %lu resident after remove", id);
    }
    if (do_evc && !m.bad && r.chance(pev)) {
      int times = r.chance(0.05) ? 1000 : 1 + r.below(3);  // sometimes until empty
      for (int t = 0; t < times && !m.bad && c->get_n_obj(c) > 0; t++) {
        int64_t nb = c->get_n_obj(c), bb = c->get_occupied_byte(c);
        std::set<uint64_t> bf;
        bool chk = P == "C05" && (nb < 12 || r.chance(0.4)) && (!large || r.chance(0.1));
        if (chk) bf = contents(c, w.universe);
        uint64_t cand = 0;
        bool have = false;
        if (P == "C05" && a.has(T_TOEVICT) && r.chance(0.6)) {
          cache_obj_t *ob = c->to_evict(c, &req);
          if (!ob) { m.fail("candidate-null", "no eviction candidate with %ld objects", nb); break; }
          if (!a.has(T_SENTINEL) || (uintptr_t)ob > 4096) {
            cand = ob->obj_id;
            have = true;
            if (!resident(c, cand)) m.fail("candidate-not-resident", "eviction candidate %lu is not cached", cand);
          }
          if (c->get_n_obj(c) != nb || c->get_occupied_byte(c) != bb) m.fail("candidate-changes", "asking for the candidate changed the counters");
          count("candidates");
        }
        c->evict(c, &req);
        int64_t n2 = c->get_n_obj(c), b2 = c->get_occupied_byte(c);
        count("direct_evictions");
        if (P == "C05") {
          if (!(n2 < nb && b2 < bb)) m.fail("evict-nothing", "evict: objects %ld -> %ld, bytes %ld -> %ld", nb, n2, bb, b2);
          if (have && resident(c, cand)) m.fail("candidate-kept", "announced candidate %lu still cached after evict", cand);
          if (chk) {
            std::set<uint64_t> af = contents(c, w.universe);
            for (uint64_t id : af)
              if (!bf.count(id)) m.fail("evict-adds", "object %lu appeared on evict", id);
            if ((int64_t)(bf.size() - af.size()) != nb - n2) m.fail("evict-count", "%zu objects left the cache, counter says %ld", bf.size() - af.size(), nb - n2);
          }
        } else if (!large || r.chance(0.1)) m.check_account("after evict");
      }
    }
    if (P == "C05" && (large ? r.chance(share) : i % 50 == 49)) m.check_account("continuing after remove/evict");
  }
  if (!m.bad && (P == "C02" || P == "C05")) m.check_account("at the end");
  if (P == "C05" && !m.bad && do_rem) {  // empty it object by object
    for (uint64_t id : w.universe) c->remove(c, id);
    if (c->get_n_obj(c) != 0 || c->get_occupied_byte(c) != 0) m.fail("not-empty", "after removing everything: %ld objects, %ld bytes", c->get_n_obj(c), c->get_occupied_byte(c));
    for (size_t k = 0; k < w.reqs.size() && k < 200 && !m.bad; k++) {  // and use it again
      m.i = k;
      Rq q = w.reqs[k];
      if (q.next > 0) q.next += w.reqs.size();  // the oracle's information stays valid
      to_req(&req, q, w.reqs.size() + k + 1);
      if (!c->get(c, &req)) m.insz[req.obj_id] = req.obj_size;
      m.check_bound();
    }
    if (!m.bad) m.check_account("after refilling");
  }
  count("requests", w.reqs.size());
  count("hits", hits);
  count("misses", misses);
  count("wl:" + w.kind);
  if (misses > 0 && evicted > 0 && (hits > 0 || w.kind[0] == 'l') && (P != "C05" || removed + R->cnt["direct_evictions"] > 0)) count("nontrivial");
  sample("%s size=%lu md=%d params='%s' %s: %zu requests, %ld hits, %ld removals", a.name, m.size, m.md, m.p.c_str(), w.kind.c_str(), w.reqs.size(), hits, removed);
  c->cache_free(c);
}

void register_cases(vector<Case> &cs) {
  if (O.prop.empty()) { fprintf(stderr, "--prop missing\n"); exit(3); }
  int n = ncase(220, 3000);
  for (int k = 0; k < n; k++)
    for (auto &a : all_algos()) cs.push_back({a.name, O.seed * 100000 + k, [&a](Rng &r) { run_case(a, r, 0); }});
  for (int k = 0; k < std::max(2, n / 60); k++)
    for (auto &a : all_algos()) cs.push_back({a.name, O.seed * 100000 + 90000 + k, [&a](Rng &r) { run_case(a, r, 1); }});
}
