// Shared machinery of the monitors: seeded generators, the table of eviction
// algorithms, the forked case runner and the line-JSON reporter.
#pragma once
#include <assert.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

extern "C" {
#include "libCacheSim.h"
#include "utils/include/mymath.h"
}
#undef INFO
#undef WARN
#undef ERROR
#undef DEBUG

using std::string;
using std::vector;

// ----------------------------------------------------------------- rng
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {
    next();
    next();
  }
  uint64_t next() {  // splitmix64
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
  double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
  bool chance(double p) { return unit() < p; }
};

// ------------------------------------------------------------- requests
struct Rq {
  uint64_t id;
  int64_t size;
  int64_t time;
  int64_t next;  // next access vtime (1-based index of next request) or -1
};

struct Workload {
  string kind;
  vector<Rq> reqs;
  vector<uint64_t> universe;  // every id that appears
  bool uniform_size = false, fixed_size = true;
  int64_t max_size = 1;
  int64_t distinct_bytes = 0;
};

enum SizeMode { SZ_UNIT, SZ_CONST, SZ_SMALLVAR, SZ_MIXED, SZ_HEAVY, SZ_HUGE, SZ_COUNT };
static const char *size_mode_name[] = {"unit", "const", "smallvar", "mixed", "heavy", "huge"};

inline uint64_t spread_id(uint64_t i, int mode) {
  switch (mode) {
    case 0: return i + 1;                                   // small consecutive
    case 1: return (i + 1) * 0x9E3779B97F4A7C15ull;          // full 64-bit
    case 2: return ((i + 1) << 20) + 7;                      // strided
    case 3: return (1ull << 33) + i;                         // beyond 32 bits
    case 4: return i * 512;                                  // includes id 0
    default: return (i % 24) + 1 + ((i / 24) << 32);         // differ in the upper half
  }
}

struct WlOpt {
  int n_req = 1000;
  int n_obj = 100;
  int id_mode = -1;
  int size_mode = -1;
  int kind = -1;
};

static const int N_WL_KIND = 9;

extern bool no_huge;  // no multi-gigabyte objects: WTinyLFU's filter is as large as its cache
inline Workload gen_workload(Rng &r, WlOpt o) {
  Workload w;
  int kind = o.kind >= 0 ? o.kind : (int)r.below(N_WL_KIND);
  int idm = o.id_mode >= 0 ? o.id_mode : (int)r.below(6);
  int szm = o.size_mode >= 0 ? o.size_mode : r.chance(0.07) && !no_huge ? (int)SZ_HUGE : (int)r.below(SZ_HUGE);
  int n_obj = std::max(1, o.n_obj);
  vector<uint64_t> seq;
  seq.reserve(o.n_req);
  // zipf table
  double alpha = 0.6 + r.unit() * 0.8;
  vector<double> cdf(n_obj);
  double acc = 0;
  for (int i = 0; i < n_obj; i++) {
    acc += 1.0 / pow((double)(i + 1), alpha);
    cdf[i] = acc;
  }
  auto zipf = [&]() {
    double u = r.unit() * acc;
    return (uint64_t)(std::lower_bound(cdf.begin(), cdf.end(), u) - cdf.begin());
  };
  uint64_t fresh = n_obj;
  uint64_t scan_pos = 0;
  uint64_t hot_base = 0;
  if (kind == 8) {  // few objects with long runs of requests: counts of hundreds and thousands
    int few = std::min(n_obj, 3 + (int)r.below(30)), len = std::max(o.n_req, 4000);
    w.kind = "runs";
    while ((int)seq.size() < len) {
      uint64_t x = r.chance(0.1) ? fresh++ : r.below(few);
      size_t n = r.chance(0.6) ? 1 + r.below(5) : 1 + r.below(700);
      if (x >= (uint64_t)n_obj) n = 1;
      else if (r.chance(0.002)) n = 65500 + r.below(200);
      seq.insert(seq.end(), n, x);
    }
  }
  for (int i = 0; kind != 8 && i < o.n_req; i++) {
    uint64_t x = 0;
    switch (kind) {
      case 0: x = r.below(n_obj); w.kind = "uniform"; break;
      case 1: x = zipf(); w.kind = "zipf"; break;
      case 2: x = i % n_obj; w.kind = "loop"; break;
      case 3: x = r.chance(0.35) ? fresh++ : zipf(); w.kind = "onehit"; break;
      case 4:  // hot set with scan bursts
        if ((i / 64) % 3 == 2) x = n_obj + (scan_pos++ % (3 * (uint64_t)n_obj));
        else x = zipf();
        w.kind = "scan+hot";
        break;
      case 5:  // moving working set
        if (i % 97 == 96) hot_base += 1 + r.below(n_obj / 4 + 1);
        x = hot_base + r.below(n_obj / 4 + 1);
        w.kind = "drift";
        break;
      case 6:  // re-reference soon
        if (!seq.empty() && r.chance(0.5)) x = seq[seq.size() - 1 - r.below(std::min<size_t>(seq.size(), 8))];
        else x = r.below(2 * n_obj);
        w.kind = "bursty";
        break;
      default:  // loop slightly perturbed, backward and forward
        x = r.chance(0.1) ? r.below(n_obj) : (((i / n_obj) & 1) ? (uint64_t)(n_obj - 1 - i % n_obj) : (uint64_t)(i % n_obj));
        w.kind = "pingpong";
        break;
    }
    seq.push_back(x);
  }
  int64_t csz = szm == SZ_UNIT ? 1 : r.range(2, 600);
  w.uniform_size = szm == SZ_UNIT || szm == SZ_CONST;
  std::unordered_map<uint64_t, int64_t> sz;
  std::unordered_map<uint64_t, size_t> last;
  int64_t t = r.below(2) ? 0 : (int64_t)r.below(100000);
  uint64_t salt = r.next();
  for (size_t i = 0; i < seq.size(); i++) {
    uint64_t id = spread_id(seq[i], idm);
    auto it = sz.find(id);
    if (it == sz.end()) {
      Rng rr(salt ^ (seq[i] * 77777));
      int64_t s = 1;
      switch (szm) {
        case SZ_UNIT: s = 1; break;
        case SZ_CONST: s = csz; break;
        case SZ_SMALLVAR: s = rr.range(1, 8); break;
        case SZ_MIXED: s = rr.range(1, 2000); break;
        case SZ_HUGE: s = rr.chance(0.3) ? (1ll << 31) + rr.range(-3, 3) : rr.range(1, 3000000000ll); break;
        default: s = (int64_t)std::min(20000.0, 1 + pow(1.0 / (1e-4 + rr.unit()), 0.9)); break;
      }
      it = sz.emplace(id, s).first;
      w.universe.push_back(id);
      w.distinct_bytes += s;
      w.max_size = std::max(w.max_size, s);
    }
    if (r.chance(0.3)) t += r.below(50);
    Rq q{id, it->second, t, -1};
    auto l = last.find(id);
    if (l != last.end()) w.reqs[l->second].next = (int64_t)i + 1;
    last[id] = i;
    w.reqs.push_back(q);
  }
  w.kind += string("/") + size_mode_name[szm];
  return w;
}

inline void to_req(request_t *req, const Rq &q, int64_t n) {
  memset(req, 0, sizeof(*req));
  req->obj_id = q.id;
  req->obj_size = q.size;
  req->clock_time = q.time;
  req->next_access_vtime = q.next < 0 ? INT64_MAX : q.next;
  req->n_req = (uint64_t)n;
  req->op = OP_GET;
  req->ttl = 86400 * 30;
  req->valid = true;
}

// ---------------------------------------------------------------- algos
typedef cache_t *(*init_fn)(const common_cache_params_t, const char *);
struct Algo {
  const char *name;
  init_fn init;
  vector<string> params;  // "" == NULL
  int traits;
  bool has(int t) const { return (traits & t) == t; }
};
enum {
  T_REMOVE = 1,        // remove() is supported
  T_EVICT = 2,         // evict() may be called directly
  T_TOEVICT = 4,       // to_evict() announces the next victim
  T_HIT_EVICTS = 8,    // a hit may change which objects are cached
  T_HIT_VANISH = 16,   // even the object that was hit may leave
  T_RAND = 32,         // draws from the shared random generator
  T_OWN_ADMIT = 64,    // has its own admission policy
  T_SENTINEL = 128,    // find() returns a token, not the object
  T_ORACLE = 256,      // uses next_access_vtime, need not insert
  T_NO_MD = 512,       // metadata mode not claimed
};
const vector<Algo> &all_algos();
inline const Algo *find_algo(const string &n) {
  for (auto &a : all_algos())
    if (n == a.name) return &a;
  fprintf(stderr, "no algo %s\n", n.c_str());
  exit(3);
}
inline cache_t *mk(const Algo &a, uint64_t size, const string &p = "", bool md = false, int hp = 10) {
  common_cache_params_t c = default_common_cache_params();
  c.cache_size = size;
  c.hashpower = hp;
  c.default_ttl = 86400 * 300;
  c.consider_obj_metadata = md;
  if (p.empty()) return a.init(c, NULL);
  // parameters may be separated by a comma and spaces, and their names are not case sensitive
  string v;
  bool key = true;
  for (char ch : p) {
    v += key && size % 5 == 3 ? toupper(ch) : ch;
    if (ch == '=') key = false;
    if (ch == ',') {
      key = true;
      v += size % 3 == 1 ? " " : size % 9 == 2 ? "   " : "";
    }
  }
  return a.init(c, v.c_str());
}

inline bool resident(cache_t *c, uint64_t id) {
  request_t q;
  memset(&q, 0, sizeof q);
  q.obj_id = id;
  q.obj_size = 1;
  q.valid = true;
  q.next_access_vtime = -2;
  return c->find(c, &q, false) != NULL;
}
inline std::set<uint64_t> contents(cache_t *c, const vector<uint64_t> &univ) {
  std::set<uint64_t> s;
  for (uint64_t id : univ)
    if (resident(c, id)) s.insert(id);
  return s;
}
inline string pick_param(const Algo &a, Rng &r) { return r.chance(0.4) ? a.params[0] : a.params[r.below(a.params.size())]; }

// ------------------------------------------------------------- reporting
string jesc(const string &s);
struct Rep {
  int fd = -1;
  int nviol = 0;
  std::map<string, int64_t> cnt;
  void line(const string &s) {
    string t = s + "\n";
    size_t o = 0;
    while (o < t.size()) {
      ssize_t k = write(fd, t.data() + o, t.size() - o);
      if (k <= 0) break;
      o += k;
    }
  }
  void viol(const string &subject, const string &kind, const char *fmt, ...) __attribute__((format(printf, 4, 5)));
  void flush_counts();
};
extern Rep *R;
inline void count(const string &k, int64_t n = 1) { R->cnt[k] += n; }

struct Case {
  string subject;  // usually the algorithm
  uint64_t seed;
  std::function<void(Rng &)> run;
  int kind = 0;
};
// run every case in a child; crash, hang and sanitizer report are violations
struct Opt {
  string prop, out, only, tmp, tier = "quick";
  uint64_t seed = 1;
  int shard = 0, nshard = 1;
  double scale = 1.0;
  int cpu_limit = 60;
  bool has_case = false;
  uint64_t case_seed = 0;
  bool nofork = false;
  bool leaks = false;
};
extern Opt O;
void run_cases(const vector<Case> &cases);
// implemented by each monitor
void register_cases(vector<Case> &cases);
inline bool thorough() { return O.tier == "thorough"; }
// number of cases per subject for the tier in use
inline int ncase(int quick, int thoro) { return std::max(1, (int)((thorough() ? thoro : quick) * O.scale)); }
void sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
string mon_tmp();  // scratch directory of this shard
uint64_t h64(const string &s);
