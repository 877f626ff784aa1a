// Reference models of the eviction policies, written from their descriptions.
#pragma once
#include <list>
#include <set>
#include <unordered_map>
#include "common.hpp"

struct Ent {
  uint64_t id;
  int64_t sz;  // with metadata
  int64_t f = 0;
};
// a list (front = newest) that also knows its bytes and finds entries by id
class Q {
 public:
  typedef std::list<Ent>::iterator iterator;
  typedef std::list<Ent>::const_iterator const_iterator;
  Q() {}
  Q(const Q &o) : l(o.l), sum(o.sum) { for (auto i = l.begin(); i != l.end(); ++i) at.emplace(i->id, i); }
  Q &operator=(const Q &) = delete;
  iterator begin() { return l.begin(); }
  iterator end() { return l.end(); }
  const_iterator begin() const { return l.begin(); }
  const_iterator end() const { return l.end(); }
  bool empty() const { return l.empty(); }
  size_t size() const { return l.size(); }
  Ent &front() { return l.front(); }
  Ent &back() { return l.back(); }
  void push_front(const Ent &e) { l.push_front(e); enter(l.begin()); }
  void pop_back() { erase(std::prev(l.end())); }
  void pop_front() { erase(l.begin()); }
  void erase(iterator i) { leave(i); l.erase(i); }
  void splice(iterator pos, Q &from, iterator i) {
    from.leave(i);
    l.splice(pos, from.l, i);
    enter(i);
  }
  iterator find(uint64_t id) { auto i = at.find(id); return i == at.end() ? l.end() : i->second; }
  int64_t bytes() const { return sum; }

 private:
  std::list<Ent> l;
  std::unordered_map<uint64_t, iterator> at;
  int64_t sum = 0;
  void enter(iterator i) {
    if (!at.emplace(i->id, i).second) { fprintf(stderr, "the model has object %lu twice in a queue\n", i->id); exit(3); }
    sum += i->sz;
  }
  void leave(iterator i) { at.erase(i->id); sum -= i->sz; }
};
inline Q::iterator qfind(Q &q, uint64_t id) { return q.find(id); }
inline int64_t qsum(const Q &q) { return q.bytes(); }
struct Model {
  int64_t cap = 0, md = 0;
  int64_t nreq = 0;
  virtual ~Model() {}
  virtual bool hit(uint64_t id) = 0;                     // lookup with update
  virtual bool fits(uint64_t, int64_t sz) { return sz <= cap; }
  virtual void evict(uint64_t id, int64_t sz) = 0;
  virtual void insert(uint64_t id, int64_t sz) = 0;
  virtual bool remove(uint64_t id) = 0;
  virtual void dump(std::map<uint64_t, int64_t> &m) = 0;  // resident id -> bytes
  virtual int64_t occ() {
    std::map<uint64_t, int64_t> m;
    dump(m);
    int64_t s = 0;
    for (auto &p : m) s += p.second;
    return s;
  }
  bool get(uint64_t id, int64_t size, bool admitted = true) {
    nreq++;
    int64_t sz = size + md;
    if (hit(id)) return true;
    if (!admitted || !fits(id, sz)) return false;
    while (occ() + sz > cap) { nev++; evict(id, sz); }
    insert(id, sz);
    return false;
  }
  int64_t nev = 0;
};
struct OneQueue : Model {
  Q q;
  int64_t occ() override { return qsum(q); }
  bool remove(uint64_t id) override {
    auto i = qfind(q, id);
    if (i == q.end()) return false;
    q.erase(i);
    return true;
  }
  void dump(std::map<uint64_t, int64_t> &m) override {
    for (auto &e : q) m[e.id] = e.sz;
  }
  void insert(uint64_t id, int64_t sz) override { q.push_front({id, sz}); }
};
struct MFifo : OneQueue {
  bool hit(uint64_t id) override { return qfind(q, id) != q.end(); }
  void evict(uint64_t, int64_t) override { q.pop_back(); }
};
struct MLru : OneQueue {
  bool hit(uint64_t id) override {
    auto i = qfind(q, id);
    if (i == q.end()) return false;
    q.splice(q.begin(), q, i);
    return true;
  }
  void evict(uint64_t, int64_t) override { q.pop_back(); }
};
struct MMru : MLru {
  void evict(uint64_t, int64_t) override { q.pop_front(); }
};
struct MClock : OneQueue {
  int64_t maxf;
  explicit MClock(int bits) : maxf((1 << bits) - 1) {}
  bool hit(uint64_t id) override {
    auto i = qfind(q, id);
    if (i == q.end()) return false;
    i->f = std::min(maxf, i->f + 1);
    return true;
  }
  void evict(uint64_t, int64_t) override {
    while (q.back().f > 0) {
      q.back().f--;
      q.splice(q.begin(), q, std::prev(q.end()));
    }
    q.pop_back();
  }
};
struct MSieve : OneQueue {
  bool hand_set = false;
  uint64_t hand = 0;
  bool hit(uint64_t id) override {
    auto i = qfind(q, id);
    if (i == q.end()) return false;
    i->f = 1;
    return true;
  }
  void step_off(Q::iterator i) {  // the hand moves on to the next newer object
    if (i == q.begin()) hand_set = false;
    else { hand_set = true; hand = std::prev(i)->id; }
  }
  void evict(uint64_t, int64_t) override {
    auto i = hand_set ? qfind(q, hand) : std::prev(q.end());
    while (i->f > 0) {
      i->f = 0;
      i = i == q.begin() ? std::prev(q.end()) : std::prev(i);
    }
    step_off(i);
    q.erase(i);
  }
  bool remove(uint64_t id) override {
    auto i = qfind(q, id);
    if (i == q.end()) return false;
    if (hand_set && hand == id) step_off(i);
    q.erase(i);
    return true;
  }
};
struct MSlru : Model {
  vector<Q> s;
  vector<int64_t> mx;
  void init(const string &p) {
    vector<int64_t> w;
    int n = 4;
    if (p.compare(0, 6, "n-seg=") == 0) n = atoi(p.c_str() + 6);
    if (p.compare(0, 9, "seg-size=") == 0) {
      string v = p.substr(9);
      for (char *t = strtok(&v[0], ":"); t; t = strtok(NULL, ":")) w.push_back(atoi(t));
      n = w.size();
      int64_t sum = 0;
      for (auto x : w) sum += x;
      for (auto x : w) mx.push_back((int64_t)((double)x / sum * cap));
    } else
      for (int i = 0; i < n; i++) mx.push_back(cap / n);
    s.resize(n);
  }
  int64_t occ() override {
    int64_t t = 0;
    for (auto &q : s) t += qsum(q);
    return t;
  }
  bool fits(uint64_t, int64_t sz) override { return sz <= cap && sz <= mx[0]; }
  void evict(uint64_t, int64_t) override {
    for (auto &q : s)
      if (!q.empty()) { q.pop_back(); return; }
  }
  void shrink(int i) {  // overflow moves down; from the lowest segment objects leave
    while (qsum(s[i]) > mx[i]) {
      if (i == 0) { nev++; evict(0, 0); continue; }
      s[i - 1].splice(s[i - 1].begin(), s[i], std::prev(s[i].end()));
      shrink(i - 1);
    }
  }
  bool hit(uint64_t id) override {
    int n = s.size();
    for (int i = 0; i < n; i++) {
      auto e = qfind(s[i], id);
      if (e == s[i].end()) continue;
      int to = std::min(i + 1, n - 1);
      s[to].splice(s[to].begin(), s[i], e);
      if (to != i) shrink(to);
      return true;
    }
    return false;
  }
  void insert(uint64_t id, int64_t sz) override {
    for (size_t i = 0; i < s.size(); i++)
      if (qsum(s[i]) + sz <= mx[i]) { s[i].push_front({id, sz}); return; }
    s[0].push_front({id, sz});
  }
  bool remove(uint64_t id) override {
    for (auto &q : s) {
      auto e = qfind(q, id);
      if (e != q.end()) { q.erase(e); return true; }
    }
    return false;
  }
  void dump(std::map<uint64_t, int64_t> &m) override {
    for (auto &q : s)
      for (auto &e : q) m[e.id] = e.sz;
  }
};
// --------------------------------------------------------- frequency based
template <class P>
struct MRank : Model {  // evict the entry with the smallest (priority, tie)
  struct E {
    int64_t sz, f;
    P pri;
    int64_t tie;
  };
  std::unordered_map<uint64_t, E> o;
  std::set<std::tuple<P, int64_t, uint64_t>> order;
  int64_t clk = 0, sum = 0;
  uint64_t victim() { return std::get<2>(*order.begin()); }
  void put(uint64_t id, int64_t sz, int64_t f, P pri) {  // a new entry, or an entry's new priority
    drop(id);
    E e = {sz, f, pri, clk++};
    order.insert({pri, e.tie, id});
    o[id] = e;
    sum += sz;
  }
  bool drop(uint64_t id) {
    auto i = o.find(id);
    if (i == o.end()) return false;
    order.erase({i->second.pri, i->second.tie, id});
    sum -= i->second.sz;
    o.erase(i);
    return true;
  }
  bool remove(uint64_t id) override { return drop(id); }
  void dump(std::map<uint64_t, int64_t> &m) override {
    for (auto &p : o) m[p.first] = p.second.sz;
  }
  int64_t occ() override { return sum; }
};
struct MLfu : MRank<int64_t> {  // also LFUCpp: least frequency, then longest at that frequency
  bool hit(uint64_t id) override {
    auto i = o.find(id);
    if (i == o.end()) return false;
    E e = i->second;
    put(id, e.sz, e.f + 1, e.f + 1);
    return true;
  }
  void insert(uint64_t id, int64_t sz) override { put(id, sz, 1, 1); }
  void evict(uint64_t, int64_t) override { drop(victim()); }
};
struct MGdsf : MRank<double> {
  double age = 0;
  bool hit(uint64_t id) override {
    auto i = o.find(id);
    if (i == o.end()) return false;
    E e = i->second;
    put(id, e.sz, e.f + 1, age + (double)(e.f + 1) * 1.0e6 / (double)(e.sz - md));
    return true;
  }
  void insert(uint64_t id, int64_t sz) override { put(id, sz, 1, age + 1.0e6 / (double)(sz - md)); }
  void evict(uint64_t, int64_t) override {
    age = std::get<0>(*order.begin());
    drop(victim());
  }
};
struct MLfuda : MRank<int64_t> {  // integer priorities; age = lowest priority as last observed
  int64_t age = 0;
  static constexpr int64_t MX = INT64_MAX / 4;
  bool level_used(int64_t l) {
    auto i = order.lower_bound({l, INT64_MIN, 0});
    return i != order.end() && std::get<0>(*i) == l;
  }
  void left(int64_t level) {
    if (level == age && !level_used(level) && !order.empty()) age = std::get<0>(*order.begin());
  }
  bool hit(uint64_t id) override {
    auto i = o.find(id);
    if (i == o.end()) return false;
    E e = i->second;
    put(id, e.sz, 0, std::min(MX, e.pri + age));
    left(e.pri);
    return true;
  }
  void insert(uint64_t id, int64_t sz) override { put(id, sz, 0, std::min(MX, age + 1)); }
  void evict(uint64_t, int64_t) override {
    age = std::get<0>(*order.begin());
    drop(victim());
    left(age);
  }
  bool remove(uint64_t id) override {
    auto i = o.find(id);
    if (i == o.end()) return false;
    int64_t old = i->second.pri;
    drop(id);
    left(old);
    return true;
  }
};
// ------------------------------------------------------------ ghost queues
inline void ghost_put(Q &g, int64_t gcap, const Ent &e) {
  if (e.sz > gcap) return;
  while (qsum(g) + e.sz > gcap) g.pop_back();
  g.push_front({e.id, e.sz});
}
inline double param(const string &p, const char *key, double dflt) {
  size_t x = p.find(key);
  return x == string::npos ? dflt : atof(p.c_str() + x + strlen(key) + 1);
}
struct MTwoQ : Model {
  Q in, out, am;
  int64_t cin, cout_, cam;
  bool ghost = false;
  void init(const string &p) {
    cin = cap * param(p, "Ain-size-ratio", 0.25);
    cout_ = cap * param(p, "Aout-size-ratio", 0.5);
    cam = cap - cin;
  }
  int64_t occ() override { return qsum(in) + qsum(am); }
  bool fits(uint64_t, int64_t sz) override { return sz <= cap && sz <= cin; }
  bool hit(uint64_t id) override {
    ghost = false;
    if (qfind(in, id) != in.end()) return true;
    auto g = qfind(out, id);
    if (g != out.end()) { out.erase(g); ghost = true; }
    auto i = qfind(am, id);
    if (i == am.end()) return false;
    am.splice(am.begin(), am, i);
    return true;
  }
  void insert(uint64_t id, int64_t sz) override {
    if (ghost) {
      ghost = false;
      if (sz > cam) return;
      while (qsum(am) + sz > cam) am.pop_back();
      am.push_front({id, sz});
    } else
      in.push_front({id, sz});
  }
  void evict(uint64_t, int64_t) override {
    if (qsum(in) > cin) {
      ghost_put(out, cout_, in.back());
      in.pop_back();
    } else
      am.pop_back();
  }
  bool remove(uint64_t id) override {
    bool r = false;
    for (Q *q : {&in, &am, &out}) {
      auto i = qfind(*q, id);
      if (i != q->end()) { r = r || q != &out; q->erase(i); }
    }
    return r;
  }
  void dump(std::map<uint64_t, int64_t> &m) override {
    for (auto &e : in) m[e.id] = e.sz;
    for (auto &e : am) m[e.id] = e.sz;
  }
};
struct MS3 : Model {
  Q sm, gh, mn;
  int64_t csm, cgh, cmn, thr;
  bool ghost = false;
  void init(const string &p) {
    csm = (int64_t)cap * param(p, "fifo-size-ratio", 0.1);
    cgh = (int64_t)(cap * param(p, "ghost-size-ratio", 0.9));
    cmn = cap - csm;
    thr = (int)param(p, "move-to-main-threshold", 2);
  }
  int64_t occ() override { return qsum(sm) + qsum(mn); }
  bool fits(uint64_t, int64_t sz) override { return sz <= cap && sz <= csm; }
  bool hit(uint64_t id) override {
    ghost = false;
    auto i = qfind(sm, id);
    if (i != sm.end()) { i->f++; return true; }
    auto g = qfind(gh, id);
    if (g != gh.end()) { gh.erase(g); ghost = true; }
    i = qfind(mn, id);
    if (i == mn.end()) return false;
    i->f++;
    return true;
  }
  void insert(uint64_t id, int64_t sz) override {
    (ghost ? mn : sm).push_front({id, sz});
    ghost = false;
  }
  void evict(uint64_t, int64_t) override {
    if (qsum(mn) > cmn || sm.empty()) {
      while (!mn.empty()) {
        Ent e = mn.back();
        mn.pop_back();
        if (e.f < 1) return;
        e.f = std::min<int64_t>(e.f, 3) - 1;
        mn.push_front(e);
      }
    } else {
      while (!sm.empty()) {
        Ent e = sm.back();
        sm.pop_back();
        if (e.f < thr) {
          if (cgh > 0) ghost_put(gh, cgh, e);
          return;
        }
        e.f = 0;
        mn.push_front(e);
      }
    }
  }
  bool remove(uint64_t id) override {
    bool r = false;
    for (Q *q : {&sm, &mn, &gh}) {
      auto i = qfind(*q, id);
      if (i != q->end()) { r = r || q != &gh; q->erase(i); }
    }
    return r;
  }
  void dump(std::map<uint64_t, int64_t> &m) override {
    for (auto &e : sm) m[e.id] = e.sz;
    for (auto &e : mn) m[e.id] = e.sz;
  }
};
struct MQdlp : Model {
  Q sm, gh;
  Model *mn = nullptr;
  int64_t csm, cgh, thr;
  bool ghost = false;
  ~MQdlp() { delete mn; }
  void init(const string &p) {
    csm = (int64_t)cap * param(p, "fifo-size-ratio", 0.1);
    cgh = (int64_t)(cap * param(p, "ghost-size-ratio", 0.9));
    thr = (int)param(p, "move-to-main-threshold", 1);
    if (p.find("main-cache=Sieve") != string::npos) mn = new MSieve();
    else if (p.find("main-cache=LRU") != string::npos) mn = new MLru();
    else mn = new MClock(2);
    mn->cap = cap - csm;
  }
  int64_t occ() override { return qsum(sm) + mn->occ(); }
  bool fits(uint64_t, int64_t sz) override { return sz <= cap && sz <= csm; }
  bool hit(uint64_t id) override {
    ghost = false;
    auto i = qfind(sm, id);
    if (i != sm.end()) { i->f++; return true; }
    auto g = qfind(gh, id);
    if (g != gh.end()) { gh.erase(g); ghost = true; }
    return mn->hit(id);
  }
  void insert(uint64_t id, int64_t sz) override {
    if (ghost) mn->get(id, sz);
    else sm.push_front({id, sz});
    ghost = false;
  }
  void evict(uint64_t id, int64_t sz) override {
    if (sm.empty()) { mn->evict(id, sz); return; }
    Ent e = sm.back();
    sm.pop_back();
    if (e.f >= thr) mn->get(e.id, e.sz);
    else if (cgh > 0) ghost_put(gh, cgh, e);
  }
  bool remove(uint64_t id) override {
    bool r = false;
    auto i = qfind(sm, id);
    if (i != sm.end()) { sm.erase(i); r = true; }
    r = mn->remove(id) || r;
    i = qfind(gh, id);
    if (i != gh.end()) gh.erase(i);
    return r;
  }
  void dump(std::map<uint64_t, int64_t> &m) override {
    for (auto &e : sm) m[e.id] = e.sz;
    mn->dump(m);
  }
};
struct MArc : Model {  // Megiddo and Modha, figure 4; objects of size one
  Q t1, t2, b1, b2;
  double p = 0;
  int from = 0;
  int64_t occ() override { return t1.size() + t2.size(); }
  bool hit(uint64_t id) override {
    from = 0;
    auto i = qfind(t1, id);
    if (i != t1.end()) { t2.splice(t2.begin(), t1, i); return true; }
    i = qfind(t2, id);
    if (i != t2.end()) { t2.splice(t2.begin(), t2, i); return true; }
    i = qfind(b1, id);
    if (i != b1.end()) {
      p = std::min((double)cap, p + std::max(1.0, (double)b2.size() / b1.size()));
      b1.erase(i);
      from = 1;
      return false;
    }
    i = qfind(b2, id);
    if (i != b2.end()) {
      p = std::max(0.0, p - std::max(1.0, (double)b1.size() / b2.size()));
      b2.erase(i);
      from = 2;
    }
    return false;
  }
  void replace() {
    if (!t1.empty() && ((double)t1.size() > p || (from == 2 && (double)t1.size() == p) || t2.empty()))
      b1.splice(b1.begin(), t1, std::prev(t1.end()));
    else
      b2.splice(b2.begin(), t2, std::prev(t2.end()));
  }
  void evict(uint64_t, int64_t) override {
    if (from) { replace(); return; }
    if ((int64_t)(t1.size() + b1.size()) >= cap) {
      if (!b1.empty()) { b1.pop_back(); replace(); }
      else t1.pop_back();
    } else {
      if ((int64_t)(t1.size() + b1.size() + t2.size() + b2.size()) >= 2 * cap && !b2.empty()) b2.pop_back();
      replace();
    }
  }
  void insert(uint64_t id, int64_t sz) override { (from ? t2 : t1).push_front({id, sz}); }
  bool remove(uint64_t id) override {
    bool r = false;
    for (Q *q : {&t1, &t2, &b1, &b2}) {
      auto i = qfind(*q, id);
      if (i != q->end()) { r = r || q == &t1 || q == &t2; q->erase(i); }
    }
    return r;
  }
  void dump(std::map<uint64_t, int64_t> &m) override {
    for (auto &e : t1) m[e.id] = e.sz;
    for (auto &e : t2) m[e.id] = e.sz;
  }
};
