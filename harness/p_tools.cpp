// traceConv, tracePrint, traceFilter and distUtil against the trace they are given (C21)
#include "cli.hpp"
#include "cachepick.hpp"
#include <list>
#define V(a, kind, ...) R->viol((a), kind, __VA_ARGS__)

struct __attribute__((packed)) OG {
  uint32_t time;
  uint64_t id;
  uint32_t size;
  int64_t next;
};
static string str(const OG &o) {
  char b[160];
  snprintf(b, sizeof b, "time %u id %lu size %u next %ld", o.time, o.id, o.size, o.next);
  return b;
}
static vector<OG> parse_og(const string &s) {
  vector<OG> v(s.size() / sizeof(OG));
  if (v.size()) memcpy((void *)v.data(), s.data(), v.size() * sizeof(OG));
  return v;
}
static string boolv(Rng &r, bool b) { return b ? r.chance(0.5) ? "true" : r.chance(0.5) ? "1" : "yes" : r.chance(0.5) ? "false" : "0"; }
static vector<string> assemble(Rng &r, const vector<string> &pos, vector<vector<string>> opt) {
  for (size_t i = opt.size(); i > 1; i--) std::swap(opt[i - 1], opt[r.below(i)]);
  vector<string> a = pos;
  size_t at = r.chance(0.4) ? 0 : pos.size();
  for (auto &o : opt) { a.insert(a.begin() + at, o.begin(), o.end()); if (at) at += o.size(); }
  return a;
}
static vector<string> arg(Rng &r, const char *sh, const string &lg, const string &v) {
  if (sh && r.chance(0.5)) return {sh, v};
  return r.chance(0.5) ? vector<string>{lg + "=" + v} : vector<string>{lg, v};
}
struct In {
  string dir, kind, fmt, path;
  CliTrace c;
  vector<request_t> v;
  bool ign = false, ok = false;
  int64_t cap = -1;
  double ratio = 1;
  string rb;
  vector<vector<string>> opt;
};
// a trace and the options that all tools have
static In input(Rng &r, const char *fixfmt, bool zst, bool cap, bool ratio, bool ign, const char *subj, bool big = false) {
  In x;
  x.dir = fresh_dir("tool");
  int nreq = r.chance(0.12) ? 3 + r.below(6) : 10 + r.below(r.chance(0.4) ? 100 : 2500);
  if (big && r.chance(0.04)) nreq = 33000 + r.below(40000);
  x.fmt = fixfmt ? fixfmt : cli_formats()[r.below(cli_formats().size())];
  int nobj = 1 + r.below(r.chance(0.3) ? 4 : 400);
  vector<Rec> recs = plain_recs(r, nreq, nobj, &x.kind);
  bool bigsize = r.chance(0.1);
  if (bigsize && (x.fmt == "oracleGeneral" || x.fmt == "lcs" || x.fmt == "csv"))
    for (auto &q : recs) if (r.chance(0.3)) q.size = r.chance(0.5) ? 0xffffffffll - r.below(10) : (1ll << 31) + r.below(10) - 5;
  if (r.chance(0.3))  // sizes that change
    for (auto &q : recs) if (r.chance(0.3) && q.size < 4000) q.size = 1 + r.below(4000);
  x.c = cli_trace(r, x.fmt, recs, x.dir, r.chance(0.5), zst && r.chance(0.12));
  if (cap && r.chance(0.3)) x.cap = r.chance(0.2) ? 1 : 1 + r.below(nreq + nreq / 3);
  if (ratio && r.chance(0.2) && nobj > 20 && nreq > 100) {
    char b[32];
    snprintf(b, sizeof b, "%.3f", 0.05 + 0.44 * r.unit());
    x.rb = b;
    x.ratio = atof(b);
  } else if (ratio && r.chance(0.1)) x.rb = r.chance(0.5) ? "1" : "1.0";
  x.ign = ign && r.chance(0.25);
  string err;
  x.v = cli_read(x.c, x.ign, x.cap, x.ratio, &err);
  if (err.size()) { V("reader", "wrong-requests", "%s [%s]", err.c_str(), x.c.t.detail.c_str()); return x; }
  x.ok = !x.v.empty();
  x.path = r.chance(0.3) ? x.c.t.path.substr(x.dir.size() + 1) : x.c.t.path;
  if (x.c.opts.size()) x.opt.push_back(x.c.opts);
  if (x.cap > 0 || (cap && r.chance(0.05))) x.opt.push_back(arg(r, "-n", "--num-req", std::to_string(x.cap)));
  if (x.rb.size()) x.opt.push_back(arg(r, "-s", "--sample-ratio", x.rb));
  if (x.ign || (ign && r.chance(0.1))) x.opt.push_back({"--ignore-obj-size=" + boolv(r, x.ign)});
  return x;
}
static string out_name(Rng &r, const string &dir) {
  if (r.chance(0.1)) return string(180, 'p') + ".o";
  if (r.chance(0.5)) return dir + "/new.oracleGeneral";
  return "o1";
}
static string abs_of(const string &p, const string &dir) { return p[0] == '/' ? p : dir + "/" + p; }
static vector<string> ls(const string &d) {
  vector<string> v;
  DIR *h = opendir(d.c_str());
  if (!h) return v;
  while (struct dirent *e = readdir(h)) if (e->d_name[0] != '.') v.push_back(e->d_name);
  closedir(h);
  std::sort(v.begin(), v.end());
  return v;
}
static bool same(const char *subj, const vector<OG> &want, const vector<OG> &got, size_t bytes, const string &ctx) {
  if (bytes % sizeof(OG) || want.size() != got.size()) {
    V(subj, "wrong-count", "the output has %zu bytes instead of %zu records of %zu %s", bytes, want.size(), sizeof(OG), ctx.c_str());
    return false;
  }
  for (size_t i = 0; i < want.size(); i++)
    if (memcmp(&want[i], &got[i], sizeof(OG))) {
      bool nx = want[i].next != got[i].next;
      V(subj, nx ? "wrong-next" : "wrong-record", "record %zu of %zu is (%s) instead of (%s) %s", i, want.size(), str(got[i]).c_str(), str(want[i]).c_str(), ctx.c_str());
      return false;
    }
  count("records_compared", want.size());
  return true;
}

// ---------------------------------------------------------------- traceConv
static void case_conv(Rng &r, const char *fixfmt) {
  In x = input(r, fixfmt, false, false, true, true, "traceConv", true);
  if (!x.ok || (x.fmt[0] == 'v' && x.fmt[1] == 's' && x.v.size() < 2)) { rm_dir(x.dir); return; }
  vector<vector<string>> opt = x.opt;
  bool txt = r.chance(0.5), rsc = r.chance(0.35), given = r.chance(0.7);
  string of = x.path + ".oracleGeneral";
  if (given) { of = out_name(r, x.dir); opt.push_back(arg(r, "-o", "--output", of)); }
  if (txt || r.chance(0.1)) opt.push_back({"--output-txt=" + boolv(r, txt)});
  if (rsc || r.chance(0.1)) opt.push_back({"--remove-size-change=" + boolv(r, rsc)});
  vector<string> args = assemble(r, {x.path, x.c.type}, opt);
  string ctx = "traceConv " + join(args) + " [" + x.kind + " " + x.c.t.detail + "]";
  string before = slurp(x.c.t.path);
  Out o = run_tool("traceConv", args, x.dir);
  if (bad_run(o)) { V("traceConv", o.timeout ? "hang" : "failed", "%s %s", why(o).c_str(), ctx.c_str()); rm_dir(x.dir); return; }
  vector<OG> want(x.v.size());
  {
    std::unordered_map<uint64_t, size_t> nx;
    std::unordered_map<uint64_t, uint32_t> sz;
    for (size_t i = x.v.size(); i-- > 0;) {
      auto &q = x.v[i];
      auto it = nx.find(q.obj_id);
      want[i] = OG{(uint32_t)q.clock_time, q.obj_id, (uint32_t)q.obj_size, it == nx.end() ? -1 : (int64_t)it->second + 1};
      nx[q.obj_id] = i;
    }
    if (rsc) for (auto &w : want) w.size = sz.emplace((uint64_t)w.id, (uint32_t)w.size).first->second;
  }
  of = abs_of(of, x.dir);
  string got = slurp(of);
  bool ok = same("traceConv", want, parse_og(got), got.size(), ctx);
  if (ok) {
    for (auto &w : want) if (w.next != -1) { count("nontrivial"); break; }
    string tx;
    for (auto &w : want) { char b[160]; snprintf(b, sizeof b, "%u,%lu,%u,%ld\n", w.time, w.id, w.size, w.next); tx += b; }
    if (txt && slurp(of + ".txt") != tx) V("traceConv", "wrong-text", "the text output differs from the binary output %s", ctx.c_str());
    if (!txt && !access((of + ".txt").c_str(), F_OK)) V("traceConv", "wrong-text", "a text output although none was asked for %s", ctx.c_str());
    if (!access((of + ".reverse").c_str(), F_OK)) V("traceConv", "left-over", "the temporary file is left %s", ctx.c_str());
    if (slurp(x.c.t.path) != before) V("traceConv", "input-changed", "the input trace changed %s", ctx.c_str());
    // the library reads the same requests from the output
    reader_t *rd = setup_reader(of.c_str(), ORACLE_GENERAL_TRACE, nullptr);
    request_t *q = new_request();
    size_t n = 0;
    while (read_one_req(rd, q) == 0) {
      if (n >= want.size()) break;
      auto &w = want[n];
      if (q->obj_id != w.id || q->obj_size != w.size || q->clock_time != w.time || (q->next_access_vtime != w.next && !(w.next == -1 && q->next_access_vtime == MAX_REUSE_DISTANCE))) {
        V("traceConv", "reads-differently", "request %zu of the converted trace is read as id %lu size %ld time %ld next %ld instead of %s %s", n, q->obj_id, (long)q->obj_size, (long)q->clock_time, (long)q->next_access_vtime, str(w).c_str(), ctx.c_str());
        break;
      }
      n++;
    }
    if (n != want.size()) V("traceConv", "reads-differently", "%zu of %zu requests can be read from the converted trace %s", n, want.size(), ctx.c_str());
    free_request(q);
    close_reader(rd);
  }
  count("requests", x.v.size());
  sample("%.300s", ctx.c_str());
  rm_dir(x.dir);
}
// --------------------------------------------------------------- tracePrint
static void case_print(Rng &r, const char *fixfmt) {
  In x = input(r, fixfmt, true, true, true, true, "tracePrint", true);
  if (!x.ok) { rm_dir(x.dir); return; }
  vector<vector<string>> opt = x.opt;
  bool only = r.chance(0.2), b32 = r.chance(0.2);
  char dl = ',';
  if (r.chance(0.3)) { dl = " ;|\t:"[r.below(5)]; opt.push_back({string("--field-delimiter=") + dl}); }
  if (only || r.chance(0.05)) opt.push_back({string("--obj-id-only=") + (only ? "1" : "0")});
  if (b32 || r.chance(0.05)) opt.push_back({string("--obj-id-32bit=") + (b32 ? "1" : "0")});
  vector<string> args = assemble(r, {x.path, x.c.type}, opt);
  string ctx = "tracePrint " + join(args) + " [" + x.kind + " " + x.c.t.detail + "]";
  Out o = run_tool("tracePrint", args, x.dir);
  if (bad_run(o)) { V("tracePrint", o.timeout ? "hang" : "failed", "%s %s", why(o).c_str(), ctx.c_str()); rm_dir(x.dir); return; }
  vector<string> got, want;
  for (auto &l : lines_of(o.out)) if (l.size() && (l[0] == '#' || l[0] == '-' || isdigit(l[0]))) got.push_back(l);  // no log lines
  bool next = x.v[0].next_access_vtime != -2;
  if (!only) want.push_back(next ? "# time,object,size,next_access_vtime" : "# time,object,size");
  for (auto &q : x.v) {
    char b[200];
    unsigned long id = b32 ? (uint32_t)q.obj_id : q.obj_id;
    if (only) snprintf(b, sizeof b, "%lu", id);
    else {
      int n = snprintf(b, sizeof b, "%ld%c%lu%c%ld", (long)q.clock_time, dl, id, dl, (long)q.obj_size);
      if (next) snprintf(b + n, sizeof b - n, "%c%ld", dl, (long)q.next_access_vtime);
    }
    want.push_back(b);
  }
  for (size_t i = 0; i < std::min(got.size(), want.size()); i++)
    if (got[i] != want[i]) { V("tracePrint", "wrong-line", "line %zu is '%s' instead of '%s' %s", i, got[i].c_str(), want[i].c_str(), ctx.c_str()); rm_dir(x.dir); return; }
  if (got.size() != want.size()) V("tracePrint", "wrong-count", "%zu lines instead of %zu %s", got.size(), want.size(), ctx.c_str());
  else count("nontrivial"), count("records_compared", want.size());
  count("requests", x.v.size());
  sample("%.300s", ctx.c_str());
  rm_dir(x.dir);
}
// -------------------------------------------------------------- traceFilter
static void case_filter(Rng &r, const char *fixfmt) {
  In x = input(r, fixfmt, true, false, true, true, "traceFilter", true);
  if (!x.ok) { rm_dir(x.dir); return; }
  for (auto &q : x.v) if (q.obj_size > 0x7fffffffll) { rm_dir(x.dir); return; }  // the object record of a cache has 32 bits
  vector<vector<string>> opt = x.opt;
  int64_t wobj = 0, wbyte = 0, mx = 1;
  {
    std::unordered_set<uint64_t> seen;
    for (auto &q : x.v) {
      mx = std::max<int64_t>(mx, q.obj_size);
      if (seen.insert(q.obj_id).second) wobj++, wbyte += q.obj_size;
    }
  }
  static const char *an[] = {"LRU", "FIFO", "lru", "fifo", "Fifo"};
  string type = "FIFO", sz = "0.1";
  if (r.chance(0.85)) { type = an[r.below(5)]; opt.push_back({"--filter-type=" + type}); }
  int64_t wss = x.ign ? wobj : wbyte;
  uint64_t size;
  if (r.chance(0.85)) {
    char b[64];
    if (r.chance(0.6)) {
      snprintf(b, sizeof b, "%.4f", r.chance(0.2) ? 0.999 : 0.005 + 0.9 * r.unit() * r.unit());
    } else
      snprintf(b, sizeof b, "%ld", (long)std::max<uint64_t>(1, r.chance(0.2) ? r.below(2 * mx) : (uint64_t)(wss * 1.3 * r.unit())));
    sz = b;
    opt.push_back({"--filter-size=" + sz});
  }
  size = atof(sz.c_str()) < 1 ? (uint64_t)(wss * atof(sz.c_str())) : (uint64_t)atof(sz.c_str());
  if (!size) { rm_dir(x.dir); return; }
  string base = x.c.t.path.substr(x.c.t.path.rfind('/') + 1);
  string of = base + ".filter_" + type + "_" + std::to_string(size) + ".oracleGeneral";
  if (r.chance(0.6)) { of = out_name(r, x.dir); opt.push_back(arg(r, "-o", "--output", of)); }
  vector<string> args = assemble(r, {x.path, x.c.type}, opt);
  string ctx = "traceFilter " + join(args) + " [" + x.kind + " " + x.c.t.detail + "]";
  Out o = run_tool("traceFilter", args, x.dir);
  if (bad_run(o)) { V("traceFilter", o.timeout ? "hang" : "failed", "%s %s", why(o).c_str(), ctx.c_str()); rm_dir(x.dir); return; }
  // naive LRU and FIFO
  std::list<std::pair<uint64_t, int64_t>> q;  // newest first
  std::unordered_map<uint64_t, decltype(q)::iterator> in;
  int64_t occ = 0;
  bool lru = type[0] == 'L' || type[0] == 'l';
  vector<OG> want;
  size_t hits = 0;
  for (auto &a : x.v) {
    auto it = in.find(a.obj_id);
    if (it != in.end()) {
      hits++;
      if (lru) q.splice(q.begin(), q, it->second);
      continue;
    }
    want.push_back(OG{(uint32_t)(a.clock_time - x.v[0].clock_time), a.obj_id, (uint32_t)a.obj_size, -2});
    if ((uint64_t)a.obj_size > size) continue;
    while (occ + a.obj_size > (int64_t)size) {
      occ -= q.back().second;
      in.erase(q.back().first);
      q.pop_back();
    }
    q.push_front({a.obj_id, a.obj_size});
    in[a.obj_id] = q.begin();
    occ += a.obj_size;
  }
  string got = slurp(abs_of(of, x.dir));
  if (access(abs_of(of, x.dir).c_str(), F_OK)) V("traceFilter", "no-output", "there is no output file %s, but %s %s", of.c_str(), join(ls(x.dir)).c_str(), ctx.c_str());
  else if (same("traceFilter", want, parse_og(got), got.size(), ctx) && hits) count("nontrivial"), count("hits_filtered", hits);
  count("requests", x.v.size());
  sample("%.300s", ctx.c_str());
  rm_dir(x.dir);
}
// ----------------------------------------------------------------- distUtil
static void case_dist(Rng &r, const char *fixfmt) {
  In x = input(r, fixfmt, true, true, false, false, "distUtil");
  if (!x.ok) { rm_dir(x.dir); return; }
  for (auto &q : x.v) if (q.obj_size == 0) { rm_dir(x.dir); return; }
  vector<vector<string>> opt = x.opt;
  static const char *tn[] = {"stack_dist", "future_stack_dist", "dist_since_last_access", "dist_since_first_access"};
  static const dist_type_e te[] = {STACK_DIST, FUTURE_STACK_DIST, DIST_SINCE_LAST_ACCESS, DIST_SINCE_FIRST_ACCESS};
  static const char *ot[] = {"binary", "txt", "cntTxt"};
  int k = r.below(4), w = r.below(3);
  string of = r.chance(0.9) ? out_name(r, x.dir) : "";
  if (r.chance(0.2)) opt.push_back({"--verbose=" + boolv(r, r.chance(0.5))});
  string tns = tn[k], ots = ot[w];
  if (r.chance(0.2)) for (auto &ch : tns) ch = toupper(ch);
  if (r.chance(0.2)) for (auto &ch : ots) ch = toupper(ch);
  vector<string> args = assemble(r, {x.path, x.c.type, tns, ots, of}, opt);
  string ctx = "distUtil " + join(args) + " [" + x.kind + " " + x.c.t.detail + "]";
  Out o = run_tool("distUtil", args, x.dir);
  if (bad_run(o)) { V("distUtil", o.timeout ? "hang" : "failed", "%s %s", why(o).c_str(), ctx.c_str()); rm_dir(x.dir); return; }
  size_t n = x.v.size();
  vector<int32_t> want(n, -1);
  std::unordered_map<uint64_t, size_t> last, first;
  size_t reuse = 0;
  for (size_t i = 0; i < n; i++) {
    uint64_t id = x.v[i].obj_id;
    auto it = last.find(id);
    if (it == last.end()) first[id] = i;
    else {
      reuse++;
      size_t p = it->second;
      if (k == 2) want[i] = i - p;
      else if (k == 3) want[i] = i - first[id];
      else {
        std::unordered_set<uint64_t> s;
        for (size_t j = p + 1; j < i; j++) s.insert(x.v[j].obj_id);
        want[k == 0 ? i : p] = s.size();
      }
    }
    last[id] = i;
  }
  if (of.empty()) of = x.c.t.path.substr(x.c.t.path.rfind('/') + 1) + ".dist";
  of = abs_of(of, x.dir) + "." + g_dist_type_name[te[k]] + (w == 0 ? "" : w == 1 ? ".txt" : ".cnt");
  string got = slurp(of);
  if (access(of.c_str(), F_OK)) V("distUtil", "no-output", "there is no output file %s, but %s %s", of.c_str(), join(ls(x.dir)).c_str(), ctx.c_str());
  else if (w == 0) {
    if (got.size() != 4 * n) V("distUtil", "wrong-count", "%zu bytes for %zu requests %s", got.size(), n, ctx.c_str());
    else
      for (size_t i = 0; i < n; i++) {
        int32_t g;
        memcpy(&g, got.data() + 4 * i, 4);
        if (g != want[i]) { V("distUtil", "wrong-distance", "request %zu of %zu has %s %d instead of %d %s", i, n, tn[k], g, want[i], ctx.c_str()); break; }
      }
  } else if (w == 1) {
    vector<string> L = lines_of(got);
    if (L.size() != n) V("distUtil", "wrong-count", "%zu lines for %zu requests %s", L.size(), n, ctx.c_str());
    else
      for (size_t i = 0; i < n; i++)
        if (L[i] != std::to_string(want[i])) { V("distUtil", "wrong-distance", "request %zu of %zu has %s %s instead of %d %s", i, n, tn[k], L[i].c_str(), want[i], ctx.c_str()); break; }
  } else {
    std::map<int64_t, long> wc, gc;
    for (auto d : want) wc[d == -1 ? INT64_MAX : d]++;
    const char *p = got.c_str();
    while (*p) {
      char *e;
      long d = strtol(p, &e, 10);
      if (e == p || *e != ':') { V("distUtil", "wrong-output", "the counts have the wrong form: %.100s %s", got.c_str(), ctx.c_str()); break; }
      long c2 = strtol(e + 1, &e, 10);
      gc[d == -1 ? INT64_MAX : d] += c2;
      p = e;
      while (*p == ',' || *p == ' ' || *p == '\n') p++;
    }
    if (gc != wc) {
      string df;
      for (auto &z : wc) if (gc[z.first] != z.second) { df = "distance " + std::to_string(z.first) + " is counted " + std::to_string(gc[z.first]) + " times instead of " + std::to_string(z.second); break; }
      V("distUtil", "wrong-counts", "%s %s", df.size() ? df.c_str() : "a distance that does not occur is counted", ctx.c_str());
    }
  }
  count("distances_compared", n);
  if (reuse) count("nontrivial");
  count("requests", n);
  sample("%.300s", ctx.c_str());
  rm_dir(x.dir);
}
void register_cases(vector<Case> &cs) {
  typedef void (*F)(Rng &, const char *);
  static const std::pair<const char *, F> tools[] = {{"traceConv", case_conv}, {"tracePrint", case_print}, {"traceFilter", case_filter}, {"distUtil", case_dist}};
  std::set<string> fs(cli_formats().begin(), cli_formats().end());
  for (auto &t : tools) {
    F f = t.second;
    for (int i = 0; i < ncase(160, 2500); i++) cs.push_back({t.first, O.seed * 1000003ull + i, [f](Rng &r) { f(r, nullptr); }});
    for (auto &m : fs) {
      string k = m;
      for (int i = 0; i < ncase(14, 200); i++) cs.push_back({string(t.first) + "/" + m, O.seed * 1000003ull + i, [f, k](Rng &r) { f(r, k.c_str()); }});
    }
  }
}
