// traceAnalyzer against an exact count over the trace (C22)
#include "cli.hpp"
#include "cachepick.hpp"
#include <map>
#include <set>
#define V(kind, ...) R->viol("traceAnalyzer", kind, __VA_ARGS__)

static string f4(double x) {
  char b[64];
  snprintf(b, sizeof b, "%.4f", x);
  return b;
}
static string ratio_of(uint64_t a, double b) { return std::to_string(a) + "(" + f4(a / b) + ")"; }
// equal up to the last printed digit of numbers
static bool same_text(const string &a, const string &b) {
  const char *p = a.c_str(), *q = b.c_str();
  while (*p || *q) {
    bool dp = isdigit(*p) || (*p == '-' && isdigit(p[1])), dq = isdigit(*q) || (*q == '-' && isdigit(q[1]));
    if (dp != dq) return false;
    if (dp) {
      char *e1, *e2;
      double x = strtod(p, &e1), y = strtod(q, &e2);
      if (fabs(x - y) > 1.01e-4 + 1e-9 * fabs(x)) return false;
      p = e1;
      q = e2;
    } else {
      if (*p != *q) return false;
      p++, q++;
    }
  }
  return true;
}
static bool ttl_has(const string &g, long ttl, long cnt, long n) {
  string k = " " + std::to_string(ttl) + ":" + std::to_string(cnt) + "(";
  size_t p = g.find(k);
  return p != string::npos && fabs(atof(g.c_str() + p + k.size()) - (double)cnt / n) <= 1.01e-4;
}
static string num_list(const vector<long> &v) {
  string s;
  for (auto x : v) s += std::to_string(x) + ",";
  return s.size() > 300 ? s.substr(0, 300) + "..." : s;
}
static bool parse_list(const string &l, vector<long> *v) {
  const char *p = l.c_str();
  while (*p) {
    char *e;
    long x = strtol(p, &e, 10);
    if (e == p) return false;
    v->push_back(x);
    p = e;
    while (*p == ',' || *p == ' ') p++;
  }
  return true;
}
static void strip0(vector<long> &v) { while (v.size() && v.back() == 0) v.pop_back(); }
struct Sect { string head; vector<string> lines; };
// comment lines start a section
static vector<Sect> sections(const string &text) {
  vector<Sect> s;
  bool incomment = false;
  for (auto &l : lines_of(text)) {
    if (l.size() && l[0] == '#') {
      if (!incomment) s.push_back({});
      s.back().head = l;
      incomment = true;
      continue;
    }
    incomment = false;
    if (s.empty()) s.push_back({});
    s.back().lines.push_back(l);
  }
  return s;
}
static string map_diff(const std::map<long, long> &want, const vector<string> &lines) {
  std::map<long, long> got;
  for (auto &l : lines) {
    if (l.empty()) continue;
    long a, b;
    if (sscanf(l.c_str(), "%ld:%ld", &a, &b) != 2) return "cannot read the line '" + l + "'";
    if (got.count(a)) return std::to_string(a) + " occurs twice";
    got[a] = b;
  }
  for (auto &x : want)
    if (!got.count(x.first) || got[x.first] != x.second) return "the count of " + std::to_string(x.first) + " is " + std::to_string(got.count(x.first) ? got[x.first] : 0) + " instead of " + std::to_string(x.second);
  for (auto &x : got)
    if (!want.count(x.first)) return std::to_string(x.first) + " is counted " + std::to_string(x.second) + " times, but does not occur";
  count("counts_compared", want.size());
  return "";
}
// one list of numbers per line; trailing zeros do not count
static string lists_diff(vector<vector<long>> want, const vector<string> &lines, bool zeros = false) {
  vector<vector<long>> got;
  for (auto &l : lines) {
    vector<long> v;
    if (!parse_list(l, &v)) return "cannot read the line '" + l + "'";
    got.push_back(v);
  }
  if (got.size() != want.size()) return std::to_string(got.size()) + " lines instead of " + std::to_string(want.size());
  for (size_t i = 0; i < got.size(); i++) {
    if (!zeros) strip0(got[i]), strip0(want[i]);
    if (got[i] != want[i]) return "line " + std::to_string(i) + " is " + num_list(got[i]) + " instead of " + num_list(want[i]);
    count("counts_compared", got[i].size());
  }
  return "";
}

static void case_ana(Rng &r, const char *fixfmt, int task) {
  string dir = fresh_dir("ana"), kind;
  string fmt = fixfmt ? fixfmt : cli_formats()[r.below(cli_formats().size())];
  int nreq = r.chance(0.12) ? 3 + r.below(8) : r.chance(0.5) ? 20 + r.below(400) : 500 + r.below(6000);
  int nobj = 1 + r.below(r.chance(0.25) ? 9 : r.chance(0.4) ? 60 : 1200);
  vector<Rec> recs = plain_recs(r, nreq, nobj, &kind);
  if (r.chance(0.5)) {  // other speeds, jumps
    int mode = r.below(3);
    int64_t t = recs[0].time, step = 1 + r.below(mode == 0 ? 3 : 400);
    for (auto &q : recs) {
      q.time = t;
      t += mode == 1 ? (r.chance(0.05) ? step * (1 + r.below(40)) : 0) : r.below(step + 1);
    }
  }
  if (r.chance(0.2))
    for (auto &q : recs) if (r.chance(0.2)) q.size = 1 + r.below(5000);
  if (r.chance(0.2)) {  // ttls
    int nt = 1 + r.below(5);
    for (auto &q : recs) q.ttl = 10 * (1 + r.below(nt));
  }
  CliTrace c = cli_trace(r, fmt, recs, dir, r.chance(0.5), r.chance(0.1));
  Trace &t = c.t;
  int64_t cap = r.chance(0.15) ? 1 + r.below(nreq + nreq / 4) : -1;
  string err;
  vector<request_t> v = cli_read(c, false, cap, 1, &err);
  if (err.size()) { V("wrong-requests", "%s [%s]", err.c_str(), t.detail.c_str()); rm_dir(dir); return; }
  if (v.empty()) { rm_dir(dir); return; }
  for (auto &q : v) if (q.obj_size == 0 || q.obj_size > 0xffffffffll) { rm_dir(dir); return; }
  for (size_t i = 1; i < v.size(); i++) if (v[i].clock_time < v[i - 1].clock_time) { rm_dir(dir); return; }
  int64_t t0 = v[0].clock_time, span = v.back().clock_time - t0;
  if (span > 2000000000 || span < 0) { rm_dir(dir); return; }
  // ------------------------------------------------ options
  vector<vector<string>> opt;
  if (c.opts.size()) opt.push_back(c.opts);
  if (cap > 0) opt.push_back(r.chance(0.5) ? vector<string>{"-n", std::to_string(cap)} : vector<string>{"--num-req=" + std::to_string(cap)});
  enum { POP = 1, DECAY = 2, REUSE = 4, SIZE = 8, RATE = 16, PAT = 32, TTL = 64 };
  static const char *fl[] = {"--popularity", "--popularityDacay", "--reuse", "--size", "--reqRate", "--accessPattern", "--ttl"};
  int on = 0;
  auto one = [&](int k) { on |= 1 << k; opt.push_back({fl[k]}); };
  if (task >= 0) one(task);
  else if (r.chance(0.25)) { opt.push_back({"--common"}); on |= POP | REUSE | SIZE | RATE | PAT; }
  else if (r.chance(0.3)) { opt.push_back({"--all"}); on |= POP | REUSE | SIZE | RATE | PAT | DECAY; }
  else
    for (int k = 0; k < 7; k++) if (r.chance(0.35)) one(k);
  if (on && r.chance(0.1)) one(r.below(7));
  int tw = 300, warm = 86400, nhit = 8, npop = 8;
  // windows: at most some thousands
  if (r.chance(0.8)) {
    tw = std::max<int64_t>(1, r.chance(0.1) ? span + 1 + r.below(3) : span / (1 + r.below(60)) + (int)r.below(3));
    if (r.chance(0.2) && span > 0 && span < 3000) tw = 1;
    warm = tw * (r.chance(0.2) ? 0 : r.below(r.chance(0.7) ? 6 : 40));
    opt.push_back({"--time-window=" + std::to_string(tw)});
    opt.push_back({"--warmup-sec=" + std::to_string(warm)});
  } else if (r.chance(0.5)) {
    warm = 300 * r.below(10);
    opt.push_back({"--warmup-sec=" + std::to_string(warm)});
  }
  if (span / tw > 5000) { rm_dir(dir); return; }
  int inv = 101;
  if (r.chance(0.7)) {
    static const char *s[] = {"0.5", "0.4", "0.3", "0.2", "0.1", "0.03", "0.9", "0.001"};
    const char *x = s[r.below(8)];
    inv = (int)(1.0 / atof(x)) + 1;
    opt.push_back({string("--access-pattern-sample-ratio=") + x});
  }
  if (r.chance(0.3)) opt.push_back({"--track-n-hit=" + std::to_string(nhit = r.chance(0.2) ? 1 : 1 + r.below(30))});
  if (r.chance(0.3)) opt.push_back({"--track-n-popular=" + std::to_string(npop = r.chance(0.2) ? 1 : 1 + r.below(40))});
  string base = t.path.substr(t.path.rfind('/') + 1), of = base;
  if (r.chance(0.3)) {
    of = r.chance(0.15) ? string(170, 'q') : r.chance(0.5) ? "out" : dir + "/some.out";
    opt.push_back(r.chance(0.4) ? vector<string>{"-o", of} : r.chance(0.5) ? vector<string>{"--output=" + of} : vector<string>{"--output", of});
  }
  if (r.chance(0.1)) opt.push_back({r.chance(0.5) ? "-v" : "--verbose"});
  for (size_t i = opt.size(); i > 1; i--) std::swap(opt[i - 1], opt[r.below(i)]);
  string path = r.chance(0.3) ? t.path.substr(dir.size() + 1) : t.path;
  vector<string> args = {path, c.type};
  size_t at = r.chance(0.3) ? 0 : 2;
  for (auto &o : opt) { args.insert(args.begin() + at, o.begin(), o.end()); if (at) at += o.size(); }
  // ------------------------------------------------ the exact count
  size_t N = v.size();
  struct Obj { long freq, size1, last; int64_t created, lastt; vector<long> rt, vt; };
  std::unordered_map<uint64_t, Obj> om;
  size_t W = span / tw;  // complete windows
  vector<long> w_req(W + 1), w_obj(W + 1), w_new(W + 1), w_byte(W + 1);
  vector<std::map<long, long>> w_sreq(W + 1), w_sobj(W + 1), w_rt(W + 1), w_vt(W + 1);
  std::map<long, long> s_req, s_obj, r_rt, r_vt, ttl, op;
  uint64_t req_byte = 0, obj_byte = 0, over = 0;
  // popularity decay: windows after the warm-up
  long k0 = warm / tw, lastw = -1;
  vector<std::map<long, long>> dec(W + 1);
  for (size_t i = 0; i < N; i++) {
    auto &q = v[i];
    int64_t tm = q.clock_time - t0;
    size_t w = tm / tw;
    auto it = om.find(q.obj_id);
    bool nw = it == om.end(), first_in_w = nw || (size_t)(it->second.lastt / tw) != w;
    req_byte += q.obj_size;
    long bin = std::max(0, (int)(log((double)q.obj_size) / log(1.5)));
    w_req[w]++, w_byte[w] += q.obj_size, w_obj[w] += first_in_w, w_new[w] += nw;
    s_req[q.obj_size]++;
    if (nw) s_obj[q.obj_size]++;
    w_sreq[w][bin]++;
    if (first_in_w) w_sobj[w][bin]++;
    op[q.op]++;
    if (q.ttl > 0) ttl[q.ttl]++;
    if (nw) {
      it = om.insert({q.obj_id, Obj{0, (long)q.obj_size, 0, tm, 0}}).first;
      obj_byte += q.obj_size;
      r_rt[-1]++, r_vt[-1]++;
    } else {
      if (q.op == OP_SET || q.op == OP_REPLACE || q.op == OP_CAS) over++;
      long a = (tm - it->second.lastt) / 5, b = (int)(log((double)(i - it->second.last)) / log(1.5));
      r_rt[a]++, r_vt[b]++;
      w_rt[w][a]++, w_vt[w][b]++;
    }
    Obj &o = it->second;
    o.freq++;
    o.last = i;
    o.lastt = tm;
    o.rt.push_back(tm);
    o.vt.push_back(i + 1);
    if (tm >= warm && o.created / tw >= k0) {
      lastw = w;
      if (first_in_w) dec[w][o.created / tw - k0]++;
    }
  }
  double M = om.size();
  vector<long> freq;
  for (auto &o : om) freq.push_back(o.second.freq);
  std::sort(freq.rbegin(), freq.rend());
  // ------------------------------------------------ run
  string ctx = "traceAnalyzer " + join(args) + " [" + kind + " " + t.detail + "]";
  Out o = run_tool("traceAnalyzer", args, dir);
  if (bad_run(o)) { V(o.timeout ? "hang" : "failed", "%s %s", why(o).c_str(), ctx.c_str()); rm_dir(dir); return; }
  vector<string> st = lines_of(slurp(dir + "/stat"));
  auto line = [&](const string &pre) -> const string * {
    for (auto &l : st) if (l.compare(0, pre.size(), pre) == 0) return &l;
    return nullptr;
  };
  vector<string> want;
  want.push_back("dat: " + path);
  want.push_back("number of requests: " + std::to_string(N) + ", number of objects: " + std::to_string(om.size()));
  double G = 1024.0 * 1024 * 1024;
  want.push_back("number of req GiB: " + f4(req_byte / G) + ", number of obj GiB: " + f4(obj_byte / G));
  want.push_back("compulsory miss ratio (req/byte): " + f4(M / N) + "/" + f4((double)obj_byte / req_byte));
  want.push_back("object size weighted by req/obj: " + std::to_string((long)((double)req_byte / N)) + "/" + std::to_string((long)((double)obj_byte / M)));
  want.push_back("frequency mean: " + f4(N / M));
  want.push_back("time span: " + std::to_string(span) + "(" + f4(span / 86400.0) + " day)");
  if (req_byte / N > 0x7fffffff || obj_byte / M > 0x7fffffff) want.erase(want.begin() + 4);
  if ((uint64_t)op[OP_INVALID] < N / 2) {
    string s = "op: ";
    for (int i = 0; i < OP_INVALID + 1; i++) s += string(req_op_str[i]) + ":" + ratio_of(op[i], N) + ", ";
    want.push_back(s);
  }
  uint64_t wr = op[OP_SET] + op[OP_REPLACE] + op[OP_CAS];
  want.push_back("write: " + ratio_of(wr, N) + ", overwrite: " + ratio_of(over, N) + ", del:" + ratio_of(op[OP_DELETE], N));
  if (on & RATE && W > 0) {
    auto mm = std::minmax_element(w_req.begin(), w_req.begin() + W);
    auto mo = std::minmax_element(w_obj.begin(), w_obj.begin() + W);
    want.push_back("request rate min " + f4((double)*mm.first / tw) + " req/s, max " + f4((double)*mm.second / tw) + " req/s, window " + std::to_string(tw) + "s");
    want.push_back("object rate min " + f4((double)*mo.first / tw) + " obj/s, max " + f4((double)*mo.second / tw) + " obj/s, window " + std::to_string(tw) + "s");
  }
  string x = "X-hit (number of obj accessed X times): ";
  for (int k = 1; k <= nhit; k++) x += ratio_of(std::count(freq.begin(), freq.end(), k), M) + ", ";
  want.push_back(x);
  if (on & POP) {
    x = "freq (fraction) of the most popular obj: ";
    for (int k = 0; k < npop; k++) x += ratio_of(k < (int)freq.size() ? freq[k] : 0, N) + ", ";
    want.push_back(x);
  }
  bool ok = true;
  auto bad = [&](const char *kd, const string &d) { if (ok) V(kd, "%s %s", d.c_str(), ctx.c_str()); ok = false; };
  for (auto &w : want) {
    size_t p = w.find(':');
    if (w.compare(0, 4, "requ") == 0 || w.compare(0, 8, "object r") == 0) p = w.find(" min") - 1;
    const string *g = line(w.substr(0, p + 1));
    if (!g) bad("no-statistic", "the statistics have no line '" + w + "'");
    else if (!same_text(*g, w)) bad("wrong-statistic", "'" + g->substr(0, 400) + "' instead of '" + w.substr(0, 400) + "'");
    if (!ok) { rm_dir(dir); return; }
    count("statistics_compared");
  }
  if (on & POP) {
    const string *g = line("popularity: ");
    if (freq.size() >= 200 && freq[0] >= 200) {
      double sx = 0, sy = 0, sxx = 0, sxy = 0, n = freq.size();
      for (size_t i = 0; i < freq.size(); i++) {
        double a = log(i + 1.0), b = log((double)freq[i]);
        sx += a, sy += b, sxx += a * a, sxy += a * b;
      }
      double s = -(n * sxy - sx * sy) / (n * sxx - sx * sx);
      const char *q = g ? strstr(g->c_str(), "slope=") : nullptr;
      if (!q || fabs(atof(q + 6) - s) > 2e-4) bad("wrong-statistic", string("popularity '") + (g ? *g : "") + "' instead of slope " + f4(s));
      count("slopes_compared");
    } else if (g && g->find("slope=") != string::npos)
      bad("wrong-statistic", "a slope although there are " + std::to_string(freq.size()) + " objects and the most popular has " + std::to_string(freq[0]) + " requests");
  }
  if (on & TTL && ttl.size() > 1) {
    long n = 0;
    for (auto &z : ttl) n += z.second;
    const string *g = line("TTL: ");
    string s = "TTL: " + std::to_string(ttl.size()) + " different TTLs, ";
    if (!g || g->compare(0, s.size(), s)) bad("wrong-statistic", string("'") + (g ? *g : "") + "' instead of '" + s + "'");
    else
      for (auto &z : ttl)
        if (z.second > n * 0.01 + 1 && !ttl_has(*g, z.first, z.second, n)) bad("wrong-statistic", "'" + *g + "' lacks " + std::to_string(z.first) + ":" + ratio_of(z.second, n));
  }
  // the statistics on stdout and in traceStat
  vector<string> ts = lines_of(slurp(dir + "/traceStat")), so = lines_of(o.out);
  auto has = [&](vector<string> &L) {
    size_t j = 0;
    for (auto &l : st) {
      if (l.empty()) continue;
      while (j < L.size() && L[j] != l) j++;
      if (j == L.size()) return false;
    }
    return true;
  };
  if (!has(ts)) bad("other-statistics", "traceStat differs from stat");
  if (!has(so)) bad("other-statistics", "what is printed differs from stat");
  // ------------------------------------------------ files
  string ob = of[0] == '/' ? of : dir + "/" + of;
  auto file = [&](const string &ext, size_t nsec) -> vector<Sect> {
    if (access((ob + ext).c_str(), F_OK)) { bad("no-file", "there is no file " + ext); return vector<Sect>(nsec); }
    vector<Sect> s = sections(slurp(ob + ext));
    if (s.size() > nsec) bad("wrong-file", ext + " has " + std::to_string(s.size()) + " sections");
    s.resize(nsec);
    return s;
  };
  auto chk = [&](const string &what, const string &d) { if (d.size()) bad("wrong-file", what + ": " + d); };
  auto lists = [&](vector<std::map<long, long>> &m) {
    vector<vector<long>> l;
    for (size_t w = 0; w < W; w++) {
      vector<long> a;
      for (auto &z : m[w]) {
        if ((long)a.size() <= z.first) a.resize(z.first + 1);
        a[z.first] = z.second;
      }
      l.push_back(a);
    }
    return l;
  };
  string tws = std::to_string(tw);
  if (ok && on & POP) {
    auto s = file(".popularity", 1);
    std::map<long, long> m;
    for (auto f : freq) m[f]++;
    chk(".popularity", map_diff(m, s[0].lines));
    long prev = LONG_MAX;
    for (auto &l : s[0].lines) {
      if (atol(l.c_str()) > prev) chk(".popularity", "not sorted");
      prev = atol(l.c_str());
    }
    count("popularity");
  }
  if (ok && on & SIZE) {
    auto s = file(".size", 2);
    chk(".size per request", map_diff(s_req, s[0].lines));
    chk(".size per object", map_diff(s_obj, s[1].lines));
    chk(".sizeWindow_req", lists_diff(lists(w_sreq), file(".sizeWindow_w" + tws + "_req", 1)[0].lines));
    chk(".sizeWindow_obj", lists_diff(lists(w_sobj), file(".sizeWindow_w" + tws + "_obj", 1)[0].lines));
    count("size");
  }
  if (ok && on & REUSE) {
    auto s = file(".reuse", 2);
    chk(".reuse real time", map_diff(r_rt, s[0].lines));
    chk(".reuse virtual time", map_diff(r_vt, s[1].lines));
    chk(".reuseWindow_rt", lists_diff(lists(w_rt), file(".reuseWindow_w" + tws + "_rt", 1)[0].lines));
    chk(".reuseWindow_vt", lists_diff(lists(w_vt), file(".reuseWindow_w" + tws + "_vt", 1)[0].lines));
    count("reuse");
  }
  if (ok && on & RATE) {
    auto s = file(".reqRate_w" + tws, 4);
    vector<long> *src[] = {&w_req, &w_byte, &w_obj, &w_new};
    static const char *nm[] = {"request rate", "byte rate", "object rate", "new object rate"};
    for (int k = 0; k < 4; k++) {
      vector<long> a;
      for (size_t w = 0; w < W; w++) a.push_back((*src[k])[w] / tw);
      vector<string> L;
      for (auto &l : s[k].lines) if (l.size()) L.push_back(l);
      vector<vector<long>> want = {a};
      if (a.empty()) want.clear();
      chk(string(".reqRate ") + nm[k], lists_diff(want, L, true));
    }
    count("reqRate");
    if (W) count("windows", W);
  }
  if (ok && on & PAT) {
    vector<vector<long>> rt, vt, gr;
    for (auto &z : om) if (z.first % inv == 0) rt.push_back(z.second.rt), vt.push_back(z.second.vt);
    std::sort(vt.begin(), vt.end());
    vector<string> L;
    auto sv = file(".accessVtime", 1);
    for (auto &l : sv[0].lines) if (l.size()) L.push_back(l);
    chk(".accessVtime", lists_diff(vt, L, true));
    auto sr = file(".accessRtime", 1);
    long prev = -1;
    for (auto &l : sr[0].lines) {
      if (l.empty()) continue;
      vector<long> a;
      if (!parse_list(l, &a) || a.empty() || a[0] < prev) { chk(".accessRtime", "lines not sorted: " + l.substr(0, 100)); break; }
      prev = a[0];
      gr.push_back(a);
    }
    std::sort(gr.begin(), gr.end());
    std::sort(rt.begin(), rt.end());
    if (gr.size() != rt.size()) chk(".accessRtime", std::to_string(gr.size()) + " objects instead of " + std::to_string(rt.size()));
    else if (gr != rt)
      for (size_t i = 0; i < rt.size(); i++) if (gr[i] != rt[i]) { chk(".accessRtime", "an object has " + num_list(gr[i]) + " instead of " + num_list(rt[i])); break; }
    count("accessPattern");
    count("patterns_compared", rt.size());
  }
  if (ok && on & DECAY) {
    vector<vector<long>> l;
    if (lastw >= 0) {
      if (warm > 0) l.push_back({});
      for (long w = k0; w < lastw; w++) {
        vector<long> a;
        for (auto &z : dec[w]) {
          if ((long)a.size() <= z.first) a.resize(z.first + 1);
          a[z.first] = z.second;
        }
        l.push_back(a);
      }
    }
    chk(".popularityDecay", lists_diff(l, file(".popularityDecay_w" + tws + "_obj", 1)[0].lines));
    count("popularityDecay");
    if (l.size() > 1) count("decay_windows", l.size());
  }
  if (ok && on & TTL) {
    chk(".ttl", map_diff(ttl, file(".ttl", 1)[0].lines));
    count("ttl");
    if (ttl.size()) count("ttl_values", ttl.size());
  }
  count("requests", N);
  if (N > om.size()) count("nontrivial");
  sample("%.300s", ctx.c_str());
  rm_dir(dir);
}
void register_cases(vector<Case> &cs) {
  auto add = [&](const string &s, int n, std::function<void(Rng &)> f) {
    for (int i = 0; i < n; i++) cs.push_back({s, O.seed * 1000003ull + i, f});
  };
  add("mixed", ncase(120, 2000), [](Rng &r) { case_ana(r, nullptr, -1); });
  std::set<string> fs(cli_formats().begin(), cli_formats().end());
  for (auto &f : fs) {
    string g = f;
    add("format-" + g, ncase(4, 80), [g](Rng &r) { case_ana(r, g.c_str(), -1); });
  }
  static const char *n[] = {"popularity", "popularityDecay", "reuse", "size", "reqRate", "accessPattern", "ttl"};
  for (int k = 0; k < 7; k++) add(string("task-") + n[k], ncase(15, 300), [k](Rng &r) { case_ana(r, k == 6 ? "twr" : nullptr, k); });
}
