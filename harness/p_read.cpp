// Readers: decoding (C12), navigation (C13), sampling (C14)
#include "traces.hpp"

static string subj(const Trace &t) { return t.fmt + (t.zst ? ".zst" : ""); }
#define V(kind, ...) R->viol(subj(t), kind, __VA_ARGS__)

// reads the whole trace; returns the number of requests that were right
static bool read_all(Trace &t, reader_t *rd, const vector<Exp> &exp, IdMap &im, const char *what) {
  request_t *req = new_request();
  size_t i = 0;
  bool ok = true;
  for (; ok; i++) {
    int st = read_one_req(rd, req);
    if (i >= exp.size()) {
      if (st == 0) { V("too-many", "%s: read a request after the last of %zu %s", what, exp.size(), t.detail.c_str()); ok = false; }
      else if (req->valid) { V("valid-at-end", "%s: the request is still valid after the last one %s", what, t.detail.c_str()); ok = false; }
      else if (read_one_req(rd, req) == 0) { V("too-many", "%s: read a request after the end %s", what, t.detail.c_str()); ok = false; }
      break;
    }
    if (st != 0) { V("too-few", "%s: ended after %zu of %zu requests %s", what, i, exp.size(), t.detail.c_str()); ok = false; break; }
    string d = differs(t, exp[i], req);
    if (d.empty()) d = im.check(t, exp[i], req->obj_id);
    if (!d.empty()) { V("wrong-request", "%s: request %zu of %zu: %s %s", what, i, exp.size(), d.c_str(), t.detail.c_str()); ok = false; }
  }
  count("requests_read", i);
  free_request(req);
  return ok;
}

static void decode(const string &fmt, Rng &r, bool zst) {
  TrOpt o;
  o.zst = zst;
  o.zero_sizes = r.chance(0.2);
  if (zst && r.chance(0.25)) { o.n = 20000 + r.below(60000); o.plain = true; }
  else if (r.chance(0.1)) o.n = 2000 + r.below(3000);
  vector<Rec> rep;
  if (zst && o.n > 0 && r.chance(0.5)) {  // well compressible
    Rec q{5, "", 100, 7, -1, 1, 3, 9};
    rep.assign(o.n, q);
    for (int k = r.below(4); k > 0; k--) rep[r.below(rep.size())].id = r.below(100);
    o.recs = &rep;
  }
  Trace t = make_trace(r, fmt, o);
  IdMap im;
  reader_t *rd = open_tr(t);
  bool ok = read_all(t, rd, t.exp, im, "first pass");
  if (ok) {
    bool skipping = t.exp.size() != t.n_raw;
    if (!skipping && t.n_raw > 0) {
      uint64_t n = get_num_of_req(rd);
      if (n != t.n_raw) V("wrong-count", "get_num_of_req says %lu, the trace has %zu %s", n, t.n_raw, t.detail.c_str());
    }
    if (r.chance(0.5)) { reset_reader(rd); read_all(t, rd, t.exp, im, "second pass"); }
    if (r.chance(0.5)) {
      reader_t *c = clone_reader(rd);
      read_all(t, c, t.exp, im, "clone");
      close_reader(c);
    }
  }
  close_reader(rd);
  if (t.exp.size() > 1) count("nontrivial");
  sample("%s", t.detail.c_str());
  unlink(t.path.c_str());
}

// csv rows with a repetition count
static void csv_counts(Rng &r) {
  Trace t;
  t.fmt = "csvcnt";
  t.par = default_reader_init_params();
  t.type = CSV_TRACE;
  t.text = true;
  t.has_params = t.has_size = t.has_time = true;
  t.par.time_field = 1; t.par.obj_id_field = 2; t.par.obj_size_field = 3; t.par.cnt_field = 4;
  t.par.has_header_set = true;
  int n = 1 + r.below(60);
  string s;
  for (int i = 0; i < n; i++) {
    Exp e;
    e.id = r.below(1000); e.size = 1 + r.below(1000); e.time = r.below(100000);
    int c = 1 + r.below(r.chance(0.2) ? 50 : r.chance(0.01) ? 70000 : r.chance(0.03) ? 700 : 3);
    s += std::to_string(e.time) + "," + std::to_string(e.id) + "," + std::to_string(e.size) + "," + std::to_string(c) + "\n";
    for (int k = 0; k < c; k++) t.exp.push_back(e);
  }
  t.path = mon_tmp() + "/c.csv";
  t.detail = "[csv rows with counts]";
  write_file(t.path, s);
  IdMap im;
  reader_t *rd = open_tr(t);
  bool ok = read_all(t, rd, t.exp, im, "first pass");
  if (ok) {
    reset_reader(rd);
    request_t *q = new_request();
    size_t k = r.below(t.exp.size());
    for (size_t i = 0; i < k; i++) read_one_req(rd, q);
    string d;
    if (r.chance(0.5)) {  // looking at the first request keeps the place
      request_t *f = new_request();
      read_first_req(rd, f);
      d = differs(t, t.exp[0], f);
      for (size_t i = k; i < t.exp.size() && d.empty(); i++) d = read_one_req(rd, q) ? "ended early" : differs(t, t.exp[i], q);
      if (!d.empty()) V("wrong-request", "read_first_req after %zu requests: %s %s", k, d.c_str(), t.detail.c_str());
      free_request(f);
      ok = d.empty();
    }
    free_request(q);
    reset_reader(rd);
    ok = ok && read_all(t, rd, t.exp, im, "after reset in the middle");
    if (ok) {
      reader_t *c = clone_reader(rd);
      read_all(t, c, t.exp, im, "clone");
      close_reader(c);
      reset_reader(rd);
      size_t n2 = get_num_of_req(rd);
      if (n2 != t.exp.size()) V("wrong-count", "get_num_of_req says %zu, the trace has %zu", n2, t.exp.size());
    }
  }
  close_reader(rd);
  count("nontrivial");
  unlink(t.path.c_str());
}
// csv: header and delimiter found automatically
static void csv_detect(Rng &r) {
  Trace t;
  t.fmt = "csvdetect";
  t.par = default_reader_init_params();
  t.type = CSV_TRACE;
  t.text = true;
  t.has_params = t.has_size = t.has_time = true;
  t.par.time_field = 1; t.par.obj_id_field = 2; t.par.obj_size_field = 3;
  string d(1, "\t,|:"[r.below(4)]);
  t.par.delimiter = r.chance(0.7) ? 0 : d[0];
  bool header = r.chance(0.5);
  t.par.has_header_set = !r.chance(0.7);
  t.par.has_header = header;
  string s = header ? "timestamp" + d + "object" + d + "size\n" : "";
  int n = 1 + r.below(100);
  for (int i = 0; i < n; i++) {
    Exp e;
    e.id = 1000 + r.below(100000); e.size = 1 + r.below(1000); e.time = r.below(100000);
    s += std::to_string(e.time) + d + std::to_string(e.id) + d + std::to_string(e.size) + "\n";
    t.exp.push_back(e);
  }
  t.path = mon_tmp() + "/d.csv";
  t.detail = "[csv with detection, delimiter " + (d == "\t" ? "tab" : d) + (header ? ", header]" : "]");
  write_file(t.path, s);
  IdMap im;
  reader_t *rd = open_tr(t);
  if (read_all(t, rd, t.exp, im, "first pass")) {
    reader_t *c = clone_reader(rd);
    read_all(t, c, t.exp, im, "clone");
    close_reader(c);
    reset_reader(rd);
    read_all(t, rd, t.exp, im, "after reset");
  }
  close_reader(rd);
  count("nontrivial");
  unlink(t.path.c_str());
}

// ------------------------------------------------------------ navigation
int64_t model_pos_text(const Trace &t, size_t off) {  // request whose bytes contain off (or the last one before)
  size_t k = std::upper_bound(t.off.begin(), t.off.end(), off) - t.off.begin();
  return (int64_t)k - 1;
}
static void navigate(const string &fmt, Rng &r, bool zst) {
  TrOpt o;
  o.zst = zst;
  o.unique = true;
  o.n = r.chance(0.15) ? 1 + r.below(2) : r.chance(0.5) ? 1 + r.below(12) : 1 + r.below(300);
  Trace t = make_trace(r, fmt, o);
  int64_t n = t.exp.size(), p = 0;
  reader_t *rd = open_tr(t);
  request_t *req = new_request(), *req2 = new_request();
  IdMap im;
  string log;
  int nops = 20 + r.below(150);
  bool bad = false;
  if (t.str_id) {  // learn the numeric ids
    reader_t *f = open_tr(t);
    for (auto &e : t.exp) {
      if (read_one_req(f, req)) { V("too-few", "plain read ended early %s", t.detail.c_str()); return; }
      e.id = req->obj_id;
    }
    close_reader(f);
    t.str_id = false;
  }
  auto expect = [&](request_t *q, int64_t k, const char *what) {
    string d = k < 0 || k >= n ? "no such request" : differs(t, t.exp[k], q);
    if (d.empty()) d = im.check(t, t.exp[k], q->obj_id);
    if (!d.empty()) {
      V("wrong-request", "%s: wanted request %ld of %ld: %s; operations: %s %s", what, k, n, d.c_str(), log.size() > 300 ? log.c_str() + log.size() - 300 : log.c_str(), t.detail.c_str());
      bad = true;
    }
  };
  auto fail = [&](const char *kind, const char *what, int64_t got, int64_t want) {
    V(kind, "%s returned %ld instead of %ld at position %ld of %ld; operations: %s %s", what, got, want, p, n, log.size() > 300 ? log.c_str() + log.size() - 300 : log.c_str(), t.detail.c_str());
    bad = true;
  };
  for (int i = 0; i < nops && !bad; i++) {
    char b[60];
    int op = zst ? (int[]){0, 0, 0, 1, 2, 8, 9}[r.below(7)] : (int)r.below(10);
    switch (op) {
      case 0: {
        int k = r.chance(0.2) ? 1 + r.below(n + 2) : 1 + r.below(4);
        snprintf(b, 60, "read*%d ", k);
        log += b;
        for (; k > 0 && !bad; k--) {
          int st = read_one_req(rd, req);
          if (p < n) {
            if (st) fail("ended-early", "read_one_req", st, 0);
            else expect(req, p, "read_one_req");
            p++;
          } else if (st == 0 || req->valid) fail("read-after-end", "read_one_req", st, 1);
        }
        break;
      }
      case 1: log += "reset "; reset_reader(rd); p = 0; break;
      case 2: {
        int k = r.chance(0.1) ? n + r.below(3) : r.below(n / 2 + 2);
        snprintf(b, 60, "skip(%d) ", k);
        log += b;
        int got = skip_n_req(rd, k);
        int64_t want = std::min<int64_t>(k, n - p);
        if (got != want) fail("wrong-skip", "skip_n_req", got, want);
        p += want;
        break;
      }
      case 3: {
        int k = r.chance(0.15) ? n + 1 : 1 + r.below(3);
        snprintf(b, 60, "back*%d ", k);
        log += b;
        for (; k > 0 && !bad; k--) {
          int got = go_back_one_req(rd), want = p > 0 ? 0 : 1;
          if ((got != 0) != want) fail("wrong-back", "go_back_one_req", got, want);
          if (p > 0) p--;
        }
        break;
      }
      case 4: {
        int k = r.chance(0.15) ? n + 1 : 1 + r.below(3);
        snprintf(b, 60, "above*%d ", k);
        log += b;
        for (; k > 0 && !bad; k--) {
          int got = read_one_req_above(rd, req), want = p >= 2 ? 0 : 1;
          if ((got != 0) != want) { fail("wrong-above", "read_one_req_above", got, want); break; }
          if (p >= 2) { expect(req, p - 2, "read_one_req_above"); p--; }
          else { if (req->valid) fail("valid-at-end", "read_one_req_above left a valid request and", got, want); p = 0; }
        }
        break;
      }
      case 5: {
        double f = r.chance(0.25) ? 1.0 : r.chance(0.1) ? 0.0 : r.chance(0.05) ? 1.5 : r.unit();
        snprintf(b, 60, "seek(%.4f) ", f);
        log += b;
        reader_set_read_pos(rd, f);
        if (!t.text) {
          size_t off = std::min(1.0, f) * (double)t.file_size;
          p = off < t.start ? 0 : (off - t.start) / t.item;
          p = std::min(p, n);
        } else if (f >= 1.0) p = n;
        else if (f == 0) {
          p = 0;
        } else {
          size_t off = f * (double)t.file_size;
          int64_t k = model_pos_text(t, off);
          int st = read_one_req(rd, req);
          if (st) { if (k < n - 2) fail("ended-early", "read after seek", st, 0); else { go_back_one_req(rd); p = n - 1; reset_reader(rd); p = 0; } break; }
          // the request at the offset or a neighbour
          int64_t at = -1;
          for (int64_t c = std::max<int64_t>(0, k - 1); c <= std::min(n - 1, k + 1); c++)
            if (differs(t, t.exp[c], req).empty()) { at = c; break; }
          if (at < 0) { V("wrong-seek", "seek to %.6f (byte %zu): the next request read is none of the trace near there (%ld of %ld) %s", f, off, k, n, t.detail.c_str()); bad = true; }
          p = at + 1;
        }
        break;
      }
      case 6: log += "first "; read_first_req(rd, req2); expect(req2, 0, "read_first_req"); break;
      case 7: log += "last "; read_last_req(rd, req2); expect(req2, n - 1, "read_last_req"); break;
      case 8: {
        log += "clone ";
        reader_t *c = clone_reader(rd);
        int k = r.below(n + 2);
        for (int j = 0; j < k && !bad; j++) {
          int st = read_one_req(c, req2);
          if ((st != 0) != (j >= n)) fail("wrong-clone", "read of the clone", st, j >= n);
          else if (j < n) expect(req2, j, "read of the clone");
        }
        close_reader(c);
        break;
      }
      default: {
        log += "count ";
        int64_t got = get_num_of_req(rd);
        if (got != n) fail("wrong-count", "get_num_of_req", got, n);
      }
    }
    count("nav_ops");
    count(string("op") + std::to_string(op));
  }
  close_reader(rd);
  free_request(req);
  free_request(req2);
  if (n > 2) count("nontrivial");
  sample("%s %s", t.detail.c_str(), log.substr(0, 200).c_str());
  unlink(t.path.c_str());
}

static void limit(const string &fmt, Rng &r, bool zst) {
  TrOpt o;
  o.zst = zst;
  o.unique = r.chance(0.5);
  Trace t = make_trace(r, fmt, o);
  int64_t n = t.exp.size();
  int64_t cap = r.chance(0.3) ? 1 + r.below(3) : 1 + r.below(n + 3);
  vector<Exp> want(t.exp.begin(), t.exp.begin() + std::min(cap, n));
  t.detail += " limit " + std::to_string(cap);
  reader_t *rd = open_tr(t, nullptr, cap);
  IdMap im;
  bool ask_first = r.chance(0.5);
  auto ask = [&](const char *when) {  // records of size 0, which are skipped, may count towards the limit
    int64_t got = get_num_of_req(rd);
    if (got < (int64_t)want.size() || got > std::min<int64_t>(cap, t.n_raw)) V("wrong-count", "get_num_of_req says %ld %s, the limit is %ld and the trace has %ld %s", got, when, cap, (long)t.n_raw, t.detail.c_str());
  };
  if (ask_first) ask("before reading");
  if (read_all(t, rd, want, im, "limited read")) {
    if (!ask_first) ask("after reading");
    reset_reader(rd);
    if (read_all(t, rd, want, im, "limited read after reset")) {
      reader_t *c = clone_reader(rd);
      read_all(t, c, want, im, "limited clone");
      close_reader(c);
    }
  }
  close_reader(rd);
  count("limited_traces");
  if (n > 1) count("nontrivial");
  unlink(t.path.c_str());
}
// lines of up to 999 bytes, and longer ones read forward
static void long_lines(Rng &r) {
  Trace t;
  t.fmt = "longlines";
  t.par = default_reader_init_params();
  t.par.obj_id_is_num = false;
  t.type = PLAIN_TXT_TRACE;
  t.text = t.has_params = t.str_id = true;
  string s;
  int n = 2 + r.below(20);
  for (int i = 0; i < n; i++) {
    Exp e;
    int len = r.chance(0.3) ? 1 : r.chance(0.5) ? 1000 + r.below(1100) : 1 + r.below(999);
    e.sid = std::to_string(i) + string(len, 'a' + i % 26);
    e.size = 1;
    t.exp.push_back(e);
    s += e.sid + "\n";
  }
  if (r.chance(0.3)) s.pop_back();
  t.path = mon_tmp() + "/l.txt";
  t.detail = "[text with long lines]";
  write_file(t.path, s);
  reader_t *rd = open_tr(t);
  IdMap im;
  if (read_all(t, rd, t.exp, im, "first pass")) {
    request_t *q = new_request();
    for (int i = n - 1; i >= 0; i--) {
      if (go_back_one_req(rd)) { V("wrong-back", "could not go back to request %d of %d", i, n); break; }
      int st = read_one_req(rd, q);
      string d = st ? "read failed" : im.check(t, t.exp[i], q->obj_id);
      if (!d.empty()) { V("wrong-request", "going back to request %d of %d: %s", i, n, d.substr(0, 100).c_str()); break; }
      go_back_one_req(rd);
    }
    free_request(q);
  }
  close_reader(rd);
  count("nontrivial");
  unlink(t.path.c_str());
}

// -------------------------------------------------------------- sampling
static void sampling(const string &fmt, Rng &r, bool spatial, bool zst) {
  TrOpt o;
  o.zst = zst;
  o.plain = r.chance(0.5);
  o.n = 200 + r.below(2500);
  o.zero_sizes = r.chance(0.3);
  Trace t = make_trace(r, fmt, o);
  static const double ratios[] = {0.5, 0.4, 0.3, 0.25, 0.2, 0.1, 0.05, 0.02, 0.01, 0.003};
  double ratio = r.chance(0.7) ? ratios[r.below(10)] : 0.002 + 0.498 * r.unit();
  t.detail += string(spatial ? " spatial " : " temporal ") + std::to_string(ratio);
  sampler_t *s = spatial ? create_spatial_sampler(ratio) : create_temporal_sampler(ratio);
  int inv = s->sampling_ratio_inv;
  if (inv != (int)(1.0 / ratio)) V("wrong-ratio", "sampler keeps one in %d for ratio %f", inv, ratio);
  // what the unsampled trace gives
  IdMap im;
  request_t *req = new_request();
  reader_t *full = open_tr(t);
  vector<uint64_t> ids;
  while (read_one_req(full, req) == 0) ids.push_back(req->obj_id);
  close_reader(full);
  if (ids.size() != t.exp.size()) { V("too-few", "unsampled read gives %zu of %zu %s", ids.size(), t.exp.size(), t.detail.c_str()); return; }
  reader_t *rd = open_tr(t, s);
  // first pass: find out what is kept
  std::set<uint64_t> kept;
  std::set<uint64_t> univ(ids.begin(), ids.end());
  if (spatial) {
    while (read_one_req(rd, req) == 0) kept.insert(req->obj_id);
    reset_reader(rd);
  }
  vector<Exp> want;
  for (size_t i = 0; i < ids.size(); i++)
    if (spatial ? kept.count(ids[i]) > 0 : (i + 1) % inv == 0) want.push_back(t.exp[i]);
  bool ok = read_all(t, rd, want, im, spatial ? "sampled pass" : "first sampled pass");
  if (ok) {
    reset_reader(rd);
    if (r.chance(0.5)) {
      for (int k = r.below(want.size() + 1); k > 0; k--) read_one_req(rd, req);
      reset_reader(rd);
    }
    ok = read_all(t, rd, want, im, "sampled pass after reset");
  }
  if (ok) {
    for (int k = r.below(want.size() + 1); k > 0; k--) read_one_req(rd, req);
    reader_t *c = clone_reader(rd);
    ok = read_all(t, c, want, im, "sampled pass of a clone");
    close_reader(c);
  }
  if (ok && spatial && !zst && want.size() > 0 && (t.type == CSV_TRACE || t.exp.size() == t.n_raw)) {  // backward; binary readers skip empty objects forward only
    rd->read_direction = READ_BACKWARD;
    reader_set_read_pos(rd, 1.0);
    go_back_one_req(rd);
    size_t k = want.size();
    int st = read_one_req(rd, req);
    while (st == 0) {
      if (k == 0) { V("too-many", "backward sampled read gives more requests %s", t.detail.c_str()); break; }
      string d = differs(t, want[k - 1], req);
      if (!d.empty()) { V("wrong-request", "backward sampled read, request %zu of %zu: %s %s", k - 1, want.size(), d.c_str(), t.detail.c_str()); k = 0; break; }
      k--;
      st = read_one_req_above(rd, req);
    }
    if (st && k > 0) V("too-few", "backward sampled read ended %zu early %s", k, t.detail.c_str());
    count("backward_passes");
  }
  if (ok && spatial) {  // the decision depends on the object alone: another order, another reader
    vector<Rec> rr;
    for (size_t i = 0; i < t.exp.size(); i++) { Rec q{t.exp[i].id, t.exp[i].sid, 1 + (int64_t)r.below(1000), (int64_t)r.below(1000), -1, 1, 0, 0}; rr.push_back(q); }
    for (size_t i = rr.size() - 1; i > 0; i--) std::swap(rr[i], rr[r.below(i + 1)]);
    if (!t.str_id) {
      TrOpt o2;
      o2.recs = &rr;
      const char *f2s[] = {"oracleGeneral", "csv", "txt", "stdiqi", "bin"};
      Trace t2 = make_trace(r, f2s[r.below(5)], o2);
      reader_t *r2 = open_tr(t2, create_spatial_sampler(ratio));
      req->obj_size = 1;  // a reader without a size column leaves the size of the request alone; a 0 from another trace would be skipped
      size_t j = 0;
      bool ok2 = true;
      for (; ok2 && j < rr.size();) {
        int st = read_one_req(r2, req);
        while (j < rr.size() && !kept.count(rr[j].id)) j++;
        if (j >= rr.size()) { if (st == 0) { V("inconsistent-sample", "object %lu was sampled in one trace but not in another %s", req->obj_id, t2.detail.c_str()); } break; }
        if (st || req->obj_id != rr[j].id) { V("inconsistent-sample", "object %lu (request %zu of %zu; the reader %s %lu) was sampled in %s but not in %s", rr[j].id, j, rr.size(), st ? "ended after" : "gave", req->obj_id, t.detail.c_str(), t2.detail.c_str()); ok2 = false; }
        j++;
      }
      close_reader(r2);
      unlink(t2.path.c_str());
    }
  }
  close_reader(rd);
  free_request(req);
  count("kept_requests", want.size());
  count("dropped_requests", ids.size() - want.size());
  if (!want.empty() && want.size() < ids.size()) count("nontrivial");
  sample("%s: kept %zu of %zu requests, %zu of %zu objects", t.detail.c_str(), want.size(), ids.size(), kept.size(), univ.size());
  unlink(t.path.c_str());
}
// share of objects kept, over many objects
static void share(Rng &r) {
  int n = 40000;
  int mode = r.below(5);
  double ratio = r.chance(0.5) ? 0.5 - 0.4 * r.unit() : 0.1 - 0.08 * r.unit();
  vector<Rec> rr;
  uint64_t base = r.chance(0.5) ? 0 : r.next();
  for (int i = 0; i < n; i++) rr.push_back(Rec{spread_id(base + i, mode), "", 1, i, -1, 1, 0, 0});
  TrOpt o;
  o.recs = &rr;
  Trace t = make_trace(r, "oracleGeneral", o);
  sampler_t *s = create_spatial_sampler(ratio);
  int inv = s->sampling_ratio_inv;
  reader_t *rd = open_tr(t, s);
  request_t *req = new_request();
  int64_t k = 0;
  while (read_one_req(rd, req) == 0) k++;
  double want = (double)n / inv, sd = sqrt(want * (1 - 1.0 / inv));
  if (fabs(k - want) > 6 * sd) V("wrong-share", "kept %ld of %d objects at ratio %f, expected about %.0f (id layout %d)", k, n, ratio, want, mode);
  // every part of the trace
  count("kept_requests", k);
  count("share_cases");
  count("nontrivial");
  close_reader(rd);
  free_request(req);
  unlink(t.path.c_str());
}

void register_cases(vector<Case> &cs) {
  auto add = [&](const string &s, int k, std::function<void(Rng &)> f) { cs.push_back({s, O.seed * 100000 + k, f}); };
  if (O.prop == "C12") {
    int n = ncase(100, 2500);
    for (int k = 0; k < n; k++) {
      for (auto &f : trace_formats()) {
        int m = (f == "csv" || f == "csvstr" || f == "bin") ? 4 : 1;
        for (int j = 0; j < m; j++) add(f, k * 4 + j, [f](Rng &r) { decode(f, r, false); });
        if (fmt_zst_ok(f) && k % 2 == 0) add(f + ".zst", k, [f](Rng &r) { decode(f, r, true); });
      }
      add("csvcnt", k, csv_counts);
      add("csvdetect", k, csv_detect);
    }
  } else if (O.prop == "C13") {
    int n = ncase(100, 2500);
    for (int k = 0; k < n; k++) {
      for (auto &f : trace_formats()) {
        int m = is_text_fmt(f) ? 3 : 1;
        for (int j = 0; j < m; j++) add(f, k * 4 + j, [f](Rng &r) { navigate(f, r, false); });
        if (k % 3 == 0) add(f, n * 4 + k, [f](Rng &r) { limit(f, r, false); });
        if (fmt_zst_ok(f) && k % 3 == 0) {
          add(f + ".zst", k, [f](Rng &r) { navigate(f, r, true); });
          add(f + ".zst", n * 4 + k, [f](Rng &r) { limit(f, r, true); });
        }
      }
      add("longlines", k, long_lines);
      add("csvcnt", k, csv_counts);
      add("csvdetect", k, csv_detect);
    }
  } else {
    int n = ncase(75, 2000);
    vector<string> fs = {"txt", "txtstr", "csv", "csvstr", "bin", "oracleGeneral", "vscsi2", "lcs", "akamai", "stdiqi"};
    for (int k = 0; k < n; k++) {
      for (auto &f : fs) {
        add(f, k * 2, [f](Rng &r) { sampling(f, r, true, false); });
        add(f, k * 2 + 1, [f](Rng &r) { sampling(f, r, false, false); });
        if ((f == "oracleGeneral" || f == "stdiqi") && k % 2 == 0) {
          add(f + ".zst", k * 2, [f](Rng &r) { sampling(f, r, true, true); });
          add(f + ".zst", k * 2 + 1, [f](Rng &r) { sampling(f, r, false, true); });
        }
      }
      if (k % 2 == 0) add("share", k, share);
    }
  }
}
