// Writes traces in every supported format, together with what reading them
// must yield (the writers are independent of the readers under test).
#pragma once
#include <zstd.h>

#include "common.hpp"

struct Rec {
  uint64_t id;
  string sid;  // non-numeric object id
  int64_t size, time, next;
  int op, ns, ttl;
};
struct Exp {  // what a read must yield; has_* false = field not in the format
  uint64_t id;
  string sid;
  int64_t size, time, next;
  int op, ns, ttl;
};
struct Trace {
  string fmt, path, detail;
  trace_type_e type;
  bool has_params = false;
  reader_init_param_t par;
  string fmt_str;
  vector<Exp> exp;
  vector<size_t> off;  // text: byte offset of every request line
  size_t file_size = 0, item = 0, start = 0, n_raw = 0;
  bool str_id = false, has_size = false, has_time = false, has_next = false, has_op = false, has_ns = false, has_ttl = false;
  bool text = false, zst = false;
  bool ignore_size = false;
};

struct Buf {
  string s;
  template <class T>
  Buf &p(T v) {
    s.append((const char *)&v, sizeof v);
    return *this;
  }
};
inline void write_file(const string &path, const string &s) {
  FILE *f = fopen(path.c_str(), "wb");
  if (!f || fwrite(s.data(), 1, s.size(), f) != s.size() || fclose(f)) { perror(path.c_str()); exit(3); }
}
inline string zst_compress(const string &s, Rng &r, bool frames) {
  string out;
  size_t pos = 0;
  do {
    size_t n = frames ? std::min(s.size() - pos, (size_t)(1 + r.below(s.size() / 2 + 2))) : s.size() - pos;
    string b(ZSTD_compressBound(n), 0);
    size_t k = ZSTD_compress(&b[0], b.size(), s.data() + pos, n, 1 + (int)r.below(19));
    out.append(b.data(), k);
    pos += n;
  } while (pos < s.size());
  return out;
}

// names of all formats the writers know
inline const vector<string> &trace_formats() {
  static vector<string> f = {"txt",  "txtstr", "csv",   "csvstr", "bin",     "oracleGeneral", "opns",  "vscsi1",  "vscsi2",    "lcs",      "twr",        "twrns",     "cf1",      "akamai",
                             "wiki16u", "wiki19u", "wiki19t", "valpin", "std3", "stdiqi",     "stdiqq", "stdiqibh", "ocf1", "oakamai", "owiki16u", "owiki19u", "osystwrns", "osimtwrns"};
  return f;
}
inline bool is_text_fmt(const string &f) { return f == "txt" || f == "txtstr" || f == "csv" || f == "csvstr"; }
inline bool fmt_zst_ok(const string &f) { return !is_text_fmt(f) && f != "vscsi1" && f != "vscsi2" && f != "lcs"; }

struct TrOpt {
  int n = -1;
  bool unique = false;      // ids never repeat
  bool zero_sizes = false;  // some requests of size zero (skipped by formats that do)
  bool zst = false;
  bool blank = true;        // blank lines in text traces
  bool plain = false;       // ordinary values only
  const vector<Rec> *recs = nullptr;
};

inline int64_t lim(Rng &r, uint64_t max, bool plain) {  // a value in [0,max], often extreme
  switch (plain ? 1 : r.below(6)) {
    case 0: return max;
    case 1: return r.below(std::min<uint64_t>(max, 100000));
    case 2: return r.below(max) | (max / 2 + 1);
    case 3: return max - r.below(std::min<uint64_t>(max, 100));
    case 4: return 1;
    default: return r.below(max);
  }
}
inline uint64_t idlim(Rng &r, int bits, bool plain) {
  uint64_t m = bits >= 64 ? UINT64_MAX : ((1ull << bits) - 1);
  if (plain) return 1 + r.below(std::min<uint64_t>(m, 500));
  switch (r.below(5)) {
    case 0: return 1 + r.below(std::min<uint64_t>(m, 60));
    case 1: return r.next() & m;
    case 2: return m - r.below(std::min<uint64_t>(m, 40));
    case 3: return (m / 2 + 1) + r.below(std::min<uint64_t>(m / 4 + 1, 50));
    default: return r.below(20);
  }
}

inline Trace make_trace(Rng &r, const string &fmt, TrOpt o = TrOpt()) {
  Trace t;
  t.fmt = fmt;
  t.text = is_text_fmt(fmt);
  t.par = default_reader_init_params();
  static int serial = 0;
  int n = o.recs ? (int)o.recs->size() : o.n >= 0 ? o.n : 1 + (int)r.below(r.chance(0.3) ? 4 : 300);
  // ------------------------------------------------------------ layout
  string s;
  vector<Rec> recs;
  std::set<string> used;
  int idbits = 64;
  uint64_t maxsize = UINT32_MAX, maxtime = UINT32_MAX;
  bool skip0 = false, twr_size = false, opfmt = false;
  string csv_delim = ",", eol = "\n", quote;
  int ncol = 1, ccol_id = 1, ccol_time = 0, ccol_size = 0;
  bool header = false, last_nl = true, hdr_set = true, dec_time = false;
  string bfmt;
  int f_id = 0, f_time = 0, f_size = 0, f_op = 0, f_next = 0;
  auto maxof = [](char c) -> uint64_t {
    switch (c) {
      case 'b': case 'c': return 127;
      case 'B': return 255;
      case 'h': return 32767;
      case 'H': return 65535;
      case 'i': case 'l': return INT32_MAX;
      case 'I': case 'L': return UINT32_MAX;
      case 'f': return 1 << 24;
      case 'd': return 1ull << 53;
      case 'q': return INT64_MAX;
      default: return INT64_MAX;
    }
  };
  if (t.text) {
    t.has_params = true;
    last_nl = !r.chance(0.3);
    t.str_id = fmt == "txtstr" || fmt == "csvstr";
    t.par.obj_id_is_num = !t.str_id;
    if (fmt == "txt" || fmt == "txtstr") {
      t.type = PLAIN_TXT_TRACE;
      if (fmt == "txt" && r.chance(0.2)) eol = "\r\n";
    } else {
      t.type = CSV_TRACE;
      ncol = 2 + (int)r.below(6);
      vector<int> cols;
      for (int i = 1; i <= ncol; i++) cols.push_back(i);
      for (int i = ncol - 1; i > 0; i--) std::swap(cols[i], cols[r.below(i + 1)]);
      ccol_id = cols[0];
      if (ncol > 1 && r.chance(0.8)) ccol_time = cols[1];
      if (ncol > 2 && r.chance(0.8)) ccol_size = cols[2];
      csv_delim = string(1, ",\t|:; "[r.below(6)]);
      header = r.chance(0.5);
      if (r.chance(0.2)) eol = "\r\n";
      if (r.chance(0.15)) quote = "\"";
      dec_time = r.chance(0.3);
      t.par.delimiter = csv_delim[0];
      t.par.time_field = ccol_time;
      t.par.obj_id_field = ccol_id;
      t.par.obj_size_field = ccol_size;
      t.par.has_header = header;
      t.par.has_header_set = true;
      maxsize = 1ull << 40;
      maxtime = 1ull << 50;
      skip0 = ccol_size > 0;
      t.has_time = ccol_time > 0;
      t.has_size = ccol_size > 0;
    }
  } else if (fmt == "bin" || fmt == "lcs") {
    const char *all = "bBhHiIlLqQcfd";
    int nf = 1 + (int)r.below(r.chance(0.06) && !o.recs ? 239 : 10);
    for (int i = 0; i < nf; i++) bfmt += all[r.below(13)];
    vector<int> cols;
    for (int i = 1; i <= nf; i++) cols.push_back(i);
    for (int i = nf - 1; i > 0; i--) std::swap(cols[i], cols[r.below(i + 1)]);
    f_id = cols[0];
    if (nf > 1 && r.chance(0.85)) f_time = cols[1];
    if (nf > 2 && r.chance(0.85)) f_size = cols[2];
    if (nf > 3 && r.chance(0.5)) f_next = cols[3];
    if (nf > 4 && r.chance(0.5)) f_op = cols[4];
    if (o.recs || o.unique) bfmt[f_id - 1] = 'Q';
    if (o.recs) {
      if (f_time) bfmt[f_time - 1] = 'I';
      if (f_size) bfmt[f_size - 1] = 'I';
      if (f_next) bfmt[f_next - 1] = 'q';
    }
    t.has_params = fmt == "bin";
    t.type = fmt == "bin" ? BIN_TRACE : LCS_TRACE;
    t.fmt_str = "<" + bfmt;
    t.par.obj_id_field = f_id;
    t.par.time_field = f_time;
    t.par.obj_size_field = f_size;
    t.par.op_field = f_op;
    t.par.next_access_vtime_field = f_next;
    for (char c : bfmt) t.item += strchr("bBc", c) ? 1 : strchr("hH", c) ? 2 : strchr("iIlLf", c) ? 4 : 8;
    if (fmt == "bin" && r.chance(0.25)) {
      t.start = r.below(100);
      t.par.trace_start_offset = t.start;
    }
    t.has_time = f_time > 0;
    t.has_size = f_size > 0;
    t.has_op = f_op > 0;
    t.has_next = f_next > 0;
  } else {
    struct D { const char *n; trace_type_e ty; int item; bool size, time, next, op, ns, ttl, skip; };
    static const D ds[] = {
        {"oracleGeneral", ORACLE_GENERAL_TRACE, 24, 1, 1, 1, 0, 0, 0, 1}, {"opns", ORACLE_GENERALOPNS_TRACE, 27, 1, 1, 1, 1, 1, 0, 1},
        {"vscsi1", VSCSI_TRACE, 32, 1, 1, 0, 0, 0, 0, 0},                 {"vscsi2", VSCSI_TRACE, 40, 1, 1, 0, 0, 0, 0, 0},
        {"twr", TWR_TRACE, 20, 1, 1, 0, 1, 0, 1, 1},                      {"twrns", TWRNS_TRACE, 22, 1, 1, 0, 1, 1, 1, 1},
        {"cf1", CF1_TRACE, 41, 1, 1, 0, 0, 0, 1, 1},                      {"akamai", AKAMAI_TRACE, 22, 1, 1, 0, 0, 0, 0, 1},
        {"wiki16u", WIKI16u_TRACE, 14, 1, 0, 0, 0, 0, 0, 1},              {"wiki19u", WIKI19u_TRACE, 18, 1, 1, 0, 0, 0, 0, 1},
        {"wiki19t", WIKI19t_TRACE, 16, 1, 1, 0, 0, 0, 0, 1},              {"valpin", VALPIN_TRACE, 8, 0, 0, 0, 0, 0, 0, 0},
        {"std3", STANDARD_III_TRACE, 12, 1, 1, 0, 0, 0, 0, 0},            {"stdiqi", STANDARD_IQI_TRACE, 16, 1, 1, 0, 0, 0, 0, 0},
        {"stdiqq", STANDARD_IQQ_TRACE, 20, 1, 1, 0, 0, 0, 0, 0},          {"stdiqibh", STANDARD_IQIBH_TRACE, 19, 1, 1, 0, 1, 1, 0, 0},
        {"ocf1", ORACLE_CF1_TRACE, 49, 1, 1, 1, 0, 0, 1, 1},              {"oakamai", ORACLE_AKAMAI_TRACE, 30, 1, 1, 1, 0, 0, 0, 1},
        {"owiki16u", ORACLE_WIKI16u_TRACE, 22, 1, 0, 1, 0, 0, 0, 1},      {"owiki19u", ORACLE_WIKI19u_TRACE, 26, 1, 1, 1, 0, 0, 0, 1},
        {"osystwrns", ORACLE_SYS_TWRNS_TRACE, 34, 1, 1, 1, 1, 1, 1, 0},   {"osimtwrns", ORACLE_SIM_TWRNS_TRACE, 30, 1, 1, 1, 0, 1, 1, 0}};
    const D *d = nullptr;
    for (auto &x : ds)
      if (fmt == x.n) d = &x;
    if (!d) { fprintf(stderr, "unknown format %s\n", fmt.c_str()); exit(3); }
    t.type = d->ty;
    t.item = d->item;
    t.has_size = d->size;
    t.has_time = d->time;
    t.has_next = d->next;
    t.has_op = d->op;
    t.has_ns = d->ns;
    t.has_ttl = d->ttl;
    skip0 = d->skip;
    if (fmt == "std3") idbits = 32;
    if (fmt == "stdiqq") maxsize = 1ull << 40;
    if (fmt[0] == 'v' && fmt[1] == 's') {
      maxtime = (1ull << 63) / 1000000;
      if (!o.recs && n < 3) n = 3;
    }
    twr_size = fmt == "twr" || fmt == "twrns";
    if (twr_size) maxsize = 0x3FFFFF;
    if (fmt == "osystwrns") maxsize = UINT32_MAX;
  }
  bool ignore0 = true;
  if (o.zero_sizes && r.chance(0.3)) {
    ignore0 = false;
    t.has_params = true;
    t.par.ignore_size_zero_req = false;
  }
  if (!o.plain && !o.recs && r.chance(0.1)) {
    t.has_params = true;
    t.par.ignore_obj_size = true;
    t.ignore_size = true;
  }
  // ----------------------------------------------------------- requests
  string fam;
  if (t.str_id && r.chance(0.4)) {
    fam = "/objects/2026/";
    for (int k = (int)r.below(r.chance(0.3) ? 200 : 50); k > 0; k--) fam += "abcdefghij0123456789-_"[r.below(22)];
  }
  for (int i = 0; i < n; i++) {
    Rec q;
    memset((void *)&q.size, 0, 0);
    if (o.recs) {
      q = (*o.recs)[i];
      q.size = std::min<int64_t>(q.size, maxsize);
    }
    else {
      for (;;) {
        q.id = idlim(r, idbits, o.plain);
        if (bfmt.size() && !o.recs) {
          char c = bfmt[f_id - 1];
          q.id = strchr("QqIiLl", c) ? (c == 'Q' ? q.id : q.id & maxof(c)) : r.below(maxof(c) + 1);
        }
        q.sid.clear();
        if (t.str_id) {
          static const char *alpha = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-/.%#@";
          int len = 1 + (int)r.below(o.unique ? 24 : r.chance(0.5) ? 2 : 30);
          if (!fam.empty() && r.chance(0.8)) {  // long names that share most of their bytes
            q.sid = fam;
            for (int k = 1 + (int)r.below(3); k > 0; k--) q.sid[r.below(fam.size())] = alpha[r.below(strlen(alpha))];
          } else
          for (int k = 0; k < len; k++) q.sid += alpha[r.below(strlen(alpha))];
        }
        if (!o.unique || used.insert(t.str_id ? q.sid : std::to_string(q.id)).second) break;
        if (o.unique && !t.str_id) {
          q.id = (uint64_t)(used.size() + 1000);
          if (used.insert(std::to_string(q.id)).second) break;
        }
      }
      if (t.str_id && !last_nl && !o.unique && i > 0 && i == n - 1 && r.chance(0.5)) q.sid = recs[r.below(recs.size())].sid;
      q.time = lim(r, maxtime, o.plain);
      q.size = 1 + lim(r, maxsize - 1, o.plain);
      q.next = r.chance(0.3) ? -1 : r.chance(0.2) ? INT64_MAX : (int64_t)r.below(1ull << 40);
      q.op = 1 + (int)r.below(OP_INVALID - 1);
      q.ns = (int)lim(r, 65535, o.plain);
      q.ttl = (int)lim(r, twr_size ? 0xFFFFFF : INT32_MAX, o.plain);
      if (bfmt.size()) {
        auto cap = [&](int f, int64_t &v) { if (f) v = (int64_t)((uint64_t)v % (maxof(bfmt[f - 1]) + (maxof(bfmt[f - 1]) < INT64_MAX))); };
        cap(f_time, q.time);
        cap(f_size, q.size);
        if (f_next) { if (strchr("qilhbdfc", bfmt[f_next - 1]) && q.next == -1 && bfmt[f_next-1]) q.next = -1; else cap(f_next, q.next); if (q.next == -1 && strchr("BHILQ", bfmt[f_next - 1])) q.next = 7; }
        if (f_size && q.size == 0) q.size = 1;
      }
      if (o.zero_sizes && t.has_size && fmt != "osystwrns" && r.chance(0.25)) q.size = 0;
    }
    recs.push_back(q);
  }
  // -------------------------------------------------------------- write
  auto emit = [&](const Rec &q, bool skipped) {
    if (skipped) return;
    Exp e;
    e.id = q.id;
    e.sid = q.sid;
    e.size = t.has_size ? q.size : 1;
    if (t.ignore_size) e.size = 1;
    e.time = q.time;
    e.next = q.next;
    e.op = q.op;
    e.ns = q.ns;
    e.ttl = q.ttl;
    t.exp.push_back(e);
  };
  if (t.text) {
    if (header) {
      for (int c = 1; c <= ncol; c++) s += (c > 1 ? csv_delim : "") + string(c == ccol_id ? "key" : c == ccol_time ? "timestamp" : c == ccol_size ? "bytes" : "misc");
      s += eol;
      t.start = s.size();
    }
    for (int i = 0; i < n; i++) {
      Rec &q = recs[i];
      if (o.blank && (i > 0 || t.type != CSV_TRACE) && r.chance(0.06)) for (int k = 1 + (int)r.below(3); k > 0; k--) s += t.type == CSV_TRACE ? eol : "\n";
      bool sk = t.type == CSV_TRACE && skip0 && q.size == 0 && ignore0;
      if (!sk) t.off.push_back(s.size());
      string ids = t.str_id ? q.sid : std::to_string(q.id);
      if (!t.str_id && !o.plain && r.chance(0.03)) { char b[40]; snprintf(b, 40, "0x%lx", q.id); ids = b; }
      if (t.type == PLAIN_TXT_TRACE) s += ids;
      else {
        for (int c = 1; c <= ncol; c++) {
          string v;
          if (c == ccol_id) v = quote + ids + quote;
          else if (c == ccol_time) { v = std::to_string(q.time); if (dec_time && q.time < (1ll << 40)) v += "." + std::to_string(r.below(100)); }
          else if (c == ccol_size) v = std::to_string(q.size);
          else v = r.chance(0.1) ? "" : r.chance(0.5) ? "x" : std::to_string(r.below(1000));
          if (ncol == 1 && v.empty()) v = "x";
          s += (c > 1 ? csv_delim : "") + v;
        }
      }
      s += eol;
      emit(q, sk);
    }
    if (t.type == CSV_TRACE && n > 0) {  // what the first line shows beyond doubt need not be said
      string l = s.substr(0, s.find('\n'));
      int digits = 0, letters = 0;
      bool other = false;
      for (char ch : l) digits += isdigit(ch) != 0, letters += isalpha(ch) != 0, other |= strchr("\t,|:", ch) && ch != csv_delim[0];
      if (l.size() < 1000 && r.chance(0.4) && (header ? digits == 0 && letters > 0 : digits > 2 * letters)) t.par.has_header_set = false, t.par.has_header = false;
      if (l.size() < 1000 && r.chance(0.25) && !other && l.find(csv_delim) != string::npos && strchr("\t,|:", csv_delim[0])) t.par.delimiter = 0;
    }
    if (!last_nl && s.size() > eol.size()) s.resize(s.size() - eol.size());
    else if (o.blank && r.chance(0.1)) s += "\n\n";
  } else {
    Buf b;
    if (fmt == "lcs") {
      b.p<uint64_t>(0x123456789abcdef0ull);
      string f = t.fmt_str;
      f.resize(240);
      b.s += f;
      unsigned char fl[9] = {(unsigned char)f_id, (unsigned char)f_size, (unsigned char)f_time, 0, (unsigned char)f_next, (unsigned char)f_op, 0, 0, 0};
      b.s.append((char *)fl, 9);
      b.s.append(231, '\0');
      b.s.append(512, '\0');
      b.p<uint32_t>(bfmt.size()).p<uint32_t>(t.item).p<uint64_t>(1).p<uint64_t>(0x123456789abcdef0ull);
      t.start = 1024;
    } else
      for (size_t i = 0; i < t.start; i++) b.p<uint8_t>(r.below(256));
    for (int i = 0; i < n; i++) {
      Rec &q = recs[i];
      bool sk = skip0 && q.size == 0 && ignore0;
      if (bfmt.size()) {
        for (int c = 1; c <= (int)bfmt.size(); c++) {
          int64_t v = c == f_id ? (int64_t)q.id : c == f_time ? q.time : c == f_size ? q.size : c == f_op ? q.op : c == f_next ? q.next : (int64_t)r.next();
          switch (bfmt[c - 1]) {
            case 'b': case 'B': case 'c': b.p<uint8_t>(v); break;
            case 'h': case 'H': b.p<uint16_t>(v); break;
            case 'i': case 'l': case 'I': case 'L': b.p<uint32_t>(v); break;
            case 'q': case 'Q': b.p<uint64_t>(v); break;
            case 'f': b.p<float>((float)v); break;
            default: b.p<double>((double)v); break;
          }
        }
      } else if (fmt == "oracleGeneral") b.p<uint32_t>(q.time).p<uint64_t>(q.id).p<uint32_t>(q.size).p<int64_t>(q.next);
      else if (fmt == "opns") b.p<uint32_t>(q.time).p<uint64_t>(q.id).p<uint32_t>(q.size).p<uint8_t>(q.op).p<uint16_t>(q.ns).p<int64_t>(q.next);
      else if (fmt == "vscsi1") b.p<uint32_t>(i).p<uint32_t>(q.size).p<uint32_t>(1).p<uint16_t>(0x28).p<uint16_t>(0x100 + r.below(200)).p<uint64_t>(q.id).p<uint64_t>((uint64_t)q.time * 1000000 + r.below(1000000));
      else if (fmt == "vscsi2") b.p<uint16_t>(0x28).p<uint16_t>(0x200 + r.below(200)).p<uint32_t>(i).p<uint32_t>(q.size).p<uint32_t>(1).p<uint64_t>(q.id).p<uint64_t>((uint64_t)q.time * 1000000 + r.below(1000000)).p<uint64_t>(r.next());
      else if (twr_size) {
        uint32_t ks = r.below(1024), vs = q.size;
        if (q.size == 0) { sk = ignore0 && (q.op == OP_GET || q.op == OP_GETS); }
        b.p<uint32_t>(q.time).p<uint64_t>(q.id).p<uint32_t>(ks << 22 | vs).p<uint32_t>((uint32_t)q.op << 24 | q.ttl);
        if (fmt == "twrns") b.p<uint16_t>(q.ns);
        Rec x = q;
        x.size = ks + vs;
        emit(x, sk);
        continue;
      } else if (fmt == "cf1" || fmt == "ocf1") {
        b.p<uint32_t>(q.time).p<uint64_t>(q.id).p<uint64_t>(q.size).p<int32_t>(q.ttl).p<uint32_t>(r.next()).p<uint32_t>(r.next());
        if (fmt == "ocf1") b.p<int64_t>(q.next);
        b.p<uint16_t>(r.next()).p<uint16_t>(r.next()).p<uint16_t>(r.next()).p<uint8_t>(r.next()).p<uint8_t>(r.next()).p<uint8_t>(r.next());
      } else if (fmt == "akamai") b.p<uint32_t>(q.time).p<uint64_t>(q.id).p<uint32_t>(q.size).p<uint16_t>(r.next()).p<uint16_t>(r.next()).p<uint16_t>(r.next());
      else if (fmt == "oakamai") b.p<uint32_t>(q.time).p<uint64_t>(q.id).p<uint32_t>(q.size).p<uint16_t>(r.next()).p<uint16_t>(r.next()).p<uint16_t>(r.next()).p<int64_t>(q.next);
      else if (fmt == "wiki16u") b.p<uint64_t>(q.id).p<uint32_t>(q.size).p<uint16_t>(r.next());
      else if (fmt == "owiki16u") b.p<uint64_t>(q.id).p<uint32_t>(q.size).p<uint16_t>(r.next()).p<int64_t>(q.next);
      else if (fmt == "wiki19u") b.p<uint32_t>(q.time).p<uint64_t>(q.id).p<uint32_t>(q.size).p<uint16_t>(r.next());
      else if (fmt == "owiki19u") b.p<uint32_t>(q.time).p<uint64_t>(q.id).p<uint32_t>(q.size).p<uint16_t>(r.next()).p<int64_t>(q.next);
      else if (fmt == "wiki19t") b.p<uint32_t>(q.time).p<uint64_t>(q.id).p<uint32_t>(q.size);
      else if (fmt == "valpin") b.p<uint64_t>(q.id);
      else if (fmt == "std3") b.p<uint32_t>(q.time).p<uint32_t>(q.id).p<uint32_t>(q.size);
      else if (fmt == "stdiqi") b.p<uint32_t>(q.time).p<uint64_t>(q.id).p<uint32_t>(q.size);
      else if (fmt == "stdiqq") b.p<uint32_t>(q.time).p<uint64_t>(q.id).p<uint64_t>(q.size);
      else if (fmt == "stdiqibh") b.p<uint32_t>(q.time).p<uint64_t>(q.id).p<uint32_t>(q.size).p<uint8_t>(q.op).p<uint16_t>(q.ns);
      else if (fmt == "osystwrns") {
        uint32_t ks = r.below(65536), vs = q.size;
        b.p<uint32_t>(q.time).p<uint64_t>(q.id).p<uint16_t>(ks).p<uint32_t>(vs).p<uint16_t>(q.op).p<uint16_t>(q.ns).p<int32_t>(q.ttl).p<int64_t>(q.next);
        Rec x = q;
        x.size = (int64_t)ks + vs;
        emit(x, false);
        continue;
      } else if (fmt == "osimtwrns") b.p<uint32_t>(q.time).p<uint64_t>(q.id).p<uint32_t>(q.size).p<int32_t>(q.ttl).p<uint16_t>(q.ns).p<int64_t>(q.next);
      emit(q, sk);
    }
    s = b.s;
    // a partial record at the end is not a request
    if (!o.zst && !o.plain && r.chance(0.15) && t.item > 1 && fmt != "vscsi1" && fmt != "vscsi2")
      for (int k = 1 + (int)r.below(t.item - 1); k > 0; k--) s += (char)r.below(256);
  }
  t.n_raw = n;
  string name = mon_tmp() + "/t" + std::to_string(serial++);
  if (r.chance(0.2)) {  // some directories and names look odd
    string d = mon_tmp() + "/" + string(1 + r.below(3), 'd');
    mkdir(d.c_str(), 0755);
    name = d + "/t" + std::to_string(serial++) + ".x";
  }
  t.zst = o.zst && fmt_zst_ok(fmt) && t.start == 0;
  if (t.zst) {
    s = zst_compress(s, r, r.chance(0.3));
    name += r.chance(0.8) ? ".zst" : ".zst.22";
  }
  write_file(name, s);
  t.path = name;
  t.file_size = s.size();
  char d[300];
  snprintf(d, sizeof d, "[%s%s, %d requests, fmt '%s' fields id %d time %d size %d, delim '%s', cols %d, header %d%s, final newline %d, eol %zu, start %zu]", fmt.c_str(), t.zst ? ".zst" : "", n,
           t.fmt_str.c_str(), t.par.obj_id_field, t.par.time_field, t.par.obj_size_field, csv_delim == "\t" ? "tab" : csv_delim.c_str(), ncol, header, t.type == CSV_TRACE && !t.par.has_header_set ? " (to detect)" : "", last_nl, eol.size(), t.start);
  t.detail = d;
  return t;
}
inline reader_t *open_tr(Trace &t, sampler_t *s = nullptr, int64_t cap = -1) {
  reader_init_param_t p = t.par;
  if (t.fmt_str.size() && t.type == BIN_TRACE) p.binary_fmt_str = (char *)t.fmt_str.c_str();
  p.sampler = s;
  p.cap_at_n_req = cap;
  bool need = t.has_params || s || cap > 0;
  return setup_reader(t.path.c_str(), t.type, need ? &p : NULL);
}
// "" when the request equals what is expected
inline string differs(const Trace &t, const Exp &e, const request_t *q) {
  char b[200];
  auto fail = [&](const char *f, long long got, long long want) { snprintf(b, sizeof b, "%s is %lld instead of %lld", f, got, want); return string(b); };
  if (!q->valid) return "request is not valid";
  if (!t.str_id && q->obj_id != e.id) { snprintf(b, sizeof b, "object id is %lu instead of %lu", q->obj_id, e.id); return b; }
  if (q->obj_size != e.size) return fail("size", q->obj_size, e.size);
  if (t.has_time && q->clock_time != e.time) return fail("time", q->clock_time, e.time);
  if (t.has_next) {
    int64_t want = e.next == -1 ? INT64_MAX : e.next;  // none
    if (q->next_access_vtime != want) return fail("next access", q->next_access_vtime, want);
  }
  if (t.has_op && (int)q->op != e.op) return fail("op", q->op, e.op);
  if (t.has_ns && q->ns != e.ns) return fail("namespace", q->ns, e.ns);
  if (t.has_ttl && q->ttl != e.ttl) return fail("ttl", q->ttl, e.ttl);
  return "";
}
// non-numeric ids: the same string must give the same id, another string another id
struct IdMap {
  std::unordered_map<string, uint64_t> a;
  std::unordered_map<uint64_t, string> b;
  string check(const Trace &t, const Exp &e, uint64_t id) {
    if (!t.str_id) return "";
    auto i = a.emplace(e.sid, id);
    if (!i.second && i.first->second != id) return "object '" + e.sid + "' has two ids";
    auto j = b.emplace(id, e.sid);
    if (!j.second && j.first->second != e.sid) return "objects '" + e.sid + "' and '" + j.first->second + "' have the same id";
    return "";
  }
};
