// Running the command-line tools of libCacheSim in a scratch directory.
#pragma once
#include <spawn.h>
#include <dirent.h>

#include "traces.hpp"

struct Out {
  int rc = -1;       // exit code, -1: killed by a signal or a time-out
  int sig = 0;
  bool timeout = false;
  string out, err;
};
inline string slurp(const string &p) {
  string s;
  FILE *f = fopen(p.c_str(), "rb");
  if (!f) return s;
  char b[65536];
  size_t k;
  while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k);
  fclose(f);
  return s;
}
inline string tool(const string &name) {
  const char *d = getenv("MON_BIN");
  if (!d) { fprintf(stderr, "MON_BIN is not set\n"); exit(3); }
  string p = string(d) + "/" + name;
  if (access(p.c_str(), X_OK)) { fprintf(stderr, "%s is missing\n", p.c_str()); exit(3); }
  return p;
}
inline Out run_tool_once(const string &name, const vector<string> &args, const string &cwd, int cpu) {
  Out o;
  string so = cwd + "/.stdout", se = cwd + "/.stderr";
  string exe = tool(name);
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    int a = open(so.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644), b = open(se.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644), n = open("/dev/null", O_RDONLY);
    dup2(n, 0);
    dup2(a, 1);
    dup2(b, 2);
    if (chdir(cwd.c_str())) _exit(97);
    struct rlimit l = {(rlim_t)cpu, (rlim_t)cpu + 2};
    setrlimit(RLIMIT_CPU, &l);
    alarm(cpu * 3);
    struct rlimit fs = {1ull << 32, 1ull << 32};
    setrlimit(RLIMIT_FSIZE, &fs);
    vector<char *> v;
    v.push_back((char *)exe.c_str());
    for (auto &x : args) v.push_back((char *)x.c_str());
    v.push_back(nullptr);
    execv(exe.c_str(), v.data());
    _exit(98);
  }
  if (p < 0) { perror("fork"); exit(3); }
  int st = 0;
  waitpid(p, &st, 0);
  if (WIFEXITED(st)) o.rc = WEXITSTATUS(st);
  else {
    o.sig = WTERMSIG(st);
    o.timeout = o.sig == SIGXCPU || o.sig == SIGKILL || o.sig == SIGALRM;
  }
  o.out = slurp(so);
  o.err = slurp(se);
  unlink(so.c_str());
  unlink(se.c_str());
  if (o.rc == 97 || o.rc == 98) { fprintf(stderr, "cannot run %s\n", exe.c_str()); exit(3); }
  count("tool_runs");
  return o;
}
inline Out run_tool(const string &name, const vector<string> &args, const string &cwd, int cpu = 60) {
  Out o = run_tool_once(name, args, cwd, cpu);
  if (o.timeout) o = run_tool_once(name, args, cwd, cpu);  // a hang must repeat before it counts
  return o;
}
// what a sanitizer or the tool itself says about a failed run
inline string why(const Out &o) {
  string t = o.err + "\n" + o.out, s;
  size_t i = t.find("ERROR: AddressSanitizer");
  if (i == string::npos) i = t.find("runtime error:");
  if (i == string::npos) i = t.find("LeakSanitizer");
  if (i == string::npos) i = t.rfind("ERROR]");
  if (i == string::npos) i = t.find("Assertion");
  if (i != string::npos) s = t.substr(i, 700);
  else s = t.size() > 300 ? t.substr(t.size() - 300) : t;
  char b[64];
  snprintf(b, sizeof b, "exit code %d, signal %d: ", o.rc, o.sig);
  return b + s;
}
inline bool bad_run(const Out &o) { return o.rc != 0 || o.err.find("runtime error:") != string::npos; }
inline string join(const vector<string> &v) {
  string s;
  for (auto &x : v) s += (s.size() ? " " : "") + (x.find_first_of(" ;<,|\t") == string::npos ? x : "'" + x + "'");
  return s;
}
// colour codes and the prefix of log lines removed
inline vector<string> lines_of(const string &t) {
  vector<string> v;
  string s;
  for (size_t i = 0; i < t.size(); i++) {
    if (t[i] == 27) {
      while (i < t.size() && t[i] != 'm') i++;
      continue;
    }
    if (t[i] == '\n') { v.push_back(s); s.clear(); }
    else s += t[i];
  }
  if (s.size()) v.push_back(s);
  return v;
}
inline string fresh_dir(const char *tag) {
  static int n = 0;
  string d = mon_tmp() + "/" + tag + std::to_string(n++);
  mkdir(d.c_str(), 0755);
  return d;
}
inline void rm_dir(const string &d) {  // a directory this monitor made
  if (d.compare(0, mon_tmp().size(), mon_tmp())) return;
  DIR *h = opendir(d.c_str());
  if (!h) return;
  vector<string> sub;
  while (struct dirent *e = readdir(h)) {
    string n = e->d_name;
    if (n == "." || n == "..") continue;
    string p = d + "/" + n;
    struct stat st;
    if (!lstat(p.c_str(), &st) && S_ISDIR(st.st_mode)) sub.push_back(p);
    else unlink(p.c_str());
  }
  closedir(h);
  for (auto &p : sub) rm_dir(p);
  rmdir(d.c_str());
}

// --------------------------------------------------- traces as the tools take them
struct CliTrace {
  Trace t;
  string type;            // as given on the command line
  vector<string> opts;    // -t ...
  reader_init_param_t par;  // how the tool must open it
};
inline const char *cli_type(const string &fmt) {
  static const std::map<string, const char *> m = {{"txt", "txt"}, {"txtstr", "txt"}, {"csv", "csv"}, {"csvstr", "csv"}, {"bin", "binary"}, {"lcs", "lcs"}, {"oracleGeneral", "oracleGeneral"},
      {"opns", "oracleGeneralOpNS"}, {"vscsi1", "vscsi"}, {"vscsi2", "vscsi"}, {"twr", "twr"}, {"twrns", "twrNS"}, {"cf1", "CF1"}, {"ocf1", "oracleCF1"}, {"oakamai", "oracleAkamai"},
      {"owiki16u", "oracleWiki16u"}, {"owiki19u", "oracleWiki19u"}, {"osystwrns", "oracleSysTwrNS"}, {"valpin", "valpinTrace"}};
  auto i = m.find(fmt);
  return i == m.end() ? nullptr : i->second;
}
inline const vector<string> &cli_formats() {
  static const vector<string> f = {"txt", "txtstr", "csv", "csv", "csvstr", "bin", "bin", "lcs", "oracleGeneral", "oracleGeneral", "oracleGeneral", "opns", "vscsi1", "vscsi2", "twr", "twrns", "cf1", "ocf1", "oakamai", "owiki16u",
                                   "owiki19u", "osystwrns", "valpin"};
  return f;
}
// requests to be written; ids and values fit every format
inline vector<Rec> plain_recs(Rng &r, int nreq, int nobj, string *kind = nullptr, int size_mode = -1) {
  WlOpt o;
  o.n_req = nreq;
  o.n_obj = nobj;
  o.id_mode = r.chance(0.7) ? 0 : (int)r.below(6);
  o.size_mode = size_mode;
  Workload w = gen_workload(r, o);
  vector<Rec> v;
  int64_t base = r.chance(0.5) ? 0 : r.chance(0.5) ? 1000000 : 1600000000, scale = r.chance(0.3) ? 60 + r.below(200) : 1;
  for (size_t i = 0; i < w.reqs.size(); i++) {
    auto &q = w.reqs[i];
    v.push_back(Rec{q.id, "s" + std::to_string(q.id % 100000), q.size, base + (q.time - w.reqs[0].time) * scale, q.next, (int)(1 + r.below(OP_INVALID - 1)), 1 + (int)r.below(100), (int)r.below(100000)});
  }
  if (kind) *kind = w.kind;
  return v;
}
// place the trace at path dir/[data/]trace.<...>, with options for the tools
inline CliTrace cli_trace(Rng &r, const string &fmt, const vector<Rec> &recs, const string &dir, bool small_table, bool zst, bool allow_auto = true) {
  CliTrace c;
  for (int tries = 0;; tries++) {
    TrOpt o;
    o.recs = &recs;
    o.plain = true;
    o.zst = zst && fmt_zst_ok(fmt);
    c.t = make_trace(r, fmt, o);
    if (!(fmt == "bin" && c.t.start)) break;  // the tools have no option for the offset
    unlink(c.t.path.c_str());
    if (tries > 200) { fprintf(stderr, "cannot make a bin trace\n"); exit(3); }
  }
  Trace &t = c.t;
  c.type = cli_type(fmt);
  string d = dir, ext = t.zst ? ".zst" : "", base;
  if (small_table) { d += "/data"; mkdir(d.c_str(), 0755); base = "trace."; }
  else base = "tr-";
  if (r.chance(0.05)) base += string(150, 'n') + ".";
  if (fmt == "oracleGeneral") base += "oracleGeneral";
  else if (fmt == "vscsi1" || fmt == "vscsi2") base += "x.vscsi";
  else base += c.type + ".bin";
  bool det = fmt == "oracleGeneral" || fmt == "vscsi1" || fmt == "vscsi2" || fmt == "opns" || fmt == "ocf1" || fmt == "oakamai" || fmt == "owiki16u" || fmt == "owiki19u" || fmt == "osystwrns";
  if (det && allow_auto && r.chance(0.15)) c.type = r.chance(0.5) ? "auto" : "AUTO";
  else if (r.chance(0.1)) for (auto &ch : c.type) ch = toupper(ch);
  string np = d + "/" + base + ext;
  if (rename(t.path.c_str(), np.c_str())) { perror(np.c_str()); exit(3); }
  t.path = np;
  // how the tool opens it
  c.par = reader_init_param_t();
  memset(&c.par, 0, sizeof c.par);
  c.par.ignore_size_zero_req = true;
  c.par.cap_at_n_req = -1;
  vector<string> kv;
  auto key = [&](const char *a, const char *b) { string k = r.chance(0.7) ? a : b; if (r.chance(0.2)) std::replace(k.begin(), k.end(), '-', '_'); return k; };
  auto num = [&](const string &k, int v) { kv.push_back(k + "=" + std::to_string(v)); };
  if (fmt == "csv" || fmt == "csvstr" || fmt == "bin") {
    num(key("obj-id-col", "obj-id-field"), c.par.obj_id_field = t.par.obj_id_field);
    if (t.par.time_field > 0) num(key("time-col", "time-field"), c.par.time_field = t.par.time_field);
    if (t.par.obj_size_field > 0) num(r.chance(0.3) ? "size-col" : key("obj-size-col", "obj-size-field"), c.par.obj_size_field = t.par.obj_size_field);
    if (t.par.next_access_vtime_field > 0) num(key("next-access-col", "next-access-field"), c.par.next_access_vtime_field = t.par.next_access_vtime_field);
  }
  if (fmt == "bin") {
    kv.push_back("format=" + t.fmt_str);
    c.par.binary_fmt_str = strdup(t.fmt_str.c_str());
    t.has_op = false;
  }
  if (fmt == "csv" || fmt == "csvstr") {
    if (t.par.has_header_set) {
      kv.push_back(key("has-header", "header") + "=" + (t.par.has_header ? r.chance(0.5) ? "true" : "1" : r.chance(0.5) ? "false" : "no"));
      c.par.has_header = t.par.has_header;
      c.par.has_header_set = true;
    }
    char dl = t.par.delimiter;
    if (dl) {
      kv.push_back(dl == '\t' ? "delimiter=\\t" : dl == ',' ? "delimiter=," : string("delimiter=") + dl);
      c.par.delimiter = dl;
    }
  }
  bool isnum = (fmt == "csv" || fmt == "txt") && (t.par.obj_id_is_num || r.chance(0.3));
  if (isnum) {
    kv.push_back("obj-id-is-num=true");
    c.par.obj_id_is_num = true;
  } else if (is_text_fmt(fmt) && r.chance(0.3))
    kv.push_back("obj-id-is-num=false");
  if (is_text_fmt(fmt) && !isnum) { t.str_id = true; }
  if (kv.size()) {
    for (size_t i = kv.size(); i > 1; i--) std::swap(kv[i - 1], kv[r.below(i)]);
    string s;
    for (auto &x : kv) s += (s.size() ? r.chance(0.5) ? ", " : "," : "") + x;
    c.opts = r.chance(0.6) ? vector<string>{"-t", s} : r.chance(0.5) ? vector<string>{"--trace-type-params=" + s} : vector<string>{"--trace-type-params", s};
  }
  return c;
}
// read it with the library, as the tool should; and check the requests against what was written
inline vector<request_t> cli_read(CliTrace &c, bool ignore_size, int64_t cap, double ratio, string *err) {
  reader_init_param_t p = c.par;
  p.ignore_obj_size = ignore_size;
  p.cap_at_n_req = cap;
  sampler_t *s = ratio < 1 ? /* the reader takes it over */ create_spatial_sampler(ratio) : nullptr;
  p.sampler = s;
  reader_t *rd = setup_reader(c.t.path.c_str(), c.t.type, &p);
  vector<request_t> v;
  request_t *q = new_request();
  while (read_one_req(rd, q) == 0) v.push_back(*q);
  free_request(q);
  close_reader(rd);
  if (err && !s) {
    size_t n = cap > 0 ? std::min<size_t>(cap, c.t.exp.size()) : c.t.exp.size();
    if (v.size() != n) *err = "the library reads " + std::to_string(v.size()) + " requests instead of " + std::to_string(n);
    for (size_t i = 0; err->empty() && i < v.size(); i++) {
      Exp e = c.t.exp[i];
      if (ignore_size) e.size = 1;
      request_t x = v[i];
      string d = differs(c.t, e, &x);
      if (d.size()) *err = "request " + std::to_string(i) + ": " + d;
    }
  }
  return v;
}
