#include "common.hpp"
Rep *R = nullptr;
Opt O;

string jesc(const string &s) {
  string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}
uint64_t h64(const string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h ^ (h >> 29);
}
static string cur_subject;
static uint64_t cur_seed;
void Rep::viol(const string &subject, const string &kind, const char *fmt, ...) {
  if (++nviol > 6) return;
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  char sd[32];
  snprintf(sd, 32, "%llu", (unsigned long long)cur_seed);
  line("{\"t\":\"viol\",\"subject\":\"" + jesc(subject) + "\",\"kind\":\"" + jesc(kind) + "\",\"case\":\"" + sd +
       "\",\"group\":\"" + jesc(cur_subject) + "\",\"detail\":\"" + jesc(buf) + "\"}");
}
void Rep::flush_counts() {
  string s = "{\"t\":\"cnt\"";
  for (auto &p : cnt) s += ",\"" + jesc(p.first) + "\":" + std::to_string(p.second);
  line(s + "}");
  cnt.clear();
}

void sample(const char *fmt, ...) {
  static int n = 0;
  if (n++ > 2) return;
  char buf[1500];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  R->line("{\"t\":\"sample\",\"subject\":\"" + jesc(cur_subject) + "\",\"case\":\"" + std::to_string(cur_seed) + "\",\"what\":\"" + jesc(buf) + "\"}");
}
string mon_tmp() {
  static string d;
  if (d.empty()) {
    const char *t = getenv("MON_TMP");
    d = string(t ? t : "/tmp") + "/sc" + std::to_string(O.shard) + "." + std::to_string(getpid());
    mkdir(d.c_str(), 0755);
  }
  return d;
}

bool no_huge = false;
static bool hung = false;  // a confirmed hang: the other cases of the shard would most likely hang too
static void run_one(const Case &c, int outfd, int attempt = 0) {
  cur_subject = c.subject;
  cur_seed = c.seed;
  no_huge = c.subject.find("WTinyLFU") != string::npos || c.subject.find("mixed") != string::npos ||
            c.subject.find("race") != string::npos || O.prop == "C20";
  if (O.nofork) {
    Rep rep;
    rep.fd = outfd;
    R = &rep;
    Rng r(c.seed ^ h64(c.subject));
    c.run(r);
    rep.cnt["cases"]++;
    rep.cnt["sub:" + c.subject]++;
    rep.flush_counts();
    return;
  }
  int pfd[2], efd[2];
  if (pipe(pfd) || pipe(efd)) { perror("pipe"); exit(3); }
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(3); }
  if (pid == 0) {
    close(pfd[0]);
    close(efd[0]);
    dup2(efd[1], 2);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    rlim_t cpu = (rlim_t)O.cpu_limit * (attempt ? 3 : 1);  // a slow case may end in the second attempt, a hang does not
    struct rlimit rl = {cpu, cpu + 5};
    setrlimit(RLIMIT_CPU, &rl);
    struct rlimit cl = {0, 0};
    setrlimit(RLIMIT_CORE, &cl);
    Rep rep;
    rep.fd = pfd[1];
    R = &rep;
    {
      Rng r(c.seed ^ h64(c.subject));
      c.run(r);
    }
    rep.cnt["cases"]++;
    rep.cnt["sub:" + c.subject]++;
    rep.flush_counts();
    exit(0);  // runs leak checks where enabled
  }
  close(pfd[1]);
  close(efd[1]);
  string out, err;
  struct pollfd p[2] = {{pfd[0], POLLIN, 0}, {efd[0], POLLIN, 0}};
  int open_n = 2;
  char buf[65536];
  struct timeval t0, t1;
  gettimeofday(&t0, NULL);
  t1 = t0;
  bool hang = false;
  int wall_limit = thorough() ? O.cpu_limit * 4 : std::min(O.cpu_limit * 4, 250);
  while (open_n > 0) {
    int k = poll(p, 2, 1000);
    gettimeofday(&t1, NULL);
    if (t1.tv_sec - t0.tv_sec > wall_limit) { kill(pid, SIGKILL); hang = true; }
    if (k <= 0) continue;
    for (int i = 0; i < 2; i++) {
      if (p[i].fd < 0 || !(p[i].revents)) continue;
      ssize_t n = read(p[i].fd, buf, sizeof buf);
      if (n <= 0) { p[i].fd = -1; open_n--; continue; }
      (i == 0 ? out : err).append(buf, n);
      if (err.size() > 400000) err.erase(20000, err.size() - 300000);
    }
  }
  close(pfd[0]);
  close(efd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (getenv("MON_SLOW") && t1.tv_sec - t0.tv_sec >= 3) fprintf(stderr, "SLOW %s %lu: %ld s\n", c.subject.c_str(), c.seed, t1.tv_sec - t0.tv_sec);
  bool killed = hang || (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL));
  if (killed && attempt == 0) {  // a hang must repeat before it counts
    run_one(c, outfd, 1);
    return;
  }
  if (killed || out.find("\"kind\":\"hang\"") != string::npos) hung = true;
  size_t o = 0;
  while (o < out.size()) {
    ssize_t k = write(outfd, out.data() + o, out.size() - o);
    if (k <= 0) exit(3);
    o += k;
  }
  Rep rep;
  rep.fd = outfd;
  bool san = err.find("runtime error:") != string::npos || err.find("Sanitizer:") != string::npos;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 3 && !san && !killed) {  // the monitor gave up
    fprintf(stderr, "%s\n", err.substr(err.size() > 1500 ? err.size() - 1500 : 0).c_str());
    exit(3);
  }
  bool vg = getenv("MON_VG") && WIFEXITED(st) && WEXITSTATUS(st) == 9;  // valgrind found an error
  if (vg) {
    string f = string(getenv("MON_TMP") ? getenv("MON_TMP") : "/tmp") + "/vg." + std::to_string(pid);
    FILE *h = fopen(f.c_str(), "r");
    err.clear();
    size_t k;
    while (h && (k = fread(buf, 1, sizeof buf, h)) > 0) err.append(buf, k);
    if (h) fclose(h);
    size_t p = err.find("uninitialised");
    if (p == string::npos) p = err.find("Invalid");
    if (p != string::npos) err = err.substr(p > 60 ? p - 60 : 0, 1500);
    rep.viol(c.subject, "memory", "valgrind: %s", err.c_str());
    rep.cnt["crashed_cases"]++;
    rep.flush_counts();
    return;
  }
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || san) {
    string kind = killed ? "hang" : "crash";
    if (san) kind = "sanitizer";
    size_t pos = err.find("runtime error:");
    if (pos == string::npos) pos = err.find("Sanitizer:");
    if (pos != string::npos) pos = pos > 200 ? pos - 200 : 0;
    string tail = pos == string::npos ? (err.size() > 700 ? err.substr(err.size() - 700) : err) : err.substr(pos, 1500);
    if (getenv("MON_ERR")) fprintf(stderr, "%s\n", err.c_str());
    rep.viol(c.subject, kind, "status=%x %s", st, tail.c_str());
    rep.cnt["crashed_cases"]++;
    rep.flush_counts();
  }
}

void run_cases(const vector<Case> &cases) {
  int outfd = O.out.empty() ? 1 : open(O.out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (outfd < 0) { perror(O.out.c_str()); exit(3); }
  int i = 0;
  for (auto &c : cases) {
    if (!O.only.empty() && O.only != c.subject) continue;
    if (O.has_case) {
      if (c.seed != O.case_seed) continue;
    } else if (i++ % O.nshard != O.shard)
      continue;
    run_one(c, outfd);
    if (hung) break;
  }
  Rep rep;
  rep.fd = outfd;
  if (hung) {
    rep.cnt["shards_stopped_by_a_hang"]++;
    rep.flush_counts();
  }
  rep.line("{\"t\":\"done\"}");
}

int main(int argc, char **argv) {
  for (int i = 1; i < argc; i++) {
    string s = argv[i];
    auto val = [&]() -> const char * { if (i + 1 >= argc) { fprintf(stderr, "missing value\n"); exit(3); } return argv[++i]; };
    if (s == "--only") O.only = val();
    else if (s == "--prop") O.prop = val();
    else if (s == "--seed") O.seed = strtoull(val(), 0, 10);
    else if (s == "--out") O.out = val();
    else if (s == "--tier") O.tier = val();
    else if (s == "--shard") O.shard = atoi(val());
    else if (s == "--nshard") O.nshard = atoi(val());
    else if (s == "--scale") O.scale = atof(val());
    else if (s == "--case") { O.has_case = true; O.case_seed = strtoull(val(), 0, 10); }
    else if (s == "--nofork") O.nofork = true;
    else if (s == "--cpu") O.cpu_limit = atoi(val());
    else { fprintf(stderr, "unknown argument %s\n", s.c_str()); return 3; }
  }
  vector<Case> cs;
  register_cases(cs);
  run_cases(cs);
  return 0;
}
