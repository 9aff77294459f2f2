// Common machinery of the checks: running gkc's real main() in a forked child,
// exhaustive parallel enumeration over index spaces, result collection.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <poll.h>
#include <set>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

extern "C" int gkc_orig_main(int argc, char **argv);
// virtual CPU clock (wrapclock.c): microseconds added per clock() call; 0 = the real clock
extern "C" long gkv_clock_step, gkv_clock_now, gkv_clock_reads;
extern "C" void (*gkv_clock_hook)(long nr);

using std::string;
using std::vector;
typedef uint64_t u64;

inline double now_s() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

inline string jesc(const string &s) {
  string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c == '\t') o += "\\t";
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}
inline string jstr(const string &s) { return "\"" + jesc(s) + "\""; }

// ---------------------------------------------------------------- running gkc
struct RunResult {
  string out;        // stdout and stderr together
  int code = -1;     // exit code, or -1
  int sig = 0;       // terminating signal, or 0
  bool timeout = false;
  bool crashed() const { return sig != 0 && !timeout; }
};

struct RunOpt {
  double wall = 20;               // wall seconds before the child (its whole group) is killed
  std::function<void()> prepare;  // run in the child before main
  std::function<void()> finish;   // run in the child after main returned (not after exit())
  size_t maxout = 8u << 20;
  bool group = false;             // own process group (for forking runs)
  long clock_step = 0;            // virtual clock step (microseconds per read), 0 = real time
};

inline int &capture_fd() {
  static int fd = -1;
  return fd;
}
inline pid_t &capture_pid() {
  static pid_t p = 0;
  return p;
}
inline int my_capture_fd() {
  if (capture_fd() < 0 || capture_pid() != getpid()) {
    capture_fd() = memfd_create("gkvout", 0);
    capture_pid() = getpid();
  }
  return capture_fd();
}

inline int null_fd() {
  static int fd = open("/dev/null", O_RDONLY);
  return fd;
}

// run body() in a forked child with stdout/stderr captured; exit code is body's result
inline RunResult run_child(const std::function<int()> &body, const RunOpt &o = RunOpt()) {
  RunResult r;
  int fd = my_capture_fd();
  if (ftruncate(fd, 0)) {}
  lseek(fd, 0, SEEK_SET);
  null_fd();
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(3); }
  if (pid == 0) {
    if (o.group) setpgid(0, 0);
    int f = memfd_create("x", 0);
    (void)f;
    dup2(null_fd(), 0);
    if (f >= 0) close(f);
    // O_APPEND semantics so that several writers (forked workers) do not overwrite each other
    fcntl(fd, F_SETFL, O_APPEND);
    dup2(fd, 1);
    dup2(fd, 2);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    rl.rlim_cur = rl.rlim_max = (rlim_t)o.wall + 2;
    setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = o.maxout;
    setrlimit(RLIMIT_FSIZE, &rl);
    gkv_clock_step = o.clock_step;
    if (o.prepare) o.prepare();
    int rc = body();
    if (o.finish) o.finish();
    exit(rc);
  }
  if (o.group) setpgid(pid, pid);
  int pfd = (int)syscall(SYS_pidfd_open, pid, 0);
  int st = 0;
  if (pfd >= 0) {
    struct pollfd p = {pfd, POLLIN, 0};
    int k;
    double end = now_s() + o.wall;
    while ((k = poll(&p, 1, (int)(std::max(0.0, end - now_s()) * 1000) + 1)) < 0 && errno == EINTR) {}
    if (k == 0) {
      r.timeout = true;
      kill(o.group ? -pid : pid, SIGKILL);
    }
    close(pfd);
  }
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (o.group) kill(-pid, SIGKILL);
  if (WIFEXITED(st)) r.code = WEXITSTATUS(st);
  else if (WIFSIGNALED(st)) {
    r.sig = WTERMSIG(st);
    if (r.sig == SIGXCPU) r.timeout = true;
  }
  struct stat sb;
  if (fstat(fd, &sb) == 0 && sb.st_size > 0) {
    r.out.resize(sb.st_size);
    ssize_t n = pread(fd, &r.out[0], sb.st_size, 0);
    r.out.resize(n > 0 ? n : 0);
  }
  return r;
}

inline RunResult run_gkc(const vector<string> &args, const RunOpt &o = RunOpt()) {
  return run_child(
      [&]() -> int {
        static vector<string> a;
        a = args;
        static vector<char *> av;
        av.clear();
        av.push_back(strdup("gkc"));
        for (auto &s : a) av.push_back(strdup(s.c_str()));
        av.push_back(nullptr);
        return gkc_orig_main((int)a.size() + 1, av.data());
      },
      o);
}

// ------------------------------------------------------- counters and verdicts
struct Ctx {
  std::map<string, u64> cnt;
  vector<string> samples;
  FILE *vf = nullptr;  // violations, one JSON object per line
  int nviol = 0;
  void add(const string &k, u64 n = 1) { cnt[k] += n; }
  void sample(const string &s, size_t cap = 3) {
    if (samples.size() < cap) samples.push_back(s);
  }
};

struct Shared {
  std::atomic<u64> next;
  std::atomic<u64> nviol;
  std::atomic<int> stop;
};

// key: stable identification of the failing input; what: one line; args: gkc command line (or other replay data)
inline string viol_json(const string &key, const string &what, const vector<string> &args, const string &detail) {
  string j = "{\"key\": " + jstr(key) + ", \"what\": " + jstr(what) + ", \"args\": [";
  for (size_t i = 0; i < args.size(); i++) j += (i ? ", " : "") + jstr(args[i]);
  j += "], \"detail\": " + jstr(detail.size() > 6000 ? detail.substr(0, 6000) : detail) + "}";
  return j;
}

// What a worker is doing right now, in memory shared with the parent: when the code under test crashes
// or hangs inside the worker itself, the parent reports this as the failing case.
struct Trace {
  static constexpr size_t N = 4096;
  static char *&buf() {
    static char *b = nullptr;
    return b;
  }
  static void set(const string &s) {
    if (!buf()) return;
    size_t n = std::min(s.size(), N - 1);
    memcpy(buf(), s.data(), n);
    buf()[n] = 0;
  }
  // CPU seconds allowed from now on (0: no limit)
  static void limit(double sec) {
    struct itimerval t = {{0, 0}, {(long)sec, (long)((sec - (long)sec) * 1e6)}};
    setitimer(ITIMER_PROF, &t, nullptr);
  }
};

struct Driver {
  string tier = "quick", outfile, scratch;
  int jobs = 8;
  double budget = 600;  // wall cap of the whole check
  double t0 = now_s();
  bool capped = false;
  std::map<string, u64> cnt;
  vector<string> samples;
  std::map<string, string> texts;  // rule, bounds, ...
  vector<string> violations;       // JSON objects
  std::set<string> vkeys;
  bool quick() const { return tier != "thorough"; }
  bool over() const { return now_s() - t0 > budget; }
  u64 violcap = 40;

  void add_violation_json(const string &j) { violations.push_back(j); }

  // exhaustive loop over 0..n-1, spread over worker processes by chunks
  void pfor(u64 n, const std::function<void(u64, Ctx &)> &fn, u64 chunk = 0,
            const std::function<void(Ctx &)> &atend = nullptr) {
    if (n == 0) return;
    if (!chunk) chunk = std::max<u64>(1, std::min<u64>(64, n / (jobs * 16) + 1));
    Shared *sh = (Shared *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    new (sh) Shared();
    sh->next = 0;
    sh->nviol = violations.size();
    sh->stop = 0;
    vector<pid_t> pids;
    vector<string> files;
    int nj = (int)std::min<u64>(jobs, (n + chunk - 1) / chunk);
    char *traces = (char *)mmap(nullptr, Trace::N * nj, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    fflush(stdout);
    fflush(stderr);
    for (int w = 0; w < nj; w++) {
      string fn_ = scratch + "/w" + std::to_string(getpid()) + "_" + std::to_string(w);
      files.push_back(fn_);
      pid_t p = fork();
      if (p < 0) { perror("fork"); exit(3); }
      if (p == 0) {
        Ctx c;
        Trace::buf() = traces + w * Trace::N;
        c.vf = fopen((fn_ + ".v").c_str(), "w");
        bool cap = false;
        for (;;) {
          if (sh->stop.load() || sh->nviol.load() >= violcap) break;
          u64 b = sh->next.fetch_add(chunk);
          if (b >= n) break;
          for (u64 i = b; i < std::min(n, b + chunk); i++) {
            if (over()) { cap = true; break; }
            int before = c.nviol;
            fn(i, c);
            c.cnt["~done"]++;
            if (c.nviol != before) {
              sh->nviol += c.nviol - before;
              fflush(c.vf);
              if (sh->nviol.load() >= violcap) break;
            }
          }
          if (cap) { sh->stop = 1; break; }
        }
        if (atend) atend(c);
        if (cap) c.cnt["~capped"] = 1;
        fclose(c.vf);
        FILE *f = fopen((fn_ + ".c").c_str(), "w");
        for (auto &k : c.cnt) fprintf(f, "C\t%s\t%llu\n", k.first.c_str(), (unsigned long long)k.second);
        for (auto &s : c.samples) fprintf(f, "S\t%s\n", jesc(s).c_str());
        fclose(f);
        fflush(nullptr);
        _exit(0);
      }
      pids.push_back(p);
    }
    bool bad = false;
    for (size_t w = 0; w < pids.size(); w++) {
      int st = 0;
      while (waitpid(pids[w], &st, 0) < 0 && errno == EINTR) {}
      if (!WIFEXITED(st) || WEXITSTATUS(st)) {
        string tr = traces + w * Trace::N;
        bool hang = WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF;
        if (!tr.empty()) {
          string k = hang ? "does not end" : WIFSIGNALED(st) ? "ended by signal " + std::to_string(WTERMSIG(st)) : "ended with exit code " + std::to_string(WEXITSTATUS(st));
          violations.push_back(viol_json((hang ? "hang:" : "crash:") + tr, "the code under test " + k + " on: " + tr, {}, tr));
        } else bad = true;
        fprintf(stderr, "worker ended abnormally: status %x %s\n", st, tr.c_str());
      }
    }
    munmap(sh, 4096);
    munmap(traces, Trace::N * nj);
    if (bad) { fprintf(stderr, "CHECK ERROR: a worker process of the checker failed\n"); exit(4); }
    u64 done = 0;
    for (auto &fn_ : files) {
      char *line = nullptr;
      size_t cap = 0;
      FILE *f = fopen((fn_ + ".v").c_str(), "r");
      if (f) {
        while (getline(&line, &cap, f) > 0) {
          string s = line;
          while (!s.empty() && s.back() == '\n') s.pop_back();
          violations.push_back(s);
        }
        fclose(f);
      }
      f = fopen((fn_ + ".c").c_str(), "r");
      if (f) {
        while (getline(&line, &cap, f) > 0) {
          string s = line;
          while (!s.empty() && s.back() == '\n') s.pop_back();
          if (s[0] == 'C') {
            size_t t2 = s.find('\t', 2);
            string k = s.substr(2, t2 - 2);
            u64 v = strtoull(s.c_str() + t2 + 1, nullptr, 10);
            if (k == "~capped") capped = true;
            else if (k == "~done") done += v;
            else if (k.compare(0, 4, "max:") == 0) cnt[k] = std::max(cnt[k], v);
            else cnt[k] += v;
          } else if (s[0] == 'S' && samples.size() < 6)
            samples.push_back(s.substr(2));
        }
        fclose(f);
      }
      free(line);
      unlink((fn_ + ".v").c_str());
      unlink((fn_ + ".c").c_str());
    }
    cnt["index_space_done"] += done;
    cnt["index_space_total"] += n;
  }

  void write() {
    FILE *f = fopen(outfile.c_str(), "w");
    if (!f) { perror(outfile.c_str()); exit(3); }
    fprintf(f, "{\"capped\": %s, \"wall_s\": %.2f,\n \"counters\": {", capped ? "true" : "false", now_s() - t0);
    bool first = true;
    for (auto &k : cnt) {
      fprintf(f, "%s%s: %llu", first ? "" : ", ", jstr(k.first).c_str(), (unsigned long long)k.second);
      first = false;
    }
    fprintf(f, "},\n \"texts\": {");
    first = true;
    for (auto &k : texts) {
      fprintf(f, "%s%s: %s", first ? "" : ", ", jstr(k.first).c_str(), jstr(k.second).c_str());
      first = false;
    }
    fprintf(f, "},\n \"samples\": [");
    first = true;
    for (auto &s : samples) {
      fprintf(f, "%s\"%s\"", first ? "" : ", ", s.c_str());
      first = false;
    }
    fprintf(f, "],\n \"violations\": [");
    first = true;
    for (auto &v : violations) {
      fprintf(f, "%s\n  %s", first ? "" : ",", v.c_str());
      first = false;
    }
    fprintf(f, "]}\n");
    fclose(f);
  }
};

inline void violation(Ctx &c, const string &key, const string &what, const vector<string> &args,
                      const string &detail) {
  c.nviol++;
  fprintf(c.vf, "%s\n", viol_json(key, what, args, detail).c_str());
  fflush(c.vf);
}

typedef void (*CheckFn)(Driver &);
struct CheckReg {
  static std::map<string, CheckFn> &all() {
    static std::map<string, CheckFn> m;
    return m;
  }
  CheckReg(const char *n, CheckFn f) { all()[n] = f; }
};
