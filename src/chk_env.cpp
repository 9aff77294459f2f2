// C12: the time runs out at every point of the search.
#include "chk_search.cpp"
#include <signal.h>
#include <sys/time.h>

namespace {
struct Probe {  // shared with the child
  long reads, calls, fired, after;
};
Probe *probe;
long fire_at, jump;
bool use_alarm;
bool armed;
// called at each point: 1 = clock read, 0 = memory call
void at_point(bool read) {
  if (!probe || !armed) return;
  if (use_alarm) {  // only from the point where gkc asked for the signal
    struct sigaction sa;
    sigaction(SIGALRM, nullptr, &sa);
    if (sa.sa_handler == SIG_DFL) return;
    struct itimerval tv;  // and as long as it is asked for
    getitimer(ITIMER_REAL, &tv);
    if (!tv.it_value.tv_sec && !tv.it_value.tv_usec) return;
  }
  long n;
  if (read) n = ++probe->reads;
  else n = ++probe->calls;
  if (probe->fired) { if (read) probe->after++; }
  if (n == fire_at && read == !use_alarm && !probe->fired) {
    probe->fired = 1;
    if (use_alarm) raise(SIGALRM);
    else gkv_clock_now += jump;
  }
}
void hook(long) { at_point(true); if (use_alarm) at_point(false); }
}
extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
void *__wrap_malloc(size_t n) { at_point(false); return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { at_point(false); return __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { at_point(false); return __real_realloc(p, n); }
void __wrap_free(void *p) { at_point(false); __real_free(p); }
}
namespace {
struct Conf { string name; vector<string> args; double limit; };  // limit: seconds of one run

vector<string> cmd(const Conf &cf, const string &text) {
  vector<string> a = {"-mbsize", "10", "-parallel", "0", "-print", "10"};
  for (auto &x : cf.args) a.push_back(x);
  a.push_back("-text");
  a.push_back(text);
  return a;
}

RunResult go(const Conf &cf, const string &text, long step, long at, long jmp, bool alrm, const vector<string> &a) {
  memset(probe, 0, sizeof *probe);
  RunOpt o;
  o.clock_step = step;
  o.wall = 30;
  fire_at = at;
  jump = jmp;
  use_alarm = alrm;
  o.prepare = [] { gkv_clock_hook = hook; armed = true; };
  return run_gkc(a, o);
}

int results(const string &out) {
  int n = 0;
  size_t p = 0;
  while ((p = out.find("result: ", p)) != string::npos) { n++; p++; }
  p = 0;
  while ((p = out.find("\"result\":", p)) != string::npos) { n++; p++; }
  return n;
}

void points(Driver &d, Space &s, const vector<vector<int>> &prob, const vector<Conf> &confs, u64 maxk, bool alrm, int reads) {
  const double J[] = {0.55, 0.75, 0.87, 0.95, 1.2, 1e4};
  d.pfor(prob.size() * confs.size(), [&](u64 j, Ctx &c) {
    auto &x = prob[j / confs.size()];
    auto &cf = confs[j % confs.size()];
    string txt = str(s.clauses(x));
    bool sat = bits_any(s.models(x));
    auto a = cmd(cf, txt);
    string id = "C12:" + cf.name + ":" + txt;
    long step = (long)(cf.limit * 1e6 / reads);
    auto r0 = go(cf, txt, step, -1, 0, alrm, a);
    c.add("evaluations");
    if (abnormal(c, r0, "C12", a, txt)) return;
    
    long n = alrm ? probe->calls : probe->reads;
    auto o0 = parse_output(r0.out);
    c.add("max:points_of_a_run", n);
    c.add(o0.found ? "runs_with_proof" : "runs_without_proof");
    if (n > (long)maxk) { c.add("runs_cut_to_the_first_points"); n = maxk; }
    for (long k = 1; k <= n; k++) {
      for (int jn = 0; jn < (alrm ? 1 : 6); jn++) {
        auto r = go(cf, txt, step, k, (long)(J[jn] * cf.limit * 1e6), alrm, a);
        string at = alrm ? "the alarm at point " + std::to_string(k) : "a jump by " + std::to_string(J[jn]) + " limits at clock read " + std::to_string(k);
        string vid = id + ":" + std::to_string(k) + ":" + std::to_string(jn) + (alrm ? "a" : "");
        c.add("evaluations");
        if (r.crashed()) { violation(c, vid, "gkc ended by signal " + std::to_string(r.sig) + " with " + at + " on: " + txt, a, r.out); return; }
        if (r.timeout) { violation(c, vid, "gkc does not end with " + at + " on: " + txt, a, r.out); return; }
        auto o = parse_output(r.out);
        int nr = results(r.out);
        if (nr != 1) { violation(c, vid, std::to_string(nr) + " results with " + at + " on: " + txt, a, r.out); return; }
        if (!alrm && r.code != 0) { violation(c, vid, "exit code " + std::to_string(r.code) + " with " + at + " on: " + txt, a, r.out); return; }
        if (o.found && sat) { violation(c, vid, "proof reported with " + at + " for the satisfiable set: " + txt, a, r.out); return; }
        if (o.found && !alrm && !o0.found && !sat) c.add("proof_only_with_less_time");
        if (!o.found && o0.found) { c.add("proof_lost_to_the_limit"); c.add("distinct_nontrivial"); }
        if (o.found && !o0.found) c.add("distinct_nontrivial");
        if (o.found && !o.parse_ok) { violation(c, vid, "proof not readable with " + at + " on: " + txt + ": " + o.perr, a, r.out); return; }
        if (o.found && o.answers.empty()) { violation(c, vid, "no proof printed with " + at + " on: " + txt, a, r.out); return; }
        for (auto &w : o.answers) {
          u64 steps = 0;
          bool inst = false;  // steps of the propositional solver are printed as literal numbers
          for (auto &st : w.steps) if (st.rule == "inst") inst = true;
          if (inst) { c.add("proofs_by_propositional_solver"); continue; }
          string bad = check_proof(s, x, w, steps);
          c.add("proofs_checked");
          if (!bad.empty()) { violation(c, vid, "invalid proof with " + at + " on: " + txt + ": " + bad, a, r.out); return; }
        }
        if (jn == 5) c.add("max:reads_after_the_end_of_all_time", 0), c.cnt["max:reads_after"] = std::max<u64>(c.cnt["max:reads_after"], probe->after);
      }
    }
    if (j % 301 == 7) c.sample(cf.name + ": " + txt);
  }, 1);
}

void c12(Driver &d) {
  bool q = d.quick();
  probe = (Probe *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  auto q1 = [](const char *n, const char *x) { return "{\"strategy\":[\"" + string(n) + "\"],\"query_preference\":0," + x + "}"; };
  vector<Conf> cs;
  cs.push_back({"one run, deciseconds", {"-strategytext", q1("negative_pref", "\"max_dseconds\":10")}, 1});
  cs.push_back({"one run, seconds", {"-strategytext", q1("hyper", "\"max_seconds\":2")}, 2});
  cs.push_back({"three runs", {"-strategytext", "{\"max_seconds\":2,\"runs\":[" + q1("positive_pref", "\"max_dseconds\":5") + "," + q1("unit", "\"max_dseconds\":5") + "," + q1("double", "\"max_seconds\":1") + "]}"}, 0.5});
  cs.push_back({"instgen", {"-strategytext", "{\"strategy\":[\"negative_pref\"],\"instgen\":1,\"max_dseconds\":10}"}, 1});
  cs.push_back({"propgen", {"-strategytext", "{\"strategy\":[\"query_focus\"],\"query_preference\":1,\"propgen\":1,\"max_dseconds\":10}"}, 1});
  vector<Conf> al;
  for (int i : {0, 2}) { al.push_back(cs[i]); al.back().args.insert(al.back().args.end(), {"-seconds", "20"}); }
  struct Fm { Space s; size_t kun, ksat; };
  vector<Fm> fs;
  fs.push_back({sp_prop(3, 3, {1, 2, 3, 4}), 4, 2});
  fs.push_back({sp_monadic(false, {1, 2, 3}), q ? 2u : 3u, q ? 1u : 2u});
  fs.push_back({sp_rel(3, {1, 2, 3}), q ? 2u : 3u, q ? 1u : 2u});
  fs.push_back({sp_long({1, 2, 3}), 2, 1});
  fs.push_back({sp_eq(false, {1, 2, 3}), q ? 2u : 3u, q ? 1u : 2u});
  fs.push_back({sp_alg(1), 9, 9});
  vector<Space> note_;
  for (auto &f : fs) {
    auto un = contradictory(d, f.s, f.kun, true);
    auto sat = pick(f.s, [&](const vector<int> &x, bool st) { return st && x.size() <= f.ksat && f.s.impure(x); });
    fprintf(stderr, "%s: %zu contradictory, %zu satisfiable\n", f.s.name.c_str(), un.size(), sat.size());
    if (getenv("GKV_COUNT")) continue;
    for (auto &x : sat) un.push_back(x);
    double t = now_s();
    points(d, f.s, un, cs, 1000, false, f.s.name.find("equal") == string::npos && f.s.name.find("alg") == string::npos ? 100 : 30);
    fprintf(stderr, "  %.1f s\n", now_s() - t);
    // the real-time limit of the whole run comes as a signal
    vector<vector<int>> few;
    for (size_t i = 0; i < un.size(); i += q ? un.size() / 2 + 1 : un.size() / 24 + 1) few.push_back(un[i]);
    few.push_back(un.back());
    t = now_s();
    points(d, f.s, few, {al[0], al[1]}, q ? 4000 : 20000, true, 100);
    fprintf(stderr, "  alarm %.1f s\n", now_s() - t);
  }
}
CheckReg r12("C12", c12);
}
