// C16, C17: queries against a knowledge base in shared memory.
#include "chk_answer.cpp"
#include "chk_search.cpp"
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
extern "C" {
extern char gkv_shm_dir[256];
extern void *gkv_shm_addr;
extern int gkv_shm_rdonly, gkv_shm_rw;
}
namespace {
string kdir;   // scratch directory in memory
struct Att { int ro, rw; } *att;

void put(const string &f, const string &t) {
  FILE *o = fopen(f.c_str(), "w");
  if (!o || fwrite(t.data(), 1, t.size(), o) != t.size() || fclose(o)) { perror(f.c_str()); exit(3); }
}
// hash of the used parts of a segment
u64 hash_file(const string &f, u64 &bytes) {
  int fd = open(f.c_str(), O_RDONLY);
  if (fd < 0) return 0;
  u64 h = 1469598103934665603ull;
  off_t p = 0;
  vector<u64> buf(1 << 15);
  bytes = 0;
  while ((p = lseek(fd, p, SEEK_DATA)) >= 0) {
    off_t e = lseek(fd, p, SEEK_HOLE);
    while (p < e) {
      ssize_t n = pread(fd, buf.data(), std::min<off_t>(e - p, buf.size() * 8), p);
      if (n <= 0) break;
      bool nz = false;
      for (ssize_t i = 0; i < n / 8; i++) if (buf[i]) { h = (h ^ buf[i] ^ (p + i * 8)) * 1099511628211ull; h ^= h >> 29; nz = true; }
      (void)nz;
      p += n;
      bytes += n;
    }
  }
  close(fd);
  return h;
}

struct Kb {
  int nr;
  string dir, file;
  RunResult built;
  u64 h0 = 0, bytes = 0;
  Kb(const string &text) {
    static int n = 0;
    nr = 1000 + (int)(getpid() % 1000000) * 1000 + n++ % 1000;
    dir = kdir + "/" + std::to_string(getpid());
    mkdir(dir.c_str(), 0700);
    string kf = dir + "/kb.txt";
    put(kf, text);
    RunOpt o = opt();
    built = run_gkc({"-readkb", kf, "-mbsize", "1000", "-mbnr", std::to_string(nr)}, o);
    file = dir + "/shm" + std::to_string(nr);
    h0 = hash_file(file, bytes);
  }
  bool ok() { return built.code == 0 && !built.sig && h0; }
  RunOpt opt() {
    RunOpt o;
    o.wall = 60;
    o.maxout = 2000u << 20;
    o.clock_step = STEP;
    o.prepare = [this] { snprintf(gkv_shm_dir, 256, "%s", dir.c_str()); };
    return o;
  }
  RunResult ask(const string &query, const vector<string> &extra, long step = STEP, void *addr = nullptr) {
    string qf = dir + "/q.txt";
    put(qf, query);
    RunOpt o = opt();
    o.clock_step = step;
    auto pr = o.prepare;
    o.prepare = [pr, addr] { pr(); gkv_shm_addr = addr; };
    o.finish = [] { att->ro = gkv_shm_rdonly; att->rw = gkv_shm_rw; };
    memset(att, 0, sizeof *att);
    vector<string> a = {"-usekb", qf, "-mbsize", "10", "-parallel", "0", "-print", "10", "-mbnr", std::to_string(nr)};
    a.insert(a.end(), extra.begin(), extra.end());
    return run_gkc(a, o);
  }
  bool changed() { u64 b; return hash_file(file, b) != h0; }
  ~Kb() { unlink(file.c_str()); }
};


void setup(Driver &d) {
  kdir = d.scratch + "/kb";
  mkdir(kdir.c_str(), 0700);
  att = (Att *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}

vector<Strat> kb_strats(bool q) {
  vector<Strat> o;
  std::set<string> want = {"negative_pref", "hyper", "unit", "positive_pref", "double", "query_focus", "query_focus \"query_preference\":1", "negative_pref \"query_preference\":1"};
  for (auto &s : strategies()) if (!q || want.count(s.name)) o.push_back(s);
  return o;
}

string kbtext(Space &s, const vector<int> &x) { return str(s.clauses(x)); }

// every split of each problem into knowledge base and query
void splits(Driver &d, Space &s, const vector<vector<int>> &probs, const vector<Strat> &st, std::set<string> &skip) {
  std::map<vector<int>, vector<vector<int>>> by;
  for (auto &x : probs) {
    for (int m = 1; m + 1 < (1 << x.size()); m++) {
      vector<int> k, q;
      for (size_t i = 0; i < x.size(); i++) (m >> i & 1 ? k : q).push_back(x[i]);
      by[k].push_back(q);
    }
  }
  vector<std::pair<vector<int>, vector<vector<int>>>> g(by.begin(), by.end());
  d.cnt["knowledge_bases_" + s.name] += g.size();
  d.pfor(g.size(), [&](u64 j, Ctx &c) {
    auto &kx = g[j].first;
    Kb kb(kbtext(s, kx));
    if (!kb.ok()) { violation(c, "C16:kb:" + kbtext(s, kx), "-readkb fails on: " + kbtext(s, kx), {}, kb.built.out); return; }
    bool ksat = bits_any(s.models(kx));
    (void)ksat;
    for (auto &qx : g[j].second) {
      vector<int> x = kx;
      x.insert(x.end(), qx.begin(), qx.end());
      bool sat = bits_any(s.models(x));
      string qt = kbtext(s, qx), txt = "KB " + kbtext(s, kx) + " QUERY " + qt;
      for (auto &z : st) {
        vector<string> ex = {"-strategytext", z.text};
        auto r = kb.ask(qt, ex);
        c.add("evaluations");
        string id = "C16:" + z.name + ":" + txt;
        vector<string> a = {"-usekb", qt, "-strategytext", z.text};
        if (r.sig || r.timeout) { violation(c, id, "gkc " + (r.timeout ? string("does not end") : "ended by signal " + std::to_string(r.sig)) + " on " + txt, a, r.out); continue; }
        auto o = parse_output(r.out);
        if (o.found && sat) { violation(c, id, "proof reported for the satisfiable " + txt, a, r.out); continue; }
        if (!o.found && !o.notfound) { violation(c, id, "no result on " + txt, a, r.out); continue; }
        if (!o.found && !sat && z.complete) {
          auto pl = run_case(cmdline(z, kbtext(s, x)));
          c.add("not_found_compared_with_plain_input");
          if (parse_output(pl.out).found) {
            r = kb.ask(qt, ex, STEP / 40);
            if (!parse_output(r.out).found) { violation(c, id, "not proved (" + z.name + "), though it is as plain input: " + txt, a, r.out); }
          }
          continue;
        }
        if (!o.found) { c.add("not_found"); continue; }
        c.add("distinct_nontrivial");
        if (!o.parse_ok || o.answers.empty()) { violation(c, id, "proof not readable on " + txt + ": " + o.perr, a, r.out); continue; }
        for (auto &w : o.answers) {
          u64 steps = 0;
          string bad = check_proof(s, x, w, steps);
          c.add("proofs_checked");
          if (!bad.empty()) { violation(c, id, "invalid proof on " + txt + ": " + bad, a, r.out); break; }
        }
      }
    }
    if (kb.changed()) violation(c, "C17:" + kbtext(s, kx), "the knowledge base was changed by queries: " + kbtext(s, kx), {}, "");
    if (j % 97 == 3) c.sample("KB " + kbtext(s, kx) + " QUERY " + kbtext(s, g[j].second[0]));
  }, 1);
}

// values: p(v) in the knowledge base, -p(w) as query
const char *VALS[] = {"a", "b", "1", "2", "1.5", "1.0", "-3", "123456789012", "\"a\"", "\"b\"", "\"\"", "'long symbol of more than thirty-two characters: 0123456789'", "'long symbol of more than thirty-two characters: 0123456780'",
  "\"long string of more than thirty-two characters: 0123456789\"", "\"long string of more than thirty-two characters: 0123456780\"", "f(a)", "f(b)", "f(1)", "f(\"a\")", "f(f(a))", "g(a,1)", "g(1,a)", "g(1.5,\"long string of more than thirty-two characters: 0123456789\")",
  "[]", "[a]", "[1,2]", "[a,[b]]", "f([1,\"x\"])", "'A'", "'a b'", "$sum(1,2)", "3", "$sum(1.25,0.25)"};
const int NVAL = sizeof VALS / sizeof *VALS;
int val_class(int i) {  // values that are equal
  string v = VALS[i];
  if (v == "$sum(1,2)" || v == "3") return 1000;
  if (v == "1.5" || v == "$sum(1.25,0.25)") return 1001;
  return i;
}

void values(Driver &d, const vector<Strat> &st) {
  struct Shape { const char *kb, *q; int kind; };  // kind 0: proof if equal, 1: as Horn rule, 2: answer
  vector<Shape> sh = {{"p(%).", "-p(%).", 0}, {"p(%). -p(X) | q(X,c).", "-q(%,c).", 0}, {"c = %. p(c).", "-p(%).", 0}, {"p(%).", "-p(X) | X = %.", 1}, {"p(%).", "-p(X) | $ans(X).", 2}, {"r(X,X). p(%).", "-p(X) | -r(X,%).", 0},
    {"-p(X) | X = %.", "p(%).", 1}, {"e = %.", "e != %.", 0}, {"p(%) | q(%).", "-p(%). -q(X).", 0}};
  d.pfor(sh.size() * NVAL, [&](u64 j, Ctx &c) {
    auto &h = sh[j / NVAL];
    int v = j % NVAL;
    auto sub = [](string t, const string &x) { string o; for (char ch : t) if (ch == '%') o += x; else o += ch; return o; };
    string kt = sub(h.kb, VALS[v]);
    Kb kb(kt);
    if (!kb.ok()) { violation(c, "C16:kb:" + kt, "-readkb fails on: " + kt, {}, kb.built.out); return; }
    for (int w = 0; w < NVAL; w++) {
      if (h.kind == 2 && w) continue;
      string qt = sub(h.q, VALS[w]), txt = "KB " + kt + " QUERY " + qt;
      for (auto &z : st) {
        vector<string> ex = {"-strategytext", z.text};
        auto r = kb.ask(qt, ex);
        auto pl = run_case(cmdline(z, kt + " " + qt));
        auto o = parse_output(r.out), p = parse_output(pl.out);
        c.add("evaluations", 2);
        string id = "C16:" + z.name + ":" + txt;
        vector<string> a = {"-usekb", qt, "-strategytext", z.text};
        if (r.sig || r.timeout) { violation(c, id, "gkc " + (r.timeout ? string("does not end") : "ended by signal " + std::to_string(r.sig)) + " on " + txt, a, r.out); continue; }
        if (!o.found && !o.notfound) { violation(c, id, "no result on " + txt, a, r.out); continue; }
        c.add(o.found ? "distinct_nontrivial" : "not_found");
        if (h.kind == 0 && o.found && val_class(v) != val_class(w) && !(string(h.kb).find("=") != string::npos)) { violation(c, id, "proof for different values, " + txt, a, r.out); continue; }
        if (h.kind == 0 && !o.found && val_class(v) == val_class(w) && z.complete) { violation(c, id, "no proof for equal values, " + txt, a, r.out); continue; }
        if (o.found != p.found && z.complete) { violation(c, id, string(o.found ? "proved" : "not proved") + " (" + z.name + "), other than as plain input: " + txt, a, r.out + "\n--- plain:\n" + pl.out); continue; }
        if (h.kind == 2 && o.found && (o.answers.empty() || o.answers[0].text != p.answers[0].text)) { violation(c, id, "another answer than as plain input: " + txt, a, r.out + "\n--- plain:\n" + pl.out); continue; }
      }
    }
    if (kb.changed()) violation(c, "C17:" + kt, "the knowledge base was changed by queries: " + kt, {}, "");
  }, 1);
}

void c16(Driver &d) {
  bool q = d.quick();
  setup(d);
  auto st = kb_strats(q);
  struct Fm { Space s; size_t kun, ksat; };
  vector<Fm> fs;
  fs.push_back({sp_prop(3, 3, {1, 2, 3, 4}), 4, 2});
  fs.push_back({sp_monadic(false, {1, 2, 3}), q ? 2u : 3u, 2});
  fs.push_back({sp_rel(3, {1, 2, 3}), q ? 2u : 3u, 2});
  fs.push_back({sp_long({1, 2, 3}), q ? 2u : 3u, q ? 1u : 2u});
  fs.push_back({sp_eq(false, {1, 2, 3}), q ? 2u : 3u, 2});
  fs.push_back({sp_alg(q ? 1 : 2), 9, 9});
  std::set<string> skip;
  for (auto &f : fs) {
    auto un = contradictory(d, f.s, f.kun, true);
    auto sat = pick(f.s, [&](const vector<int> &x, bool st) { return st && x.size() > 1 && x.size() <= f.ksat && f.s.impure(x); });
    fprintf(stderr, "%s: %zu contradictory, %zu satisfiable\n", f.s.name.c_str(), un.size(), sat.size());
    if (getenv("GKV_COUNT")) continue;
    for (auto &x : sat) un.push_back(x);
    double t = now_s();
    splits(d, f.s, un, st, skip);
    fprintf(stderr, "  %.1f s\n", now_s() - t);
  }
  double t = now_s();
  values(d, {st[0], st[1]});
  fprintf(stderr, "values %.1f s\n", now_s() - t);
  // answers: facts and rules as knowledge base, or facts only
  t = now_s();
  run_id = "C16";
  for (int mode = 0; mode < 2; mode++) {
    run_on = [mode](const vector<Clause> &cs, const St &st, const RunOpt &o, vector<string> &a) {
      static Kb *kb = nullptr;
      static string cur;
      string kt, qt;
      for (size_t i = 0; i < cs.size(); i++) {
        bool fact = cs[i].size() == 1;
        if (i + 1 == cs.size() || (mode && !fact)) qt += str(cs[i]) + ". ";
        else kt += str(cs[i]) + ". ";
      }
      if (kt.empty()) kt = "zz(zz). ";  // a knowledge base without facts must not be empty
      if (!kb || cur != kt) { delete kb; kb = new Kb(kt); cur = kt; }
      a = {"-usekb", qt, "-strategytext", st.text};
      return kb->ask(qt, {"-strategytext", st.text}, o.clock_step);
    };
    Fam f = {"mixed", {"p(a).", "p(X).", "q(b).", "q(c).", "r(a,b).", "r(X,a)."},
      {"-p(X) | q(X).", "-q(X) | -r(X,Y) | p(Y).", "-r(X,Y) | p(X).", "-p(X) | r(X,b)."},
      {"-p(X) | $ans(X).", "-q(X) | -p(X) | $ans(X).", "-r(X,Y) | -q(Y) | $ans(X,Y)."}, q ? 2u : 3u, q ? 1u : 2u, true};
    family(d, f, q ? vector<int>{1, 4, 5} : vector<int>{0, 1, 2, 3, 4, 5}, {1000});
    Fam n = {"disjunctive", {"p(a) | p(b).", "p(X) | r(X,a).", "p(a).", "r(a,b).", "r(X,Y) | p(Y).", "-p(a)."},
      {"-p(X) | r(X,X).", "-r(X,Y) | r(Y,X).", "-r(X,X) | p(X)."},
      {"-p(X) | $ans(X).", "-r(X,Y) | $ans(X).", "-r(a,X) | $ans(X)."}, 2, q ? 1u : 2u, false, {{"a", 0, false}, {"b", 0, false}, {"p", 1, true}, {"r", 2, true}, {"$ans", 1, true}}};
    family(d, n, {1, 4, 5}, {1000});
  }
  fprintf(stderr, "answers %.1f s\n", now_s() - t);
  run_on = nullptr;
  d.texts["bounds"] = "all splits of the contradictory and satisfiable sets of each space into knowledge base and query, " + std::to_string(st.size()) + " strategies; all pairs of " + std::to_string(NVAL) + " values in 9 shapes; answer families with facts and rules, or facts only, as knowledge base";
}
CheckReg r16("C16", c16);
}

namespace {
const char *KBS[] = {
  "p(a). -p(X) | q(X). r(a,b). r(b,c). -r(X,Y) | -r(Y,Z) | r(X,Z).",
  "f(a) = b. f(X) = g(X). p(b). -p(X) | q(f(X)). a = c | q(d).",
  "p(\"a string of more than thirty-two characters, stored apart\"). p(\"s\"). p(1). p(1.5). p([a,1,\"s\"]). p(f(f(a))). -p(X) | $less(X,3) | q(X).",
  "![X]: (p(X) => ?[Y]: r(X,Y)). ![X,Y]: (r(X,Y) => p(Y)). p(a) | p(b). ~(p(c) & q(c)).",
  "g(X,Y) = g(Y,X). g(g(X,Y),Z) = g(X,g(Y,Z)). g(e,X) = X. g(i(X),X) = e.",
  "p(a). p(b). p(c). -p(X) | p(s(X)). -q(X). r(X,s(X)). q('A b') | q(z).",
  "pp. qq. pp => rr. rr & qq => ss. ~tt | ss.",
  "-p(X,Y) | -p(Y,X) | p(X,X). p(a,b). p(b,a) | $ans(a). n($sum(1,2)). n(X) => m($product(X,2)). m(6) => ok(yes).",
};
const char *QS[] = {
  "-q(a).", "-p(X) | $ans(X).", "-r(a,X) | $ans(X).", "p(new). -q(new).", "-p(\"another string of more than thirty-two characters, new\") | -q(X).",
  "-p(\"a string of more than thirty-two characters, stored apart\").", "a = b. -q(b).", "f(a) != g(a).", "f(X) = X.", "?[X]: (p(X) & q(X)).", "-p([X|Y]).", "-p(1.5).", "-ok(yes).", "-ss.", "g(a,i(a)) != e.", "g(a,b) != g(b,a).",
  "-p(s(s(a))).", "-r(X,s(X)) | $ans(X).", "-q('A b'). -q(z).", "X = Y.", "p(", "", "include('nothing.txt').", "nosuch(a).", "-$less(1,2).", "-p(X,X) | $ans(X).", "-p(X) | -p(Y) | X = Y.", "![X]: (p(X) => q(X)).", "pp. -pp.", "-n(3) | -m(6).", "q(X) | -p(X). -q(s(a)).",
};
const int NKB = sizeof KBS / sizeof *KBS, NQ = sizeof QS / sizeof *QS;

void c17(Driver &d) {
  bool q = d.quick();
  setup(d);
  auto st = strategies();
  auto add = [&](const string &n, const string &x) { st.push_back({n, x, false}); };
  add("instgen", "{\"strategy\":[\"negative_pref\"],\"instgen\":1,\"max_dseconds\":10}");
  add("propgen", "{\"strategy\":[\"negative_pref\"],\"propgen\":1,\"max_dseconds\":10}");
  add("instgen focus", "{\"strategy\":[\"query_focus\"],\"query_preference\":1,\"instgen\":1,\"max_dseconds\":10}");
  add("arith", "{\"strategy\":[\"negative_pref\"],\"arith_instantiation\":1,\"max_dseconds\":10}");
  add("answers", "{\"strategy\":[\"negative_pref\"],\"max_answers\":5,\"max_dseconds\":10}");
  add("runs", "{\"max_dseconds\":10,\"runs\":[{\"strategy\":[\"query_focus\"],\"query_preference\":1,\"max_dseconds\":4},{\"strategy\":[\"unit\"],\"max_dseconds\":4},{\"strategy\":[\"hyper\"],\"max_dseconds\":4}]}");
  add("sine", "{\"strategy\":[\"negative_pref\"],\"sine\":1,\"max_dseconds\":10}");
  add("", "");
  vector<vector<string>> opts = {{}};
  if (!q) opts = {{}, {"-json"}, {"-tptp"}, {"-print", "15"}, {"-derived"}};
  const size_t addr[] = {0, 0x100000000ull, 0x300000000000ull, 0x7ff000000000ull - (1ull << 34)};
  u64 per = (u64)NKB * opts.size();
  d.pfor(per * (q ? 4 : NQ), [&](u64 j, Ctx &c) {
    int part = j % (q ? 4 : NQ), parts = q ? 4 : NQ;
    u64 k = j / parts;
    string kt = KBS[k % NKB];
    auto &op = opts[k / NKB];
    Kb kb(kt);
    if (!kb.ok()) { violation(c, "C17:kb:" + kt, "-readkb fails on: " + kt, {}, kb.built.out); return; }
    for (int qi = part; qi < NQ; qi += parts) {
      string qt = QS[qi];
      std::map<string, Output> first;
      for (auto &z : st) {
        for (int ai = 0; ai < 4; ai++) {
          vector<string> ex = op;
          if (z.text.empty()) { ex.push_back("-seconds"); ex.push_back("1"); } else { ex.push_back("-strategytext"); ex.push_back(z.text); }
          auto r = kb.ask(qt, ex, 1000000 / (z.text.empty() ? 500 : q ? 60 : 200), (void *)addr[ai]);
          c.add("evaluations");
          string txt = "KB " + kt + " QUERY " + qt, id = "C17:" + z.name + ":" + txt;
          vector<string> a = {"-usekb", qt};
          a.insert(a.end(), ex.begin(), ex.end());
          char ab[64];
          snprintf(ab, sizeof ab, " (%s, knowledge base at %#zx)", z.name.c_str(), addr[ai]);
          if (r.sig || r.timeout) { violation(c, id, "gkc " + (r.timeout ? string("does not end") : "ended by signal " + std::to_string(r.sig)) + ab + " on " + txt, a, r.out); continue; }
          if (r.out.find("failed to attach") != string::npos) { violation(c, id, "not attached" + string(ab) + " on " + txt, a, r.out); continue; }
          c.add("distinct_nontrivial");
          // the address of the knowledge base must not matter
          if (!op.empty() && op[0] != "-print") continue;
          auto o = parse_output(r.out);
          if (!ai) { first[z.name] = o; continue; }
          auto &f = first[z.name];
          bool same = o.found == f.found && o.notfound == f.notfound && o.answers.size() == f.answers.size();
          if (same) {
            std::multiset<string> x, y;
            for (auto &w : o.answers) x.insert(w.text);
            for (auto &w : f.answers) y.insert(w.text);
            same = x == y;
          }
          if (!same) violation(c, id, "another result than at another address" + string(ab) + " on " + txt, a, r.out);
        }
      }
      if (kb.changed()) { violation(c, "C17:" + kt + ":" + qt, "the knowledge base " + kt + " was changed by the query " + qt, {}, ""); return; }
    }
    // after all queries the first one gives what it gave
    c.add("knowledge_bases_compared_byte_by_byte");
    if (part == 0) c.sample("KB " + kt);
  }, 1);
  d.texts["bounds"] = std::to_string(NKB) + " knowledge bases, " + std::to_string(NQ) + " queries (also wrong ones), " + std::to_string(st.size()) + " strategies, four attach addresses, " + std::to_string(opts.size()) + " output options";
}
CheckReg r17("C17", c17);
}
