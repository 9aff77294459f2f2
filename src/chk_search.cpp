// C01 C02 C03 C04: the search engine on exhaustively enumerated clause sets.
#include "spaces.hpp"

struct Strat { string name; string text; bool complete; };
static string stext(const string &names, const string &extra = "\"query_preference\":0") {
  return "{\"strategy\":[" + names + "]" + (extra.empty() ? "" : "," + extra) + ",\"max_dseconds\":10}";
}
static vector<Strat> strategies() {
  vector<Strat> v;
  auto add = [&](const char *n, bool c, const char *ex = "\"query_preference\":0") {
    string q;
    string s = n;
    size_t i = 0;
    while (i <= s.size()) {
      size_t j = s.find('+', i);
      if (j == string::npos) j = s.size();
      q += (q.empty() ? "\"" : ",\"") + s.substr(i, j - i) + "\"";
      i = j + 1;
    }
    v.push_back({s + (string(ex) == "\"query_preference\":0" ? "" : string(" ") + ex), stext(q, ex), c});
  };
  add("negative_pref", true);
  add("hyper", true);
  add("positive_pref", true);
  add("double", true);
  add("hardness_pref", true);
  add("triple", true);
  add("knuthbendix_pref", true);
  add("max_weight", true);
  add("max_ground_weight", true);
  add("hornpref", true);
  add("posweightdoublepref", true);
  add("negweightdoublepref", true);
  add("posunitpara", true);
  add("negative_pref", true, "\"query_preference\":1");
  add("negative_pref", true, "\"query_preference\":2");
  add("negative_pref", true, "\"query_preference\":3");
  add("negative_pref+reverse_clauselist", true, "\"query_preference\":0,\"reverse_clauselist\":1");
  add("unit", false);
  add("query_focus", false);
  add("pure_unit", false);
  add("prohibit_nested_para", false);
  add("prohibit_unordered_para", false);
  add("prohibit_deep_para", false);
  add("query_focus", false, "\"query_preference\":1");
  add("unit", false, "\"query_preference\":2");
  add("hyper+knuthbendix_pref", false);
  return v;
}

static vector<string> cmdline(const Strat &st, const string &text) {
  vector<string> a = {"-mbsize", "10", "-parallel", "0", "-print", "10"};
  if (!st.text.empty()) { a.push_back("-strategytext"); a.push_back(st.text); }
  a.push_back("-text");
  a.push_back(text);
  return a;
}

static const long STEP = 1000000 / 120;  // 120 clock reads until the 1 s limit of the strategy

static RunResult run_case(const vector<string> &args, long step = STEP) {
  RunOpt o;
  o.clock_step = step;
  o.wall = 30;
  return run_gkc(args, o);
}

// abnormal endings are C14/C15 matters in general, but here the inputs are well-formed: report them too
static bool abnormal(Ctx &c, const RunResult &r, const string &id, const vector<string> &args, const string &txt) {
  if (r.crashed()) {
    violation(c, id + ":crash:" + txt, "gkc ended by signal " + std::to_string(r.sig) + " on: " + txt, args, r.out);
    return true;
  }
  if (r.timeout) {
    RunOpt o;
    o.clock_step = STEP;
    o.wall = 120;
    auto r2 = run_gkc(args, o);
    if (r2.timeout) violation(c, id + ":hang:" + txt, "gkc does not end on: " + txt, args, r2.out);
    return true;
  }
  return false;
}

// "" when the proof is valid
static string check_proof(Space &s, const vector<int> &ix, const Answer &a, u64 &steps) {
  std::map<int, Bits> by;
  if (a.steps.empty()) return "empty proof";
  int last = 0;
  for (auto &st : a.steps) {
    steps++;
    Bits cb;
    string at = " at step " + std::to_string(st.nr) + " (" + st.text + ")";
    if (st.nr != last + 1) return "step numbers not consecutive" + at;
    last = st.nr;
    if (!s.S.bits(st.cl, cb)) return "clause with symbols that are not in the input" + at;
    if (st.rule == "in") {
      bool ok = false;
      for (int j : ix) if (s.pb[j] == cb) ok = true;
      if (!ok) return "step marked as input is not an input clause" + at;
    } else {
      if (st.parents.empty()) return "derived step without parents" + at;
      Bits pm = s.S.ones();
      for (int p : st.parents) {
        auto it = by.find(p);
        if (it == by.end()) return "cites step " + std::to_string(p) + " that is not an earlier step" + at;
        pm = bits_and(pm, it->second);
      }
      if (!bits_subset(pm, cb)) return "does not follow from the cited steps: counter-model " + s.S.first_model([&] { Bits x = pm; for (size_t i = 0; i < x.size(); i++) x[i] &= ~cb[i]; return x; }()) + at;
    }
    by[st.nr] = cb;
  }
  if (!a.steps.back().isfalse) return "last step is not a contradiction";
  return "";
}

struct Job { Space *s; vector<int> ix; };

static void note(Driver &d, const vector<Space> &sp) {
  string t;
  for (auto &s : sp) t += s.name + "(" + std::to_string(s.P.cls.size()) + " clauses, " + std::to_string(s.S.total) + " interpretations) ";
  d.texts["spaces"] = t;
}

// select problems of a space
static vector<vector<int>> pick(const Space &s, const std::function<bool(const vector<int> &, bool sat)> &keep, size_t cap = ~0ull) {
  vector<vector<int>> o;
  for (u64 i = 0; i < s.nprob && o.size() < cap; i++) {
    auto x = s.get(i);
    bool sat = bits_any(s.models(x));
    if (keep(x, sat)) o.push_back(x);
  }
  return o;
}

static void soundness(Driver &d, const char *id, vector<Space> &sps, const vector<size_t> &kall, const vector<size_t> &kone, const vector<u64> &part) {
  // per space: sets of size <= kall are run under every strategy, sets of size <= kone under one strategy each
  auto S = strategies();
  for (size_t n = 0; n < sps.size(); n++) {
    Space &s = sps[n];
    auto sat = pick(s, [&](const vector<int> &x, bool st) { return st && x.size() <= std::max(kall[n], kone[n]) && s.impure(x); });
    d.cnt["satisfiable_problems_" + s.name] = sat.size();
    vector<std::pair<int, int>> jobs;
    u64 nr = 0;
    for (size_t i = 0; i < sat.size(); i++) {
      if (sat[i].size() <= kall[n]) for (size_t k = 0; k < S.size(); k++) jobs.push_back({i, k});
      else { if (nr % part[n] == 0) jobs.push_back({i, (int)((nr / part[n]) % S.size())}); nr++; }
    }
    d.pfor(jobs.size(), [&](u64 j, Ctx &c) {
      auto &x = sat[jobs[j].first];
      auto &st = S[jobs[j].second];
      string txt = str(s.clauses(x));
      auto args = cmdline(st, txt);
      auto r = run_case(args);
      c.add("runs");
      if (abnormal(c, r, id, args, txt)) return;
      auto o = parse_output(r.out);
      if (o.found) {
        violation(c, string(id) + ":unsound:" + st.name + ":" + txt, "proof reported (" + st.name + ") for the satisfiable set " + txt + " with model " + s.S.first_model(s.models(x)), args, r.out);
      } else if (o.notfound) c.add("distinct_nontrivial");
      else violation(c, string(id) + ":noresult:" + st.name + ":" + txt, "no result printed for " + txt, args, r.out);
      if (j % 50000 == 7) c.sample(st.name + ": " + txt);
    });
  }
}

static void c01(Driver &d) {
  vector<Space> sp;
  bool q = d.quick();
  sp.push_back(sp_prop(3, 3, {1, 2, 3, 4}));
  sp.push_back(sp_monadic(false, {1, 2, 3}));
  sp.push_back(sp_rel(3, {1, 2, 3}));
  sp.push_back(sp_relf({1, 2, 3}));
  sp.push_back(sp_long({1, 2, 3}));
  note(d, sp);
  if (q) soundness(d, "C01", sp, {3, 2, 1, 1, 1}, {4, 2, 2, 2, 2}, {1, 1, 1, 1, 1});
  else soundness(d, "C01", sp, {4, 2, 2, 2, 2}, {4, 3, 3, 3, 3}, {1, 1, 1, 3, 1});
}
static CheckReg r1("C01", c01);

static void c02(Driver &d) {
  vector<Space> sp;
  bool q = d.quick();
  sp.push_back(sp_eq(false, {1, 2, 3}));
  sp.push_back(sp_alg(q ? 3 : 4));
  note(d, sp);
  if (q) soundness(d, "C02", sp, {1, 2}, {2, 9}, {1, 1});
  else soundness(d, "C02", sp, {2, 3}, {3, 9}, {1, 1});
}
static CheckReg r2("C02", c02);

// contradictory problems: no model in the enumerated interpretations, and (no equality) a Herbrand certificate
static vector<vector<int>> contradictory(Driver &d, Space &s, size_t kmax, bool minimal) {
  auto v = pick(s, [&](const vector<int> &x, bool sat) { return !sat && x.size() <= kmax && (!minimal || s.minimal_unsat(x)); });
  vector<vector<int>> o;
  for (auto &x : v) if (s.equality || s.herbrand_unsat(s.clauses(x))) o.push_back(x);
  d.cnt["no_small_model_" + s.name] = v.size();
  d.cnt["contradictory_" + s.name] = o.size();
  return o;
}

// positive equations with a bare variable on a side that occurs nowhere else in the equation: gkc does not
// paramodulate from variables, so no completeness is claimed for these
static bool var_equation(const Space &s, const vector<int> &ix) {
  for (int j : ix)
    for (auto &l : s.P.cls[j]) {
      if (!l.pos || l.atom.name != "=") continue;
      for (int k = 0; k < 2; k++) {
        auto &v = l.atom.args[k], &o = l.atom.args[1 - k];
        std::set<string> vs;
        o.vars(vs);
        if (v.var && !(vs.count(v.name) && !o.var)) return true;
      }
    }
  return false;
}

static void proofs(Driver &d, const char *id, vector<Space> &sps, const vector<size_t> &kmax, bool minimal, size_t nstrat, bool checkproof) {
  auto S = strategies();
  vector<Strat> use;
  for (auto &s : S) if (checkproof || s.complete) use.push_back(s);
  auto use0 = use;
  for (size_t n = 0; n < sps.size(); n++) {
    Space &s = sps[n];
    use.clear();
    for (auto &t : use0) {
      // not claimed: hyperresolution and unit paramodulation are incomplete with equality, and
      // hyperresolution of several three-literal clauses has more partial results than any small limit
      if (!checkproof && s.equality && (t.name == "hyper" || t.name == "posunitpara")) continue;
      if (!checkproof && s.name == "three-literal" && t.name == "hyper") continue;
      use.push_back(t);
    }
    if (!checkproof && !s.equality) use.insert(use.begin(), Strat{"auto", "", true});
    auto un = contradictory(d, s, kmax[n], minimal);
    size_t ns = std::min(nstrat, use.size());
    u64 total = (u64)un.size() * ns;
    d.pfor(total, [&](u64 j, Ctx &c) {
      size_t pi = j / ns;
      auto &x = un[pi];
      // with fewer strategies than there are: problem i gets strategies i, i+1, ...
      auto &st = use[ns == use.size() ? j % ns : (pi * ns + j % ns) % use.size()];
      string txt = str(s.clauses(x));
      auto args = cmdline(st, txt);
      auto r = run_case(args);
      c.add("runs");
      if (abnormal(c, r, id, args, txt)) return;
      auto o = parse_output(r.out);
      if (j % 50000 == 7) c.sample(st.name + ": " + txt);
      if (!checkproof) {
        if (o.found) { c.add("distinct_nontrivial"); return; }
        if (s.equality && var_equation(s, x)) { c.add("undecided_variable_equation"); return; }
        if (s.equality) {  // certificate: another complete strategy refutes the set, with a valid proof
          bool cert = false;
          for (size_t k = 0; k < 2 && !cert; k++) {
            auto o3 = parse_output(run_case(cmdline(use[k], txt)).out);
            u64 steps;
            cert = o3.found && o3.parse_ok && !o3.answers.empty() && check_proof(s, x, o3.answers[0], steps).empty();
          }
          if (!cert) { c.add("undecided_equality"); return; }
          c.add("certified_by_other_strategy");
        }
        auto r2 = run_case(args, STEP / 40);
        auto o2 = parse_output(r2.out);
        if (o2.found) { c.add("proved_with_more_time"); return; }
        violation(c, string(id) + ":miss:" + st.name + ":" + txt, "contradictory set not refuted (" + st.name + "): " + txt, args, r2.out);
        return;
      }
      if (!o.found) { c.add("no_proof"); return; }
      if (!o.parse_ok) { violation(c, string(id) + ":unparsable:" + st.name + ":" + txt, "proof output not readable: " + o.perr, args, r.out); return; }
      if (o.answers.empty()) { violation(c, string(id) + ":noproof:" + st.name + ":" + txt, "proof found but no proof printed", args, r.out); return; }
      c.add("distinct_nontrivial");
      for (auto &a : o.answers) {
        u64 steps = 0;
        string bad = check_proof(s, x, a, steps);
        c.add("proofs_checked");
        c.add("proof_steps_checked", steps);
        for (auto &k : a.steps) c.add("steps_" + k.rule);
        if (!bad.empty()) violation(c, string(id) + ":badproof:" + st.name + ":" + txt, "invalid proof (" + st.name + ") for " + txt + ": " + bad, args, r.out);
      }
    });
  }
}

static void c03(Driver &d) {
  vector<Space> sp;
  bool q = d.quick();
  sp.push_back(sp_prop(3, 3, {1, 2, 3, 4}));
  sp.push_back(sp_monadic(false, {1, 2, 3}));
  sp.push_back(sp_rel(3, {1, 2, 3}));
  sp.push_back(sp_long({1, 2, 3}));
  sp.push_back(sp_eq(false, {1, 2, 3}));
  sp.push_back(sp_alg(q ? 2 : 3));
  note(d, sp);
  proofs(d, "C03", sp, {4, 3, 3, 3, 3, 9}, q, q ? 1 : 4, true);
}
static CheckReg r3("C03", c03);

static void c04(Driver &d) {
  vector<Space> sp;
  bool q = d.quick();
  sp.push_back(sp_prop(3, 3, {1, 2, 3, 4, 5}));
  sp.push_back(sp_monadic(false, {1, 2, 3}));
  sp.push_back(sp_rel(3, {1, 2, 3}));
  sp.push_back(sp_relf({1, 2, 3}));
  sp.push_back(sp_long({1, 2, 3}));
  sp.push_back(sp_eq(false, {1, 2, 3}));
  note(d, sp);
  proofs(d, "C04", sp, {5, 3, 3, 2, 3, 3}, true, q ? 3 : 18, false);
}
static CheckReg r4("C04", c04);
