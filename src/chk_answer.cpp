// C05: the answers given to queries, on exhaustively enumerated facts, rules and queries.
#include "spaces.hpp"

namespace {
struct St { string name, text; bool complete; };
string stext(const string &n, int max, int qp, const string &extra = "") {
  string q;
  size_t i = 0;
  while (i <= n.size()) {
    size_t j = n.find('+', i);
    if (j == string::npos) j = n.size();
    q += (q.empty() ? "\"" : ",\"") + n.substr(i, j - i) + "\"";
    i = j + 1;
  }
  return "{\"strategy\":[" + q + "],\"max_answers\":" + std::to_string(max) + ",\"query_preference\":" + std::to_string(qp) + extra + ",\"max_seconds\":1}";
}
struct Conf { const char *n; int qp; bool complete; };
// complete: finds every answer of a Horn problem without functions
const Conf CONF[] = {
  {"unit", 0, true}, {"negative_pref", 0, true}, {"hyper", 0, true}, {"positive_pref", 0, false}, {"double", 0, true},
  {"query_focus", 1, false}, {"negative_pref", 1, true}, {"negative_pref", 2, true}, {"negative_pref", 3, true}, {"hardness_pref", 0, true}, {"knuthbendix_pref", 0, false},
  {"", 0, false}, {"triple", 0, false}, {"posunitpara", 0, false}, {"max_weight", 0, false},
};
const int NCONF = sizeof CONF / sizeof *CONF;

// ---- Horn problems without functions: the least Herbrand model over the constants and fresh elements
struct Horn {
  std::map<string, int> con;  // constants
  int n = 0;                  // elements: constants and fresh ones
  std::set<vector<int>> facts;  // predicate nr, arguments
  std::map<string, int> pred;
  int p(const string &s) { return pred.emplace(s, (int)pred.size()).first->second; }
  void compute(const vector<Clause> &cs, int nfresh) {
    std::function<void(const Term &, bool)> rec = [&](const Term &t, bool top) {
      if (!top && !t.var) con.emplace(t.name, (int)con.size());
      for (auto &a : t.args) rec(a, false);
    };
    for (auto &c : cs) for (auto &l : c) rec(l.atom, true);
    n = con.size() + nfresh;
    for (bool ch = true; ch;) {
      ch = false;
      for (auto &c : cs) {
        const Lit *head = nullptr;
        for (auto &l : c) if (l.pos) head = &l;
        if (!head) continue;
        std::set<string> vs;
        for (auto &l : c) l.atom.vars(vs);
        vector<string> v(vs.begin(), vs.end());
        vector<int> ix(v.size(), 0);
        for (;;) {
          std::map<string, int> sb;
          for (size_t i = 0; i < v.size(); i++) sb[v[i]] = ix[i];
          auto ground = [&](const Term &t) {
            vector<int> g = {p(t.name)};
            for (auto &a : t.args) g.push_back(a.var ? sb[a.name] : con[a.name]);
            return g;
          };
          bool ok = true;
          for (auto &l : c) if (!l.pos && !facts.count(ground(l.atom))) { ok = false; break; }
          if (ok && facts.insert(ground(head->atom)).second) ch = true;
          size_t k = 0;
          while (k < v.size() && ++ix[k] == n) ix[k++] = 0;
          if (k == v.size()) break;
        }
      }
    }
  }
  bool has(const Term &t, const std::map<string, int> &sb) {
    vector<int> g = {p(t.name)};
    for (auto &a : t.args) {
      if (a.var) { g.push_back(sb.at(a.name)); continue; }
      auto it = con.find(a.name);
      if (it == con.end() || !a.args.empty()) return false;
      g.push_back(it->second);
    }
    return facts.count(g) > 0;
  }
};

struct Fam { string name; vector<string> facts, rules, queries; size_t maxf, maxr; bool horn; vector<SymDef> sig; };
string js(const Term &t) {
  if (t.var) return "\"?:" + t.name + "\"";
  if (t.args.empty()) return "\"" + t.name + "\"";
  string o = "[\"" + t.name + "\"";
  for (auto &a : t.args) o += "," + js(a);
  return o + "]";
}
string js(const Clause &c) {
  string o;
  for (auto &l : c) { string a = js(l.atom); if (!l.pos) a.insert(2, "-"); o += (o.empty() ? "" : ",") + a; }
  return c.size() == 1 ? o : "[" + o + "]";
}

vector<string> args(const string &text, const St &st, bool json = false) {
  if (st.text.empty()) return {"-seconds", "1", "-mbsize", "10", "-parallel", "0", "-print", "10", "-text", text};
  if (json) return {"-mbsize", "10", "-parallel", "0", "-print", "10", "-strategytext", st.text, "-jstext", text};
  return {"-mbsize", "10", "-parallel", "0", "-print", "10", "-strategytext", st.text, "-text", text};
}

bool all_ans(const Clause &c) {
  for (auto &l : c) if (!l.pos || l.atom.name != "$ans") return false;
  return true;
}

// how to run the problem, if not as plain input (a: the command line for reports)
std::function<RunResult(const vector<Clause> &cs, const St &st, const RunOpt &o, vector<string> &a)> run_on;
string run_id = "C05";
// json: the input as JSON with the query as a question
void family(Driver &d, const Fam &f, const vector<int> &confs, const vector<int> &maxes, bool json = false) {
  vector<Clause> F_, R, Q;
  for (auto &s : f.facts) F_.push_back(PC(s.c_str()));
  for (auto &s : f.rules) R.push_back(PC(s.c_str()));
  for (auto &s : f.queries) Q.push_back(PC(s.c_str()));
  vector<vector<int>> fs, rs;
  for (size_t k = 1; k <= f.maxf; k++) { Subsets u(F_.size(), k); for (u64 i = 0; i < u.count(); i++) fs.push_back(u.get(i)); }
  for (size_t k = 0; k <= f.maxr; k++) { Subsets u(R.size(), k); for (u64 i = 0; i < u.count(); i++) rs.push_back(u.get(i)); }
  // semantics of the families that are not Horn
  Space sp;
  if (!f.horn) {
    sp.name = f.name;
    sp.sig = f.sig;
    for (auto *v : {&F_, &R, &Q}) for (auto &c : *v) sp.P.add(c);
    sp.finish({1, 2}, {});
  }
  u64 np = (u64)fs.size() * rs.size() * Q.size(), per = (u64)confs.size() * maxes.size();
  d.cnt["problems_" + f.name] += np;
  d.pfor(np * per, [&](u64 j, Ctx &c) {
    u64 pr = j / per, cf = j % per;
    auto &conf = CONF[confs[cf % confs.size()]];
    int max = maxes[cf / confs.size()];
    vector<Clause> cs;
    string text;
    auto addc = [&](const Clause &x) { cs.push_back(x); text += str(x) + ". "; };
    for (int i : fs[pr % fs.size()]) addc(F_[i]);
    for (int i : rs[pr / fs.size() % rs.size()]) addc(R[i]);
    addc(Q[pr / fs.size() / rs.size()]);
    const Term qa = cs.back().back().atom;
    size_t arity = qa.args.size();
    string jtext;
    if (json) {
      // as question: all variables of the body, in the order of their first occurrence
      Clause &qc = cs.back();
      vector<string> vs;
      string body;
      for (auto &l : qc) {
        if (l.pos) continue;
        for (auto &t : l.atom.args) if (t.var && std::find(vs.begin(), vs.end(), t.name) == vs.end()) vs.push_back(t.name);
        body += (body.empty() ? "" : ",") + js(l.atom);
      }
      Term na = F("$ans");
      for (auto &v : vs) na.args.push_back(Term::V(v));
      if (!(qc.back().atom == na)) { c.add("not_a_question"); return; }
      jtext = "[";
      for (size_t i = 0; i + 1 < cs.size(); i++) jtext += js(cs[i]) + ",";
      jtext += "{\"@question\":" + (qc.size() == 2 ? body : "[\"and\"," + body + "]") + "}]";
    }
    St st{conf.n, *conf.n ? stext(conf.n, max, conf.qp) : "", conf.complete};
    auto a = args(json ? jtext : text, st, json);
    if (json) text = jtext;
    RunOpt o;
    o.wall = 60;
    RunResult r;
    bool again = false;  // a missing answer: once more with forty times the time
  retry:
    o.clock_step = again ? 1000000 / 6000 : 1000000 / (st.text.empty() ? 1000 : 150);
    r = run_on ? run_on(cs, st, o, a) : run_gkc(a, o);
    string id = run_id + ":" + st.name + " qp" + std::to_string(conf.qp) + " max" + std::to_string(max) + ":" + text;
    c.add("evaluations");
    if (r.sig || r.timeout) { violation(c, id, "gkc " + (r.timeout ? string("does not end") : "ended by signal " + std::to_string(r.sig)) + " on: " + text, a, r.out); return; }
    auto out = parse_output(r.out);
    if (r.out.find("time limit, proof not found") != string::npos) out.notfound = true;  // the alarm of -seconds
    if (!out.found && !out.notfound) { violation(c, id, "no result on: " + text, a, r.out); return; }
    if (!out.parse_ok) { violation(c, id, "output not readable on: " + text + ": " + out.perr, a, r.out); return; }
    // printed answers
    std::set<string> seen;
    vector<Clause> ans;
    for (auto &x : out.answers) {
      if (x.text.empty()) continue;
      if (!seen.insert(x.text).second) { violation(c, id + ":dup", "answer " + x.text + " printed twice on: " + text, a, r.out); return; }
      if (x.cl.empty() || !all_ans(x.cl)) { violation(c, id + ":ans", "not an answer: " + x.text + " on: " + text, a, r.out); return; }
      // the printed proof ends in the answer
      if (x.steps.empty() || canon(x.steps.back().cl) != canon(x.cl)) { violation(c, id + ":proof", "the proof of answer " + x.text + " does not end with it on: " + text, a, r.out); return; }
      ans.push_back(x.cl);
    }
    if (out.answers.size() > (size_t)max) { violation(c, id + ":many", std::to_string(out.answers.size()) + " answers where " + std::to_string(max) + " were requested on: " + text, a, r.out); return; }
    c.add("answers", ans.size());
    if (f.horn) {
      Horn h;
      h.compute(cs, 2);
      int nc = h.con.size();
      for (auto &x : ans) {
        std::map<string, int> sb;
        std::set<string> vs;
        for (auto &l : x) l.atom.vars(vs);
        bool ok = false;
        if (vs.size() <= 2) {
          int k = nc;
          for (auto &v : vs) sb[v] = k++;
          for (auto &l : x) if (h.has(l.atom, sb)) ok = true;
        }
        if (!ok) { violation(c, id + ":wrong:" + str(x), "answer " + str(x) + " does not follow from: " + text, a, r.out); return; }
      }
      // every answer of the least model
      vector<vector<int>> want;
      int pa = h.p("$ans");
      for (auto &g : h.facts) {
        if (g[0] != pa) continue;
        bool con = true;
        for (size_t i = 1; i < g.size(); i++) if (g[i] >= nc) con = false;
        if (con) want.push_back(g);
      }
      if (!want.empty()) c.add("distinct_nontrivial");
      size_t covered = 0;
      string miss;
      vector<string> cname(nc);
      for (auto &k : h.con) cname[k.second] = k.first;
      for (auto &w : want) {
        bool ok = false;
        for (auto &x : ans) {
          if (x.size() != 1) continue;
          std::map<string, int> sb;
          ok = true;
          for (size_t i = 0; i < arity && ok; i++) {
            auto &t = x[0].atom.args[i];
            if (t.var) { if (sb.emplace(t.name, w[i + 1]).first->second != w[i + 1]) ok = false; }
            else if (!h.con.count(t.name) || h.con[t.name] != w[i + 1]) ok = false;
          }
          if (ok) break;
        }
        if (ok) covered++;
        else { miss = "$ans("; for (size_t i = 0; i < arity; i++) miss += (i ? "," : "") + cname[w[i + 1]]; miss += ")"; }
      }
      if (conf.complete && !want.empty() && !out.found) {
        if (!again) { again = true; c.add("run_again_with_more_time"); goto retry; } violation(c, id + ":none", "no answer found on: " + text, a, r.out); return; }
      bool any = false;
      for (auto &g : h.facts) if (g[0] == pa) any = true;
      if (!any && !ans.empty()) { violation(c, id + ":wrong", "answers where there are none on: " + text, a, r.out); return; }
      if (!any && out.found) { violation(c, id + ":wrong", "proof found where there is no answer on: " + text, a, r.out); return; }
      if (conf.complete && max >= 100 && covered < want.size()) {
        if (!again) { again = true; c.add("run_again_with_more_time"); goto retry; } violation(c, id + ":miss:" + miss, "answer " + miss + " is not given on: " + text, a, r.out); return; }
      if (conf.complete && max >= 100) c.add("complete_answer_sets");
      // fewer requested than there are: that many are given, unless a given one has variables
      if (conf.complete && max < 100) {
        bool gen = false;
        for (auto &x : ans) { std::set<string> vs; for (auto &l : x) l.atom.vars(vs); if (!vs.empty()) gen = true; }
        if (!gen && out.answers.size() < std::min<size_t>(max, want.size())) {
          if (!again) { again = true; c.add("run_again_with_more_time"); goto retry; } violation(c, id + ":few", std::to_string(out.answers.size()) + " of " + std::to_string(want.size()) + " answers given where " + std::to_string(max) + " were requested on: " + text, a, r.out); return; }
      }
    } else {
      vector<int> ix;
      Bits m = sp.S.ones();
      for (auto &x : cs) {
        auto it = sp.P.ix.find(canon(x));
        if (it == sp.P.ix.end()) { fprintf(stderr, "clause not in pool %s\n", str(x).c_str()); exit(3); }
        m = bits_and(m, sp.pb[it->second]);
      }
      for (auto &x : ans) {
        Bits b;
        if (!sp.S.bits(x, b)) { violation(c, id + ":sym:" + str(x), "answer with symbols that are not in the input: " + str(x), a, r.out); return; }
        if (!bits_subset(m, b)) { violation(c, id + ":wrong:" + str(x), "answer " + str(x) + " does not follow from: " + text, a, r.out); return; }
        if (x.size() > 1) c.add("disjunctive_answers");
      }
      // with a model in which nothing is an answer there is no proof
      bool none = false;
      Bits nb;
      Clause na = PC("-$ans(X).");
      if (sp.S.bits(na, nb) && bits_any(bits_and(m, nb))) none = true;
      if (none && out.found) { violation(c, id + ":unsound", "proof found where nothing needs to be an answer on: " + text, a, r.out); return; }
      if (!none) c.add("distinct_nontrivial");
    }
    if (j % 20011 == 7) c.sample(st.name + ": " + text);
  });
}

void c05(Driver &d) {
  bool q = d.quick();
  vector<Fam> fs;
  fs.push_back({"relation", {"r(a,b).", "r(b,c).", "r(c,a).", "r(b,a).", "r(a,a).", "r(c,c).", "r(a,X).", "r(X,b).", "r(X,X)."},
    {"-r(X,Y) | -r(Y,Z) | r(X,Z).", "-r(X,Y) | r(Y,X).", "-r(X,Y) | r(X,X).", "-r(X,X) | r(X,Y)."},
    {"-r(a,X) | $ans(X).", "-r(X,b) | $ans(X).", "-r(X,Y) | $ans(X,Y).", "-r(X,X) | $ans(X).", "-r(X,Y) | -r(Y,X) | $ans(Y).", "-r(X,Y) | -r(Y,Z) | $ans(X,Z).", "-r(a,X) | $ans(X,X).", "-r(X,Y) | $ans(X,a,Y).", "-r(b,c) | $ans(b)."}, q ? 2u : 3u, 2, true});
  fs.push_back({"mixed", {"p(a).", "p(b).", "p(X).", "q(b).", "q(c).", "r(a,b).", "r(b,c).", "r(X,a)."},
    {"-p(X) | q(X).", "-q(X) | -r(X,Y) | p(Y).", "-r(X,Y) | p(X).", "-p(X) | -q(Y) | r(X,Y).", "-p(X) | r(X,b).", "-r(X,Y) | -p(Y) | q(X)."},
    {"-p(X) | $ans(X).", "-q(X) | -p(X) | $ans(X).", "-r(X,Y) | -p(X) | $ans(Y).", "-r(X,Y) | -q(Y) | $ans(X,Y).", "-p(X) | -q(Y) | $ans(X,Y)."}, q ? 2u : 3u, 2, true});
  vector<int> all;
  for (int i = 0; i < NCONF; i++) all.push_back(i);
  vector<int> few = {0, 1, 2, 3};
  for (auto &f : fs) {
    family(d, f, q ? few : all, {1000});
    family(d, f, q ? vector<int>{1} : few, {1, 2, 3});
  }
  Fam n = {"disjunctive", {"p(a) | p(b).", "p(X) | r(X,a).", "r(a,b) | p(a).", "p(a).", "r(a,X) | r(b,X).", "r(a,b).", "r(b,b) | p(b).", "p(X) | p(a).", "r(X,Y) | p(Y).", "-p(a).", "-r(b,b)."},
    {"-p(X) | r(X,X).", "-r(X,Y) | r(Y,X).", "-r(X,X) | p(X).", "-r(X,Y) | p(X) | p(Y).", "-r(X,Y) | -r(Y,Z) | r(X,Z)."},
    {"-p(X) | $ans(X).", "-r(X,Y) | $ans(X).", "-r(X,X) | $ans(X).", "-r(a,X) | $ans(X).", "-p(X) | -r(X,Y) | $ans(Y)."}, 2, q ? 1u : 2u, false, {{"a", 0, false}, {"b", 0, false}, {"p", 1, true}, {"r", 2, true}, {"$ans", 1, true}}};
  family(d, n, q ? few : all, {1000});
  if (!q) family(d, n, few, {1, 2});
  Fam fn = {"functions", {"p(a).", "p(f(a)).", "r(X,f(X)).", "r(a,X).", "p(f(f(X))).", "r(f(X),a) | p(X).", "r(X,X).", "p(X) | p(f(X))."},
    {"-p(X) | p(f(X)).", "-r(X,Y) | p(Y).", "-r(X,Y) | r(f(X),f(Y)).", "-p(f(X)) | p(X).", "-p(X) | r(X,f(X)) | p(f(X)).", "-r(X,f(X)) | p(X)."},
    {"-p(X) | $ans(X).", "-p(f(X)) | $ans(X).", "-p(X) | $ans(f(X)).", "-r(X,Y) | $ans(Y).", "-r(X,X) | $ans(X).", "-r(a,X) | -p(X) | $ans(X)."}, 2, q ? 1u : 2u, false,
    {{"a", 0, false}, {"f", 1, false}, {"p", 1, true}, {"r", 2, true}, {"$ans", 1, true}}};
  family(d, fn, q ? few : all, {3});
  Fam eq = {"equality", {"a = b.", "f(a) = b.", "f(b) = b.", "p(a).", "p(f(a)).", "f(X) = X.", "f(f(X)) = X.", "a = b | p(a).", "p(X) | f(X) = a.", "a != b."},
    {"-p(X) | p(f(X)).", "-p(X) | f(X) = a.", "f(X) != f(Y) | X = Y.", "-p(X) | -p(Y) | X = Y.", "-p(X) | X = b."},
    {"-p(X) | $ans(X).", "f(X) != b | $ans(X).", "-p(f(X)) | $ans(X).", "X != b | $ans(X).", "f(X) != X | -p(X) | $ans(X).", "X != b | -p(X) | $ans(f(X))."}, 2, q ? 1u : 2u, false,
    {{"a", 0, false}, {"b", 0, false}, {"f", 1, false}, {"p", 1, true}, {"$ans", 1, true}}};
  family(d, eq, q ? few : all, {3});
  Fam js = fs[1];
  js.name = "questions";
  js.maxf = 2;
  family(d, js, q ? vector<int>{1} : few, {1000}, true);
  js = fs[0];
  js.name = "questions on the relation";
  js.maxf = 2;
  if (!q) family(d, js, few, {1000}, true);
  int aut = 0;
  while (*CONF[aut].n) aut++;
  for (auto &x : q ? vector<Fam>{eq} : vector<Fam>{fs[1], n, fn, eq}) family(d, x, {aut}, {1});
  d.texts["bounds"] = "Horn families of 9 and 8 facts (up to " + string(q ? "2" : "3") + " at a time), 4 and 6 rules (up to 2), 9 and 5 queries; disjunctive family of 11 facts, 5 rules, 5 queries; " + (q ? "4" : "14") + " strategies; 1, 2, 3 and 1000 answers requested";
}
CheckReg r("C05", c05);
}
