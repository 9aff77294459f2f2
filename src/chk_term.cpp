// C09 C10 C11: the values of built-in functions and predicates, and unification. Each case is one or two
// clauses of a batch given to the real gkc as text; which cases it decides is read from its answers.
#include "core.hpp"
#include <boost/multiprecision/cpp_int.hpp>
#include <cmath>
#include <limits>
namespace {
using boost::multiprecision::cpp_rational;
using boost::multiprecision::cpp_int;
typedef long long i64;

struct Phase {
  string n;
  double t = now_s();
  Phase(const string &s) : n(s) {}
  ~Phase() { if (getenv("GKV_TIMES")) fprintf(stderr, "%-40s %.1f s\n", n.c_str(), now_s() - t); }
};
const char *STRAT[] = {
  "{\"strategy\":[\"unit\"],\"max_answers\":1000000,\"query_preference\":0,\"max_seconds\":5}",
  "{\"strategy\":[\"negative_pref\"],\"max_answers\":1000000,\"query_preference\":0,\"max_seconds\":5}",
  "{\"strategy\":[\"positive_pref\"],\"max_answers\":1000000,\"query_preference\":0,\"max_seconds\":5}",
  "{\"strategy\":[\"hyper\"],\"max_answers\":1000000,\"query_preference\":0,\"max_seconds\":5}",
  "{\"strategy\":[\"query_focus\"],\"max_answers\":1000000,\"query_preference\":1,\"max_seconds\":5}",
};
// the single-literal answers of a run: the text between $ans( and ).
bool answers(Ctx &c, const string &text, const char *strat, std::set<string> &res, string &out) {
  static int nr = 0;
  string fn = "t" + std::to_string(getpid()) + "_" + std::to_string(nr++) + ".txt";
  FILE *f = fopen(fn.c_str(), "w");
  if (!f) { perror("scratch"); exit(3); }
  fputs(text.c_str(), f);
  fclose(f);
  RunOpt o;
  o.wall = 60;
  o.clock_step = 20;
  o.maxout = 16 << 20;
  RunResult r = run_gkc({"-parallel", "0", "-mbsize", "20", "-print", "10", "-strategytext", strat, fn}, o);
  unlink(fn.c_str());
  out = r.out;
  c.add("gkc_runs");
  if (r.sig || r.timeout || r.out.find("result:") == string::npos) {
    violation(c, "run:" + std::to_string(std::hash<string>()(text)), "gkc ended with " + (r.timeout ? string("no result (hang)") : r.sig ? "signal " + std::to_string(r.sig) : "no result") + " on a list of facts", {"-text", text.substr(0, 3000)}, r.out.substr(0, 2000));
    return false;
  }
  size_t p = 0;
  while ((p = r.out.find("answer: $ans(", p)) != string::npos) {
    p += 13;
    size_t e = r.out.find('\n', p);
    string a = r.out.substr(p, e - p);
    p = e;
    if (a.find("| $ans(") != string::npos || a.size() < 2) continue;
    res.insert(a.substr(0, a.size() - 2));
  }
  return true;
}

// ---------------------------------------------------------------------------- C09
struct Val {
  bool isint;
  i64 i;
  double d;
  bool operator==(const Val &o) const { return isint == o.isint && (isint ? i == o.i : d == o.d); }
};
Val VI(i64 i) { return {true, i, 0}; }
Val VD(double d) { return {false, 0, d + 0.0}; }
string lit(const Val &v) {
  char b[1200];
  if (v.isint) { snprintf(b, sizeof b, "%lld", v.i); return b; }
  snprintf(b, sizeof b, "%.17g", v.d);
  if (strchr(b, 'e')) {
    // full decimal expansion
    snprintf(b, sizeof b, "%.40f", v.d);
    if (fabs(v.d) < 1) snprintf(b, sizeof b, "%.*f", 20 - (int)floor(log10(fabs(v.d))), v.d);
    string s = b;
    while (s.back() == '0' && s[s.size() - 2] != '.') s.pop_back();
    return s;
  }
  if (!strchr(b, '.')) strcat(b, ".0");
  return b;
}
cpp_rational rat(const Val &v) { return v.isint ? cpp_rational(v.i) : cpp_rational(v.d); }
cpp_int flo(const cpp_rational &q) {
  cpp_int n = numerator(q), d = denominator(q), r = n / d;
  if (n % d != 0 && n < 0) r--;
  return r;
}
const cpp_int IMIN = std::numeric_limits<i64>::min(), IMAX = std::numeric_limits<i64>::max();
enum Must { MUST, MAY, NEVER, SKIP };  // NEVER: stays uninterpreted; SKIP: not decided
struct Res { Must m; Val v; };
Res intres(const cpp_int &x, Must m = MUST) {
  if (x < IMIN || x > IMAX) return {NEVER, VI(0)};
  return {m, VI((i64)x)};
}
Res dblres(double d, Must m) {
  if (!std::isfinite(d)) return {NEVER, VI(0)};
  if (d != 0 && fabs(d) < 2.3e-308) return {SKIP, VI(0)};  // has no spelling gkc reads
  return {m, VD(d)};
}
const char *BIN[] = {"$sum", "$difference", "$product", "$quotient", "$quotient_e", "$quotient_t", "$quotient_f", "$remainder_e", "$remainder_t", "$remainder_f"};
enum { SUM, DIF, PRO, QUO, QE, QT, QF, RE, RT, RF, NBIN };
cpp_int quot(int op, const cpp_rational &a, const cpp_rational &b) {
  cpp_rational q = a / b;
  int kind = op >= RE ? op - RE : op - QE;
  if (kind == 2) return flo(q);
  if (kind == 1) return q < 0 ? cpp_int(-flo(-q)) : flo(q);
  return b > 0 ? flo(q) : cpp_int(-flo(-q));
}
Res bin(int op, const Val &a, const Val &b) {
  cpp_rational x = rat(a), y = rat(b);
  if (op >= QUO && y == 0) return {NEVER, VI(0)};
  bool ii = a.isint && b.isint;
  const i64 E = 1ll << 53;
  bool big = (a.isint && (a.i > E || a.i < -E)) || (b.isint && (b.i > E || b.i < -E));
  if (op <= QUO) {
    if (ii && op == SUM) return intres(cpp_int(a.i) + b.i);
    if (ii && op == DIF) return intres(cpp_int(a.i) - b.i);
    if (ii && op == PRO) return intres(cpp_int(a.i) * b.i);
    if (ii && cpp_int(a.i) % b.i == 0) return intres(cpp_int(a.i) / b.i);
    double p = a.isint ? (double)a.i : a.d, q = b.isint ? (double)b.i : b.d;
    double r = op == SUM ? p + q : op == DIF ? p - q : op == PRO ? p * q : p / q;
    if (big) {
      // if evaluated at all, then to the correctly rounded value
      cpp_rational e = op == SUM ? cpp_rational(x + y) : op == DIF ? cpp_rational(x - y) : op == PRO ? cpp_rational(x * y) : cpp_rational(x / y);
      r = e.convert_to<double>();
    }
    return dblres(r, big ? MAY : MUST);
  }
  if (op < RE) {
    cpp_int q = quot(op, x, y);
    if (ii) return intres(q);
    bool far = abs(q) >= (cpp_int(1) << 50) - 1;
    return intres(q, big || far ? MAY : MUST);
  }
  bool integral = denominator(x) == 1 && denominator(y) == 1;
  cpp_rational r = x - y * cpp_rational(quot(op, x, y));
  if (!integral) return {MAY, VD(r.convert_to<double>())};
  bool far = x < cpp_rational(IMIN) || x > cpp_rational(IMAX) || y < cpp_rational(IMIN) || y > cpp_rational(IMAX);
  Res w = intres(numerator(r));
  if (!ii && (big || far) && w.m == MUST) w.m = MAY;
  return w;
}
const char *UN[] = {"$uminus", "$floor", "$ceiling", "$truncate", "$round", "$to_int", "$to_real"};
enum { NEG, FLO, CEI, TRU, ROU, TOI, TOR, NUN };
Res un(int op, const Val &a) {
  cpp_rational x = rat(a);
  switch (op) {
    case NEG: return a.isint ? intres(-cpp_int(a.i)) : dblres(-a.d, MUST);
    case FLO: case TOI: return intres(flo(x));
    case CEI: return intres(-flo(-x));
    case TRU: return intres(x < 0 ? cpp_int(-flo(-x)) : flo(x));
    case ROU: {
      cpp_int f = flo(x);
      cpp_rational fr = x - cpp_rational(f), h(1, 2);
      if (fr > h || (fr == h && f % 2 != 0)) f++;
      return intres(f);
    }
    default: return dblres(a.isint ? cpp_rational(a.i).convert_to<double>() : a.d, MUST);
  }
}
// a predicate case: expected true, false or undetermined
struct PCase { string lit; int val; bool may; string name; };  // val 1 true 0 false -1 uninterpreted

const char *PRED[] = {"$less", "$lesseq", "$greater", "$greatereq"};
bool cmpv(int op, const Val &a, const Val &b) {
  cpp_rational x = rat(a), y = rat(b);
  switch (op) { case 0: return x < y; case 1: return x <= y; case 2: return x > y; default: return x >= y; }
}

// Batches: a case is a literal with its expected truth, decided in up to three ways (in the clause as read,
// after a resolution step, after rewriting)
struct Batch {
  vector<PCase> cs;
  string extra;  // clauses all cases need
};
// tag letters: t = the literal is false, s = the literal is true
void run_preds(Ctx &c, const vector<PCase> &cs, size_t from, size_t to, const string &extra, const char *what, int strat = 0) {
  string text = extra;
  for (size_t i = from; i < to; i++) {
    string n = std::to_string(i - from);
    text += "t(" + n + ") | " + cs[i].lit + ".\n";
    text += "s(" + n + ") | -(" + cs[i].lit + ").\n";
  }
  text += "-t(X) | $ans(t(X)).\n-s(X) | $ans(s(X)).\n";
  std::set<string> ans;
  string out;
  if (!answers(c, text, STRAT[strat], ans, out)) return;
  for (size_t i = from; i < to; i++) {
    string n = std::to_string(i - from);
    bool f = ans.count("t(" + n + ")"), t = ans.count("s(" + n + ")");
    int got = t && f ? 2 : t ? 1 : f ? 0 : -1;
    c.add("evaluations");
    if (cs[i].val >= 0) c.add("distinct_nontrivial");
    if (got == cs[i].val || (cs[i].may && got == -1)) continue;
    const char *T[] = {"uninterpreted", "false", "true", "both true and false"};
    violation(c, string(what) + ":" + cs[i].name, string(what) + " " + cs[i].name + ": the literal " + cs[i].lit + " is " + T[cs[i].val + 1] + ", gkc takes it as " + T[got + 1],
              {"-text", extra + "t(0) | " + cs[i].lit + ". s(0) | -(" + cs[i].lit + "). -t(X) | $ans(t(X)). -s(X) | $ans(s(X))."}, out.substr(0, 3000));
  }
}
void preds(Driver &d, const vector<PCase> &cs, const char *what, size_t per = 200, const string &extra = "", int strat = 0) {
  Phase ph(what);
  d.cnt[string("cases_") + what] += cs.size();
  d.pfor((cs.size() + per - 1) / per, [&](u64 b, Ctx &c) {
    run_preds(c, cs, b * per, std::min<size_t>(cs.size(), (b + 1) * per), extra, what, strat);
    if (b == 0) c.sample(string(what) + ": " + cs[0].lit);
  }, 1);
}

// The function given by a rewrite rule: the case's term h(args) is rewritten to the built-in function, whose
// value the query r(I,E,E) then meets (val 1) or does not meet
const string PAD = "e(e(e(e(0))))";  // makes the left side of the rule the heavier one
struct RCase { string fun, args, value; int val; bool may; string name; };
void rewrites(Driver &d, const vector<RCase> &cs, const char *what, const string &extra, size_t per = 250) {
  Phase ph(what);
  d.cnt[string("cases_") + what] += cs.size();
  d.pfor((cs.size() + per - 1) / per, [&](u64 bnr, Ctx &c) {
    size_t from = bnr * per, to = std::min<size_t>(cs.size(), from + per);
    string text = extra;
    auto fact = [&](size_t i, size_t n) { return "r(" + std::to_string(n) + "," + cs[i].fun + "(" + PAD + "," + cs[i].args + ")," + cs[i].value + ").\n"; };
    for (size_t i = from; i < to; i++) text += fact(i, i - from);
    text += "-r(I,E,E) | $ans(s(I)).\n";
    std::set<string> ans;
    string out;
    if (!answers(c, text, STRAT[bnr % 4], ans, out)) return;
    for (size_t i = from; i < to; i++) {
      bool t = ans.count("s(" + std::to_string(i - from) + ")");
      c.add("evaluations");
      if (cs[i].val == 1) c.add("distinct_nontrivial");
      if (t == (cs[i].val == 1) || (cs[i].may && !t)) continue;
      violation(c, string(what) + ":" + cs[i].name, string(what) + ": " + cs[i].name + (t ? " has the value " : " has not the value ") + cs[i].value,
                {"-parallel", "0", "-print", "10", "-strategytext", STRAT[bnr % 4], "-text", extra + fact(i, 0) + "-r(I,E,E) | $ans(s(I))."}, out.substr(0, 3000));
    }
  }, 1);
}

// the literal "term = value" for a value the term must (not) have
PCase valcase(const string &term, const Res &r, const string &name) {
  if (r.m == NEVER) return {term + " = 0", -1, false, name};
  return {term + " = " + lit(r.v), 1, r.m == MAY, name};
}

vector<Val> grid(bool quick) {
  vector<Val> v;
  std::set<i64> is;
  for (i64 x : {0, 1, 2, 3, 5, 7, 10}) { is.insert(x); is.insert(-x); }
  for (int p : {27, 28, 29, 31, 32, 53, 60, 61, 62}) {
    if (quick && (p == 27 || p == 29 || p == 32 || p == 60)) continue;
    for (i64 e : {-1, 0, 1}) { is.insert((1ll << p) + e); is.insert(-((1ll << p) + e)); }
  }
  i64 mx = std::numeric_limits<i64>::max();
  for (i64 e : {0, 1, 2}) { is.insert(mx - e); is.insert(-mx + e); }
  is.insert(std::numeric_limits<i64>::min());
  is.insert(3037000499ll);  // floor(sqrt(2^63))
  is.insert(3037000500ll);
  for (i64 x : is) v.push_back(VI(x));
  vector<double> ds = {0, 0.5, 1, 1.5, 2, 2.5, 3, 3.5, 7, 0.1, 0.3, 10, 1e15, 4503599627370495.5, 9007199254740992.0, 9007199254740994.0, 2147483647.5, 9223372036854775808.0, 9223372036854774784.0, 1e19, 1e300, 0.0009765625};
  if (!quick) for (double x : {0.2, 0.7, 1.1, 4.5, 0.49999999999999994, 1e-20, 4503599627370496.0, 4503599627370497.5, 1e100, 1.7976931348623157e308, 536870911.5, 1e18}) ds.push_back(x);
  for (double x : ds) { v.push_back(VD(x)); if (x != 0) v.push_back(VD(-x)); }
  return v;
}

void c09(Driver &d) {
  vector<Val> g = grid(d.quick());
  d.texts["numbers"] = std::to_string(g.size()) + " integers and reals, incl. 0, 1, halves, powers of two to 2^63 with neighbours, the ends of the integers, 1e19, 1e300";
  // literals themselves: equality of all pairs (as terms: an integer is not a real)
  {
    vector<PCase> cs;
    for (auto &a : g) for (auto &b : g) {
      bool same = a == b;
      if (!same && a.isint != b.isint && rat(a) == rat(b)) cs.push_back({lit(a) + " = " + lit(b), 0, true, lit(a) + "=" + lit(b)});
      else cs.push_back({lit(a) + " = " + lit(b), same, false, lit(a) + "=" + lit(b)});
    }
    preds(d, cs, "equal");
  }
  // binary functions and comparisons, four ways
  for (int way = 0; way < 4; way++) {
    vector<PCase> cs;
    string extra;
    if (way == 1) for (int op = 0; op < NBIN; op++) {
      string o = std::to_string(op);
      extra += "-w" + o + "(I,X,Y,E) | r(I," + BIN[op] + "(X,Y),E).\n-r(I," + BIN[op] + "(X,Y),E) | $ans(u(I)).\n";
    }
    if (way == 2) {
      vector<RCase> rc;
      for (int op = 0; op < NBIN; op++) {
        string h = "h" + std::to_string(op);
        extra += h + "(" + PAD + ",X,Y) = " + BIN[op] + "(X,Y).\n";
        for (auto &a : g) for (auto &b : g) {
          Res r = bin(op, a, b);
          if (r.m == SKIP) continue;
          string ar = lit(a) + "," + lit(b);
          rc.push_back({h, ar, r.m == NEVER ? string("0") : lit(r.v), r.m == NEVER ? -1 : 1, r.m == MAY, string(BIN[op]) + "(" + ar + ")"});
        }
      }
      rewrites(d, rc, "after rewriting", extra);
      continue;
    }
    if (way == 1) for (int op = 0; op < 4; op++) {
      string o = std::to_string(op);
      extra += "-v" + o + "(I,X,Y) | " + PRED[op] + "(X,Y) | t(I).\n-v" + o + "(I,X,Y) | -" + PRED[op] + "(X,Y) | s(I).\n";
    }
    for (auto &a : g) for (auto &b : g) {
      for (int op = 0; op < NBIN; op++) {
        Res r = bin(op, a, b);
        if (r.m == SKIP) continue;
        string nm = string(BIN[op]) + "(" + lit(a) + "," + lit(b) + ")";
        string term = nm;
        if (way == 3) {
          if (op > PRO) continue;
          term = "(" + lit(a) + " " + "+-*"[op] + " " + lit(b) + ")";
        }
        PCase p = valcase(term, r, nm);
        if (way == 1) p.lit = "-w" + std::to_string(op) + "(@," + lit(a) + "," + lit(b) + "," + (r.m == NEVER ? string("0") : lit(r.v)) + ")";
        cs.push_back(p);
      }
      if (way < 2) for (int op = 0; op < 4; op++) {
        string nm = string(PRED[op]) + "(" + lit(a) + "," + lit(b) + ")";
        PCase p = {nm, cmpv(op, a, b), false, nm};
        if (way == 1) p.lit = "-v" + std::to_string(op) + "(@," + lit(a) + "," + lit(b) + ")";
        cs.push_back(p);
      }
    }
    static const char *WN[] = {"as read", "after resolution", "after rewriting", "infix"};
    if (way == 1) {
      // facts only: the rules give t and s
      size_t per = 400;
      Phase ph("after resolution");
      d.cnt["cases_after resolution"] += cs.size();
      d.pfor((cs.size() + per - 1) / per, [&](u64 bnr, Ctx &c) {
        size_t from = bnr * per, to = std::min<size_t>(cs.size(), from + per);
        string text = extra;
        for (size_t i = from; i < to; i++) {
          string l = cs[i].lit.substr(1);
          l.replace(l.find('@'), 1, std::to_string(i - from));
          text += l + ".\n";
        }
        text += "-r(I,E,E) | $ans(s(I)).\n-t(X) | $ans(t(X)).\n-s(X) | $ans(s(X)).\n";
        std::set<string> ans;
        string out;
        if (!answers(c, text, STRAT[3], ans, out)) return;
        for (size_t i = from; i < to; i++) {
          string n = std::to_string(i - from);
          bool f = ans.count("t(" + n + ")"), t = ans.count("s(" + n + ")"), u = ans.count("u(" + n + ")");
          int got = t && f ? 2 : t ? 1 : f ? 0 : -1;
          // a term neither equal to the value nor left as it was has a wrong value
          if (cs[i].lit[1] == 'w' && !t && !u) got = 0;
          c.add("evaluations");
          if (cs[i].val >= 0) c.add("distinct_nontrivial");
          if (got == cs[i].val || (cs[i].may && got == -1)) continue;
          const char *T[] = {"uninterpreted", "false", "true", "both true and false"};
          violation(c, "after resolution:" + cs[i].name, "after resolution: " + cs[i].name + " (expected value in " + cs[i].lit + ") should be " + T[cs[i].val + 1] + ", gkc takes it as " + T[got + 1], {"-text", extra + cs[i].lit.substr(1) + "."}, out.substr(0, 2000));
        }
      }, 1);
    } else
      preds(d, cs, WN[way], 200, extra);
  }
  // unary functions and type tests
  {
    vector<PCase> cs;
    vector<RCase> c2;
    string extra;
    for (int op = 0; op < NUN; op++) extra += "k" + std::to_string(op) + "(" + PAD + ",X) = " + UN[op] + "(X).\n";
    for (auto &a : g) {
      for (int op = 0; op < NUN; op++) {
        string nm = string(UN[op]) + "(" + lit(a) + ")";
        cs.push_back(valcase(nm, un(op, a), nm));
        Res r = un(op, a);
        c2.push_back({"k" + std::to_string(op), lit(a), r.m == NEVER ? string("0") : lit(r.v), r.m == NEVER ? -1 : 1, r.m == MAY, nm});
      }
      cs.push_back({"$is_int(" + lit(a) + ")", a.isint, false, "$is_int(" + lit(a) + ")"});
      cs.push_back({"$is_real(" + lit(a) + ")", !a.isint, false, "$is_real(" + lit(a) + ")"});
      cs.push_back({"$is_number(" + lit(a) + ")", 1, false, "$is_number(" + lit(a) + ")"});
    }
    preds(d, cs, "unary");
    rewrites(d, c2, "unary after rewriting", extra);
  }
  // all halves and quarters around zero for the roundings
  {
    vector<PCase> cs;
    int lim = d.quick() ? 400 : 4000;
    for (int q = -lim; q <= lim; q++) for (int op = NEG; op < NUN; op++) {
      Val a = VD(q / 4.0);
      string nm = string(UN[op]) + "(" + lit(a) + ")";
      cs.push_back(valcase(nm, un(op, a), nm));
    }
    preds(d, cs, "quarters");
  }
  // all small integers and halves for the quotients and remainders
  {
    vector<PCase> cs;
    int lim = d.quick() ? 9 : 24;
    for (int x = -lim; x <= lim; x++) for (int y = -lim; y <= lim; y++) for (int op = QUO; op < NBIN; op++) for (int k = 0; k < 4; k++) {
      Val a = k & 1 ? VD(x / 2.0) : VI(x), b = k & 2 ? VD(y / 2.0) : VI(y);
      string nm = string(BIN[op]) + "(" + lit(a) + "," + lit(b) + ")";
      cs.push_back(valcase(nm, bin(op, a, b), nm));
    }
    preds(d, cs, "small quotients");
  }
  // not numbers: nothing is evaluated
  {
    vector<PCase> cs;
    vector<string> nn = {"a", "f(1)", "\"s\"", "\"1\"", "'1'", "[1]", "[]", "$quotient(1,0)", "$list(1,2)", "-1.5", "2"};
    for (auto &a : nn) for (auto &b : nn) {
      bool num = (a == "2" || a == "-1.5") && (b == "2" || b == "-1.5");
      if (num) continue;
      for (int op = 0; op < NBIN; op++) cs.push_back({string(BIN[op]) + "(" + a + "," + b + ") = 0", -1, false, string(BIN[op]) + "(" + a + "," + b + ")"});
      for (int op = 0; op < 4; op++) cs.push_back({string(PRED[op]) + "(" + a + "," + b + ")", a == b ? op % 2 : -1, a == b, string(PRED[op]) + "(" + a + "," + b + ")"});
    }
    for (auto &a : nn) {
      if (a == "2" || a == "-1.5") continue;
      for (int op = 0; op < NUN; op++) cs.push_back({string(UN[op]) + "(" + a + ") = 0", -1, false, string(UN[op]) + "(" + a + ")"});
      bool typed = a[0] == '"', list = a[0] == '[' || a[0] == '$';
      for (const char *t : {"$is_int", "$is_real", "$is_number"}) {
        string nm = string(t) + "(" + a + ")";
        if (typed) cs.push_back({nm, 0, false, nm});
        else if (list && a[1] != 'q') cs.push_back({nm, 0, true, nm});
        else cs.push_back({nm, -1, false, nm});
      }
    }
    // wrong numbers of arguments
    for (int op = 0; op < NBIN; op++) {
      cs.push_back({string(BIN[op]) + "(1) = 0", -1, false, string(BIN[op]) + "(1)"});
    }
    preds(d, cs, "non-numbers", 60);
  }
  // trees of operations over small values
  {
    vector<Val> sv = {VI(0), VI(1), VI(-2), VI(7), VD(0.5), VD(-3)};
    if (!d.quick()) { sv.push_back(VI(-3)); sv.push_back(VI(10)); sv.push_back(VD(2)); sv.push_back(VI(std::numeric_limits<i64>::max())); }
    u64 n = sv.size() * sv.size() * sv.size() * NBIN * NBIN * 2;
    const size_t per = 250;
    Phase ph("nested");
    d.cnt["cases_nested"] += n;
    d.pfor((n + per - 1) / per, [&](u64 bnr, Ctx &c) {
      vector<PCase> cs;
      for (u64 i = bnr * per; i < std::min<u64>(n, (bnr + 1) * per); i++) {
        u64 k = i;
        int shape = k % 2; k /= 2;
        int o1 = k % NBIN; k /= NBIN;
        int o2 = k % NBIN; k /= NBIN;
        Val x = sv[k % sv.size()]; k /= sv.size();
        Val y = sv[k % sv.size()]; k /= sv.size();
        Val z = sv[k];
        Res in = bin(o1, x, y);
        string inner = string(BIN[o1]) + "(" + lit(x) + "," + lit(y) + ")";
        string nm = string(BIN[o2]) + (shape ? "(" + lit(z) + "," + inner + ")" : "(" + inner + "," + lit(z) + ")");
        Res r = in;
        if (in.m != NEVER) {
          r = shape ? bin(o2, z, in.v) : bin(o2, in.v, z);
          if (in.m == MAY && r.m == MUST) r.m = MAY;
          if (in.m == MAY && r.m == NEVER) { }
        }
        cs.push_back({r.m == NEVER ? string("0") : lit(r.v), r.m == NEVER ? -1 : 1, r.m == MAY, nm});
      }
      // facts about the terms: evaluated as read; an uninterpreted term still has its outer function
      string text;
      for (size_t i = 0; i < cs.size(); i++) text += "r(" + std::to_string(i) + "," + cs[i].name + "," + cs[i].lit + ").\n";
      text += "-r(I,E,E) | $ans(s(I)).\n";
      for (int op = 0; op < NBIN; op++) text += string("-r(I,") + BIN[op] + "(X,Y),E) | $ans(u(I)).\n";
      std::set<string> ans;
      string out;
      if (!answers(c, text, STRAT[bnr % 4], ans, out)) return;
      for (size_t i = 0; i < cs.size(); i++) {
        bool t = ans.count("s(" + std::to_string(i) + ")"), u = ans.count("u(" + std::to_string(i) + ")");
        int got = t ? 1 : u ? -1 : 0;
        c.add("evaluations");
        if (cs[i].val == 1) c.add("distinct_nontrivial");
        if (got == cs[i].val || (cs[i].may && got == -1)) continue;
        violation(c, "nested:" + cs[i].name, "nested: " + cs[i].name + " should be " + (cs[i].val == 1 ? cs[i].lit : "uninterpreted") + ", gkc " + (got == 1 ? "gives 0" : got == -1 ? "leaves it uninterpreted" : "gives another value"),
                  {"-parallel", "0", "-print", "10", "-strategytext", STRAT[bnr % 4], "-text", "r(0," + cs[i].name + "). -r(I,X) | $ans(X)."}, out.substr(0, 2000));
      }
    }, 1);
  }
}

// ---------------------------------------------------------------------------- C10
// ground terms: numbers, strings, lists (also with a constant as the tail), constants, function terms
struct T {
  char k;  // i number, s string, n nil, l list cell, c constant, f function term
  string v;
  int a = -1, b = -1;
};
vector<T> TT;
int addt(char k, const string &v, int a = -1, int b = -1) { TT.push_back({k, v, a, b}); return TT.size() - 1; }
string show(int t, bool sugar) {
  const T &x = TT[t];
  switch (x.k) {
    case 's': return "\"" + x.v + "\"";
    case 'n': return sugar ? "[]" : "$nil";
    case 'f': return x.v + "(" + show(x.a, sugar) + ")";
    case 'l': {
      if (sugar) {
        // proper lists only
        string s = "[";
        int y = t;
        for (; TT[y].k == 'l'; y = TT[y].b) s += (s.size() > 1 ? "," : "") + show(TT[y].a, sugar);
        if (TT[y].k == 'n') return s + "]";
      }
      return "$list(" + show(x.a, sugar) + "," + show(x.b, sugar) + ")";
    }
    default: return x.v;
  }
}
// 1 equal, 0 known unequal, -1 not known
int eq3(int p, int q) {
  const T &a = TT[p], &b = TT[q];
  if (a.k == b.k && a.v == b.v && (a.a < 0 || eq3(a.a, b.a) == 1) && (a.b < 0 || eq3(a.b, b.b) == 1)) return 1;
  auto typed = [](char k) { return k == 'i' || k == 's' || k == 'n' || k == 'l'; };
  if (!typed(a.k) || !typed(b.k)) return -1;
  if (a.k == 'l' && b.k == 'l') {
    if (eq3(a.a, b.a) == 0 || eq3(a.b, b.b) == 0) return 0;
    return -1;
  }
  return 0;
}
vector<string> allstrings(const string &alpha, int n) {
  vector<string> r = {""};
  for (size_t b = 0, l = 0; (int)l < n; l++) {
    size_t e = r.size();
    for (; b < e; b++) for (char c : alpha) r.push_back(r[b] + c);
  }
  return r;
}
void c10(Driver &d) {
  // strings
  vector<string> ss = allstrings("ab", d.quick() ? 3 : 4);
  size_t small = ss.size();
  for (const char *s : {" ", "a b", "A", "aB", "$nil", "$list", "[]", "1", "abcabcabcabcabcabcabcabcabcabcabc", "ab'c", "x y z", "'", "%", "$true", "?:a", "#:a", "..", "a.", "~a", "\xc3\xb5"}) ss.push_back(s);
  ss.push_back(string(300, 'a'));
  {
    vector<PCase> cs, c2;
    for (auto &s : ss) {
      if (s != "\xc3\xb5") cs.push_back({"$strlen(\"" + s + "\") = " + std::to_string(s.size()), 1, false, "$strlen(\"" + s + "\")"});
      for (auto &o : ss) {
        cs.push_back({"\"" + s + "\" = \"" + o + "\"", s == o, false, "\"" + s + "\" = \"" + o + "\""});
        cs.push_back({"$substr(\"" + s + "\",\"" + o + "\")", o.find(s) != string::npos, false, "$substr(\"" + s + "\",\"" + o + "\")"});
      }
    }
    for (size_t i = 0; i < small; i++) for (size_t j = 0; j < small; j++) for (int p = -2; p <= 5; p++) {
      bool t = p >= 0 && p <= (int)ss[j].size() && ss[j].compare(p, ss[i].size(), ss[i]) == 0;
      string nm = "$substrat(\"" + ss[i] + "\",\"" + ss[j] + "\"," + std::to_string(p) + ")";
      cs.push_back({nm, t, false, nm});
    }
    for (const char *p : {"9223372036854775807", "-9223372036854775808", "4294967296", "2147483648", "4294967297"}) {
      string nm = string("$substrat(\"a\",\"ba\",") + p + ")";
      cs.push_back({nm, 0, false, nm});
      cs.push_back({string("$substrat(\"\",\"ba\",") + p + ")", 0, false, string("$substrat(\"\",\"ba\",") + p + ")"});
    }
    preds(d, cs, "strings");
    // not strings
    vector<string> nn = {"a", "'a'", "f(\"a\")", "1", "1.5", "[\"a\"]", "[]", "\"a\""};
    for (auto &a : nn) {
      if (a != "\"a\"") c2.push_back({"$strlen(" + a + ") = 1", -1, false, "$strlen(" + a + ")"});
      for (auto &b : nn) {
        if (a == b && a == "\"a\"") continue;
        string nm = "$substr(" + a + "," + b + ")";
        c2.push_back({nm, -1, false, nm});
        nm = "$substrat(" + a + "," + b + ",0)";
        c2.push_back({nm, -1, false, nm});
      }
      if (a != "1") { string nm = "$substrat(\"a\",\"a\"," + a + ")"; c2.push_back({nm, -1, false, nm}); }
    }
    preds(d, c2, "non-strings", 60);
    d.texts["strings"] = "all strings over {a,b} up to length " + string(d.quick() ? "3" : "4") + " and 21 others, all pairs, positions -2..5 and five large ones";
  }
  {
    vector<RCase> cs;
    for (auto &s : ss) if (s != "\xc3\xb5") cs.push_back({"len", "\"" + s + "\"", std::to_string(s.size()), 1, false, "$strlen(\"" + s + "\")"});
    rewrites(d, cs, "strings after rewriting", "len(" + PAD + ",X) = $strlen(X).\n");
  }
  // lists
  TT.clear();
  vector<int> base = {addt('i', "1"), addt('i', "2.5"), addt('s', "a"), addt('s', ""), addt('c', "a"), addt('f', "f", 0), addt('n', "")};
  int nil = 6, ca = 4;
  vector<int> all = base, lists;
  auto grow = [&](const vector<int> &el, int n) {
    vector<int> prev = {nil}, r;
    for (int l = 0; l < n; l++) {
      vector<int> nx;
      for (int e : el) for (int p : prev) nx.push_back(addt('l', "", e, p));
      r.insert(r.end(), nx.begin(), nx.end());
      prev = nx;
    }
    return r;
  };
  vector<int> l1 = grow(base, d.quick() ? 2 : 3);
  lists = l1;
  // lists of lists
  vector<int> el2;
  for (int i = 0; i < (int)l1.size() && (int)el2.size() < (d.quick() ? 7 : 20); i++) el2.push_back(l1[i]);
  vector<int> l2 = grow(el2, d.quick() ? 1 : 2);
  lists.insert(lists.end(), l2.begin(), l2.end());
  // a constant as the tail
  for (int e : base) lists.push_back(addt('l', "", e, ca));
  for (int e : {0, 2, 4}) for (int p : {0, 4}) lists.push_back(addt('l', "", e, addt('l', "", p, ca)));
  all.insert(all.end(), lists.begin(), lists.end());
  d.texts["lists"] = std::to_string(lists.size()) + " lists (all of up to " + string(d.quick() ? "two" : "three") + " elements of seven kinds, lists of lists, lists with an unknown rest), all pairs, bracket and $list spelling";
  {
    vector<PCase> cs;
    for (int t : all) for (int sugar = 0; sugar < 2; sugar++) {
      string s = show(t, sugar);
      char k = TT[t].k;
      bool opaque = k == 'c' || k == 'f';
      cs.push_back({"$is_list(" + s + ")", opaque ? -1 : (k == 'n' || k == 'l'), false, "$is_list(" + s + ")"});
      cs.push_back({"$is_distinct(" + s + ")", opaque ? -1 : k == 's', false, "$is_distinct(" + s + ")"});
      if (k == 'l') {
        cs.push_back({"$first(" + s + ") = " + show(TT[t].a, sugar), 1, false, "$first(" + s + ")"});
        cs.push_back({"$rest(" + s + ") = " + show(TT[t].b, sugar), 1, false, "$rest(" + s + ")"});
        int wrong = TT[TT[t].a].k == 'i' && TT[TT[t].a].v == "1" ? 1 : 0;
        int e = eq3(TT[t].a, wrong);
        cs.push_back({"$first(" + s + ") = " + show(wrong, sugar), e, false, "$first(" + s + ") wrong"});
      } else {
        cs.push_back({"$first(" + s + ") = 1", -1, false, "$first(" + s + ")"});
        cs.push_back({"$rest(" + s + ") = []", -1, false, "$rest(" + s + ")"});
      }
    }
    preds(d, cs, "lists", 40);
    vector<RCase> c3;
    for (int t : all) {
      string s = show(t, true);
      if (TT[t].k != 'l') continue;
      c3.push_back({"fst", s, show(TT[t].a, true), 1, false, "$first(" + s + ")"});
      c3.push_back({"rst", s, show(TT[t].b, true), 1, false, "$rest(" + s + ")"});
    }
    rewrites(d, c3, "lists after rewriting", "fst(" + PAD + ",X) = $first(X).\nrst(" + PAD + ",X) = $rest(X).\n");
  }
  // equality of all pairs: different batches keep facts of undetermined equality apart
  {
    vector<PCase> cs, cu;
    for (int a : all) for (int b : all) {
      int e = eq3(a, b);
      string s = show(a, (a + b) & 1), t = show(b, true);
      if (e >= 0) cs.push_back({s + " = " + t, e, false, s + " = " + t});
      else cu.push_back({s + " = " + t, -1, false, s + " = " + t});
    }
    preds(d, cs, "equality", 200);
    preds(d, cu, "undetermined equality", 1);
  }
  // what is and is not refuted: facts about two values, and about two ordinary symbols
  {
    vector<std::array<string, 3>> v;
    vector<int> few = {0, 1, 2, 3, 4, 5, 6};
    for (size_t i = 7; i < all.size() && few.size() < 30; i++) few.push_back(all[i]);
    struct C { string text; bool ref; bool may; };
    vector<C> cs;
    for (int a : few) for (int b : few) {
      int e = eq3(a, b);
      string s = show(a, true), t = show(b, true);
      cs.push_back({s + " = " + t + ".", e == 0, false});
      cs.push_back({"-(" + s + " = " + t + ").", e == 1, false});
      cs.push_back({"p(" + s + ").\n-p(" + t + ").", e == 1, false});
      cs.push_back({"p(f(" + s + "),X).\n-p(f(" + t + "),b).", e == 1, false});
      cs.push_back({"d = " + s + ".\nd = " + t + ".", e == 0, e == 0});
      cs.push_back({"-(X = " + s + ") | X = " + t + ".", e == 0, e == 0});
    }
    Phase ph("refutations");
    d.cnt["cases_refutations"] += cs.size();
    d.pfor(cs.size() * 3, [&](u64 i, Ctx &c) {
      const C &k = cs[i / 3];
      RunOpt o;
      o.wall = 30;
      o.clock_step = 100;
      RunResult r = run_gkc({"-parallel", "0", "-mbsize", "10", "-strategytext", STRAT[i % 3], "-text", k.text}, o);
      c.add("evaluations");
      if (k.ref) c.add("distinct_nontrivial");
      bool found = r.out.find("result: proof found") != string::npos;
      if (r.sig || r.timeout) violation(c, "end:" + k.text, "gkc ended abnormally on " + k.text, {"-text", k.text}, r.out);
      else if (found != k.ref && !(k.may && !found))
        violation(c, "refute:" + k.text, string("gkc ") + (found ? "refutes" : "does not refute") + " " + k.text, {"-parallel", "0", "-strategytext", STRAT[i % 3], "-text", k.text}, r.out);
    });
  }
}

// ---------------------------------------------------------------------------- C11
struct Tm { int f; int n; int a[2]; };  // f < 0: variable
vector<Tm> U;
std::map<vector<int>, int> UM;
const char *SYM[] = {"a", "b", "1", "2", "1.5", "\"a\"", "f", "g", "$list", "$nil", "'b c'", "h"};
enum { SA, SB, S1, S2, SR, SS, SF, SG, SL, SN, SQ, SH };
int mkt(int f, int n = 0, int x = -1, int y = -1) {
  vector<int> k = {f, n, x, y};
  auto it = UM.find(k);
  if (it != UM.end()) return it->second;
  U.push_back({f, n, {x, y}});
  return UM[k] = U.size() - 1;
}
const char *VN[] = {"", "X", "Y", "Z"};
string ushow(int t) {
  const Tm &x = U[t];
  if (x.f < 0) return x.f >= -3 ? VN[-x.f] : "V" + std::to_string(-x.f);
  string s = SYM[x.f];
  if (x.n) {
    s += "(" + ushow(x.a[0]);
    if (x.n > 1) s += "," + ushow(x.a[1]);
    s += ")";
  }
  return s;
}
// textbook unification over variable numbers; the second atom's variables are shifted
struct Subst {
  std::map<int, std::pair<int, int>> b;  // (variable,side) -> (term, side)
  static int key(int v, int side) { return v * 2 - side; }
  void walk(int &t, int &side) {
    while (U[t].f < 0) {
      auto it = b.find(key(U[t].f, side));
      if (it == b.end()) return;
      t = it->second.first;
      side = it->second.second;
    }
  }
  bool occurs(int v, int vs, int t, int s) {
    walk(t, s);
    if (U[t].f < 0) return U[t].f == v && s == vs;
    for (int i = 0; i < U[t].n; i++) if (occurs(v, vs, U[t].a[i], s)) return true;
    return false;
  }
  bool unify(int t, int s, int u, int w) {
    walk(t, s);
    walk(u, w);
    if (U[t].f < 0) {
      if (U[u].f == U[t].f && s == w) return true;
      if (occurs(U[t].f, s, u, w)) return false;
      b[key(U[t].f, s)] = {u, w};
      return true;
    }
    if (U[u].f < 0) return unify(u, w, t, s);
    if (U[t].f != U[u].f || U[t].n != U[u].n) return false;
    for (int i = 0; i < U[t].n; i++) if (!unify(U[t].a[i], s, U[u].a[i], w)) return false;
    return true;
  }
  string app(int t, int s, std::map<int, int> &names) {
    walk(t, s);
    if (U[t].f < 0) {
      int k = key(U[t].f, s);
      auto it = names.find(k);
      int n = it == names.end() ? names[k] = names.size() : it->second;
      return "V" + std::to_string(n);
    }
    string r = SYM[U[t].f];
    if (U[t].n) {
      r += "(" + app(U[t].a[0], s, names);
      if (U[t].n > 1) r += "," + app(U[t].a[1], s, names);
      r += ")";
    }
    return r;
  }
};
// variables of a printed answer renamed in the order of occurrence
string canon(const string &s) {
  string r;
  std::map<string, int> m;
  for (size_t i = 0; i < s.size();) {
    if (s[i] == '"' || s[i] == '\'') {
      size_t e = s.find(s[i], i + 1);
      if (e == string::npos) e = s.size() - 1;
      r += s.substr(i, e + 1 - i);
      i = e + 1;
    } else if (isalnum(s[i]) || s[i] == '_' || s[i] == '$' || s[i] == '.') {
      size_t e = i;
      while (e < s.size() && (isalnum(s[e]) || s[e] == '_' || s[e] == '$' || s[e] == '.')) e++;
      string w = s.substr(i, e - i);
      if (isupper(w[0])) { auto it = m.find(w); int n = it == m.end() ? m[w] = m.size() : it->second; r += "V" + std::to_string(n); }
      else if (w == "1.500000") r += "1.5";
      else r += w;
      i = e;
    } else r += s[i++];
  }
  return r;
}
struct Atom { vector<int> t; };
// every atom against every atom
void clash(Driver &d, const char *name, const vector<Atom> &L, const vector<Atom> &R, int strat, size_t per, int argpos = 0) {
  u64 n = (u64)L.size() * R.size();
  Phase ph(name);
  d.cnt[string("cases_") + name] += n;
  d.pfor((n + per - 1) / per, [&](u64 bnr, Ctx &c) {
    string text;
    vector<string> want;
    u64 from = bnr * per, to = std::min(n, from + per);
    for (u64 i = from; i < to; i++) {
      const Atom &l = L[i / R.size()], &r = R[i % R.size()];
      string nr = std::to_string(i - from);
      string p = "p" + nr;
      text += p + "(";
      for (size_t k = 0; k < l.t.size(); k++) text += (k ? "," : "") + ushow(l.t[k]);
      text += ").\n-" + p + "(";
      for (size_t k = 0; k < r.t.size(); k++) text += (k ? "," : "") + ushow(r.t[k]);
      text += ") | $ans(" + nr + ",X,Y).\n";
      Subst s;
      bool ok = true;
      for (size_t k = 0; k < l.t.size() && ok; k++) ok = s.unify(l.t[k], 0, r.t[k], 1);
      std::map<int, int> names;
      static int X = mkt(-1), Y = mkt(-2);
      string x = ok ? s.app(X, 1, names) : "";
      want.push_back(ok ? nr + "," + x + "," + s.app(Y, 1, names) : "");
      c.add("evaluations");
      if (ok && !s.b.empty()) c.add("distinct_nontrivial");
    }
    std::set<string> ans;
    string out;
    if (!answers(c, text, STRAT[strat], ans, out)) return;
    std::map<string, std::set<string>> got;
    for (auto &a : ans) { string k = canon(a); got[k.substr(0, k.find(','))].insert(k); }
    if (bnr == 3) c.sample(string(name) + ": " + text.substr(0, 150));
    for (u64 i = from; i < to; i++) {
      const Atom &l = L[i / R.size()], &r = R[i % R.size()];
      string nr = std::to_string(i - from), w = want[i - from], g;
      for (auto &x : got[nr]) g += (g.empty() ? "" : " and ") + x;
      if (g == w) continue;
      string la = "p(", ra = "-p(";
      for (size_t k = 0; k < l.t.size(); k++) la += (k ? "," : "") + ushow(l.t[k]);
      for (size_t k = 0; k < r.t.size(); k++) ra += (k ? "," : "") + ushow(r.t[k]);
      string key = la + ") " + ra + ")";
      violation(c, key, string(name) + ": " + key + (w.empty() ? " have no common instance, gkc finds " + g : " meet in " + w + " (number, X, Y of the second), gkc finds " + (g.empty() ? "nothing" : g)),
                {"-parallel", "0", "-print", "10", "-strategytext", STRAT[strat], "-text", la + "). " + ra + ") | $ans(0,X,Y)."}, out.substr(0, 1500));
    }
  }, 1);
}
void c11(Driver &d) {
  U.clear(); UM.clear();
  int X = mkt(-1), Y = mkt(-2), Z = mkt(-3), a = mkt(SA), b = mkt(SB), one = mkt(S1), two = mkt(S2), re = mkt(SR), st = mkt(SS), qq = mkt(SQ), nil = mkt(SN);
  auto f = [&](int x) { return mkt(SF, 1, x); };
  auto g = [&](int x, int y) { return mkt(SG, 2, x, y); };
  auto li = [&](int x, int y) { return mkt(SL, 2, x, y); };
  vector<int> small = {X, Y, a, b, f(X), f(Y), f(a)};
  vector<int> mid = {X, Y, a, f(X), f(Y), f(b), g(X, Y), g(Y, X), g(X, X), g(a, X), g(Y, b), f(f(X)), f(g(X, Y)), g(f(Y), X)};
  vector<int> typed = {X, Y, a, qq, st, one, two, re, nil, li(X, Y), li(X, nil), li(one, X), li(st, nil), f(one), f(st)};
  vector<int> deep;
  {
    vector<int> d1 = {X, Y, a, f(X), g(X, Y), g(Y, Y), f(a)};
    deep = d1;
    for (int x : d1) { deep.push_back(f(f(x))); deep.push_back(f(g(a, x))); deep.push_back(g(f(x), X)); deep.push_back(g(Y, f(x))); }
    std::sort(deep.begin(), deep.end());
    deep.erase(std::unique(deep.begin(), deep.end()), deep.end());
  }
  auto tuples = [&](const vector<int> &pool, int n) {
    vector<Atom> r;
    vector<size_t> ix(n, 0);
    for (;;) {
      Atom t;
      for (int i = 0; i < n; i++) t.t.push_back(pool[ix[i]]);
      r.push_back(t);
      int k = n - 1;
      while (k >= 0 && ++ix[k] == pool.size()) ix[k--] = 0;
      if (k < 0) break;
    }
    return r;
  };
  // atoms that are the same up to the names of variables are taken once on the left
  auto once = [&](const vector<Atom> &v) {
    vector<Atom> r;
    std::set<string> seen;
    for (auto &t : v) {
      string s;
      for (int x : t.t) s += ushow(x) + ",";
      if (seen.insert(canon(s)).second) r.push_back(t);
    }
    return r;
  };
  vector<Atom> s1 = tuples(deep, 1), m2 = tuples(mid, 2), t2 = tuples(typed, 2), s3 = tuples(small, 3);
  vector<int> tiny = {X, Y, Z, a, f(X), g(X, Y)};
  vector<Atom> y3 = tuples(tiny, 3), y4 = tuples({X, Y, a, f(X)}, 4);
  const size_t per = 150;
  clash(d, "one argument", once(s1), s1, 0, per);
  clash(d, "two arguments", once(m2), once(m2), 0, per);
  clash(d, "typed arguments", once(t2), once(t2), 0, per);
  clash(d, "three arguments", once(y3), once(y3), 0, per);
  clash(d, "four arguments", once(y4), once(y4), 0, per);
  for (int s = 1; s < 5; s++) {
    vector<Atom> w = once(tuples({X, Y, a, f(X), f(Y), g(X, Y), g(Y, X), one, st}, 2));
    clash(d, "two arguments, other strategies", w, w, s, per);
    clash(d, "one argument, other strategies", once(s1), once(s1), s, per);
  }
  if (!d.quick()) {
    vector<int> big = mid;
    for (int x : {g(f(X), f(Y)), g(g(X, Y), X), f(f(f(X))), f(f(a)), li(X, Y), one, st, g(X, f(X)), g(Y, g(X, X))}) big.push_back(x);
    vector<Atom> b2 = once(tuples(big, 2));
    clash(d, "two arguments, more", b2, b2, 0, per);
    vector<Atom> b3 = once(s3);
    clash(d, "three arguments, more", b3, b3, 0, per);
    clash(d, "two arguments, hyper", once(m2), once(m2), 3, per);
  }
}
static CheckReg r09("C09", c09), r10("C10", c10), r11("C11", c11);
}  // namespace
