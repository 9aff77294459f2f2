// C26: the printed result in the text, TPTP and JSON formats and at the print levels.
#include "chk_answer.cpp"
#include "chk_search.cpp"
namespace {
// ---- strict JSON
struct J {
  char k = 0;  // n null, b bool, # number, s string, a array, o object
  string s;
  vector<J> a;
  vector<string> keys;
  const J *get(const string &n) const { for (size_t i = 0; i < keys.size(); i++) if (keys[i] == n) return &a[i]; return nullptr; }
};
struct JP {
  const string &s;
  size_t i = 0;
  string err;
  explicit JP(const string &t) : s(t) {}
  void ws() { while (i < s.size() && strchr(" \n\t\r", s[i])) i++; }
  bool fail(const string &m) { if (err.empty()) err = m + " at byte " + std::to_string(i) + ": " + s.substr(i, 40); return false; }
  bool str(string &o) {
    if (i >= s.size() || s[i] != '"') return fail("string expected");
    i++;
    for (;;) {
      if (i >= s.size()) return fail("unterminated string");
      unsigned char c = s[i];
      if (c == '"') { i++; return true; }
      if (c < ' ') return fail("control character in a string");
      if (c == '\\') {
        char e = i + 1 < s.size() ? s[i + 1] : 0;
        const char *f = "\"\\/bfnrt", *t = "\"\\/\b\f\n\r\t", *p = e ? strchr(f, e) : nullptr;
        if (p) { o += t[p - f]; i += 2; continue; }
        if (e == 'u') {
          unsigned v = 0;
          for (int k = 2; k < 6; k++) { char h = i + k < s.size() ? s[i + k] : 0; if (!isxdigit(h)) return fail("bad \\u"); v = v * 16 + (isdigit(h) ? h - '0' : tolower(h) - 'a' + 10); }
          if (v > 127) return fail("unexpected \\u");
          o += (char)v;
          i += 6;
          continue;
        }
        return fail("bad escape");
      }
      o += c;
      i++;
    }
  }
  bool val(J &j) {
    ws();
    if (i >= s.size()) return fail("value expected");
    char c = s[i];
    if (c == '"') { j.k = 's'; return str(j.s); }
    if (c == '[' || c == '{') {
      bool o = c == '{';
      j.k = o ? 'o' : 'a';
      i++;
      ws();
      if (i < s.size() && s[i] == (o ? '}' : ']')) { i++; return true; }
      for (;;) {
        if (o) {
          string k;
          ws();
          if (!str(k)) return false;
          if (j.get(k)) return fail("key twice");
          j.keys.push_back(k);
          ws();
          if (i >= s.size() || s[i] != ':') return fail("':' expected");
          i++;
        }
        J x;
        if (!val(x)) return false;
        j.a.push_back(x);
        ws();
        if (i < s.size() && s[i] == ',') { i++; continue; }
        if (i < s.size() && s[i] == (o ? '}' : ']')) { i++; return true; }
        return fail("',' or end of list expected");
      }
    }
    for (const char *w : {"true", "false", "null"}) if (!s.compare(i, strlen(w), w)) { j.k = w[0] == 'n' ? 'n' : 'b'; j.s = w; i += strlen(w); return true; }
    size_t b = i;
    if (i < s.size() && s[i] == '-') i++;
    if (i < s.size() && s[i] == '0') i++;
    else if (i < s.size() && isdigit(s[i])) while (i < s.size() && isdigit(s[i])) i++;
    else return fail("value expected");
    if (i < s.size() && s[i] == '.') { i++; if (i >= s.size() || !isdigit(s[i])) return fail("bad number"); while (i < s.size() && isdigit(s[i])) i++; }
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { i++; if (i < s.size() && strchr("+-", s[i])) i++; if (i >= s.size() || !isdigit(s[i])) return fail("bad number"); while (i < s.size() && isdigit(s[i])) i++; }
    if (i < s.size() && isalnum(s[i])) return fail("bad number");
    j.k = '#';
    j.s = s.substr(b, i - b);
    return true;
  }
};
// ---- the result in a form common to the formats. A symbol is marked by its kind: c: symbol, s: string, n: number.
struct NStep { string nr, rule, name, cl; vector<string> par; };
struct NAns { string ans; vector<NStep> st; };
struct Nf { int verdict = 0; string err; vector<NAns> an; };  // verdict 1 found, 2 not found
string show(const Term &t) { string o = t.name; if (t.args.size()) { o += "("; for (auto &a : t.args) o += show(a) + ","; o += ")"; } return o; }
string normal(Clause c) {
  std::map<string, string> m;
  string o;
  for (auto &l : c) { renvars(l.atom, m); o += (l.pos ? "+" : "-") + show(l.atom) + " "; }
  return o;
}
Term sym(const string &s) { return Term::F("c:" + s); }
struct TP {  // text and TPTP clauses
  const string &s;
  size_t i;
  bool tptp;
  TP(const string &t, size_t p, bool tp) : s(t), i(p), tptp(tp) {}
  void ws() { while (i < s.size() && strchr(" \n", s[i])) i++; }
  Term term() {
    ws();
    if (i >= s.size()) throw PErr{"term expected"};
    Term t;
    char c = s[i];
    if (c == '\'' || c == '"') {
      string o;
      for (i++; ; i++) {
        if (i >= s.size()) throw PErr{"unterminated quote"};
        if (s[i] == c) { i++; break; }
        if (s[i] == '\\') { i++; if (i >= s.size() || (s[i] != c && s[i] != '\\')) throw PErr{"bad escape"}; }
        o += s[i];
      }
      t.name = (c == '"' ? "s:" : "c:") + o;
    } else if (isdigit(c) || (c == '-' && i + 1 < s.size() && isdigit(s[i + 1]))) {
      size_t b = i++;
      while (i < s.size() && (isdigit(s[i]) || (s[i] == '.' && i + 1 < s.size() && isdigit(s[i + 1])) || s[i] == 'e' || (strchr("+-", s[i]) && s[i - 1] == 'e'))) i++;
      t.name = "n:" + s.substr(b, i - b);
    } else if (isalpha(c) || c == '$' || c == '_') {
      size_t b = i++;
      while (i < s.size() && (isalnum(s[i]) || strchr("_$", s[i]))) i++;
      t.name = s.substr(b, i - b);
      if (isupper(c)) t.var = true;
      else t.name = "c:" + t.name;
    } else if (strchr("=+*-/<>", c)) {
      t.name = string("c:") + c;
      i++;
    } else throw PErr{"term expected at " + s.substr(i, 30)};
    if (i < s.size() && s[i] == '(') {
      if (t.name[0] == 'n' || t.name[0] == 's') throw PErr{"arguments of " + t.name};
      if (t.var) throw PErr{"arguments of a variable"};
      i++;
      for (;;) {
        t.args.push_back(term());
        ws();
        if (i < s.size() && s[i] == ',') { i++; continue; }
        if (i < s.size() && s[i] == ')') { i++; break; }
        throw PErr{"',' or ')' expected at " + s.substr(i, 30)};
      }
    }
    ws();
    if (tptp && i < s.size() && (s[i] == '=' || (s[i] == '!' && s.compare(i, 2, "!=") == 0))) {
      bool n = s[i] == '!';
      i += n ? 2 : 1;
      Term r = term();
      Term e = Term::F(n ? "c:!=" : "c:=", {t, r});
      return e;
    }
    return t;
  }
  Clause clause() {
    ws();
    for (const char *f : {"false", "$false"}) if (!s.compare(i, strlen(f), f) && (i + strlen(f) >= s.size() || strchr(" .)\n", s[i + strlen(f)]))) { i += strlen(f); return {}; }
    Clause c;
    for (;;) {
      Lit l;
      ws();
      if (i < s.size() && (s[i] == '-' || s[i] == '~') ) { l.pos = false; i++; }
      l.atom = term();
      if (l.atom.name == "c:!=" && l.atom.args.size() == 2) { l.atom.name = "c:="; l.pos = !l.pos; }
      c.push_back(l);
      ws();
      if (i < s.size() && s[i] == '|') { i++; continue; }
      return c;
    }
  }
};
Term jterm(const J &j) {
  if (j.k == '#') return Term::F("n:" + j.s);
  if (j.k == 's') {
    if (!j.s.compare(0, 2, "?:")) return Term::V(j.s.substr(2));
    if (!j.s.compare(0, 2, "#:")) return Term::F("s:" + j.s.substr(2));
    return sym(j.s);
  }
  if (j.k != 'a' || j.a.size() < 2 || j.a[0].k != 's') throw PErr{"not a JSON term"};
  Term t = jterm(j.a[0]);
  if (t.var) throw PErr{"variable as function"};
  for (size_t i = 1; i < j.a.size(); i++) t.args.push_back(jterm(j.a[i]));
  return t;
}
Clause jclause(const J &j) {
  if (j.k == 'b' && j.s == "false") return {};
  if (j.k != 'a' || j.a.empty()) throw PErr{"not a JSON clause"};
  Clause c;
  for (auto &x : j.a) {
    if (x.k != 'a' || x.a.empty() || x.a[0].k != 's') throw PErr{"not a JSON literal"};
    Lit l;
    J y = x;
    if (y.a[0].s[0] == '-' ) { l.pos = false; y.a[0].s.erase(0, 1); }
    if (y.a.size() == 1) l.atom = sym(y.a[0].s); else l.atom = jterm(y);
    c.push_back(l);
  }
  return c;
}
// extra: the roles are printed too
Nf from_json(const string &out, bool extra = false) {
  Nf r;
  JP p(out);
  J j;
  if (!p.val(j)) { r.err = "not valid JSON: " + p.err; return r; }
  p.ws();
  if (p.i != out.size()) { r.err = "more after the JSON value: " + out.substr(p.i, 60); return r; }
  auto v = j.get("result");
  if (!v || v->k != 's') { if (j.get("error")) r.err = "error: " + j.get("error")->s; else r.err = "no result"; return r; }
  r.verdict = v->s == "proof found" ? 1 : v->s == "proof not found" ? 2 : 0;
  auto as = j.get("answers");
  if (!as) return r;
  try {
    for (auto &x : as->a) {
      NAns a;
      if (x.get("answer")) a.ans = normal(jclause(*x.get("answer")));
      auto pr = x.get("proof");
      if (!pr || pr->k != 'a') throw PErr{"no proof"};
      for (auto &y : pr->a) {
        if (y.k != 'a' || y.a.size() != 3 || y.a[0].k != '#' || y.a[1].k != 'a' || y.a[1].a.empty()) throw PErr{"not a proof step"};
        NStep st;
        st.nr = y.a[0].s;
        st.rule = y.a[1].a[0].s;
        for (size_t i = 1; i < y.a[1].a.size(); i++) {
          auto &z = y.a[1].a[i];
          if (z.k == '#') st.par.push_back(z.s);
          else if (z.k == 'a' && z.a.size() && z.a[0].k == '#') st.par.push_back(z.a[0].s);
          else if (z.k == 's' && st.rule == "in" && st.name.empty() && !(extra && i + 1 == y.a[1].a.size())) st.name = z.s;
        }
        st.cl = normal(jclause(y.a[2]));
        a.st.push_back(st);
      }
      r.an.push_back(a);
    }
  } catch (PErr &e) { r.err = e.msg; } catch (std::exception &e) { r.err = string("unreadable: ") + e.what(); }
  return r;
}
// names: the names of the input statements that may occur (to find where a name ends)
Nf from_text(const string &out, const vector<string> &names) {
  Nf r;
  size_t p = out.find("result: proof ");
  if (p == string::npos) { r.err = "no result"; return r; }
  if (out.find("result: proof ", p + 1) != string::npos) { r.err = "two results"; return r; }
  r.verdict = !out.compare(p, 19, "result: proof found") ? 1 : 2;
  string pend;
  try {
    while (p < out.size()) {
      if (!out.compare(p, 8, "answer: ")) {
        TP t(out, p + 8, false);
        pend = normal(t.clause());
        if (t.i >= out.size() || out[t.i] != '.') throw PErr{"'.' expected after the answer"};
        p = t.i;
      } else if (!out.compare(p, 6, "proof:")) {
        NAns a;
        a.ans = pend;
        pend.clear();
        p = out.find('\n', p);
        while (p != string::npos && p + 2 < out.size() && out[p + 1] == ' ' && isdigit(out[p + 2])) {
          NStep st;
          size_t q = p + 2;
          while (isdigit(out[q])) st.nr += out[q++];
          if (out.compare(q, 3, ": [")) throw PErr{"step expected at " + out.substr(p, 30)};
          q += 3;
          size_t e = q;
          while (e < out.size() && !strchr(",]", out[e])) e++;
          st.rule = out.substr(q, e - q);
          q = e;
          if (st.rule == "in" && out[q] == ',') {
            // the longest name that fits
            for (auto &n : names) if (n.size() > st.name.size() && !out.compare(q + 1, n.size(), n) && (!out.compare(q + 1 + n.size(), 2, "] ") || !out.compare(q + 1 + n.size(), 2, ", "))) st.name = n;
            if (st.name.size()) q += 1 + st.name.size();
            e = out.find("] ", q);
          } else {
            e = out.find(']', q);
            if (e == string::npos) throw PErr{"']' expected"};
            for (size_t i = q; i < e;) {
              i++;
              while (i < e && out[i] == ' ') i++;
              if (i < e && isdigit(out[i])) { string x; while (isdigit(out[i])) x += out[i++]; st.par.push_back(x); }
              while (i < e && out[i] != ',') i++;
            }
          }
          if (e == string::npos || out[e + 1] != ' ') throw PErr{"']' expected"};
          TP t(out, e + 2, false);
          Clause c = t.clause();
          st.cl = normal(c);
          if (c.size() && (t.i >= out.size() || out[t.i++] != '.')) throw PErr{"'.' expected after " + out.substr(e + 2, 60)};
          if (t.i < out.size() && out[t.i] != '\n') throw PErr{"text after the clause " + out.substr(e + 2, 60)};
          a.st.push_back(st);
          p = t.i;
        }
        r.an.push_back(a);
        if (p == string::npos) break;
        continue;
      }
      p = out.find('\n', p);
      if (p == string::npos) break;
      p++;
    }
  } catch (PErr &e) { r.err = e.msg; } catch (std::exception &e) { r.err = string("unreadable: ") + e.what(); }
  return r;
}
struct Lex { string n; };
Nf from_tptp(const string &out) {
  Nf r;
  bool thm = out.find("% SZS status Theorem") != string::npos || out.find("% SZS status Unsatisfiable") != string::npos;
  bool f = out.find("result: proof found") != string::npos, nf = out.find("proof not found") != string::npos || out.find("% SZS status Timeout") != string::npos;
  if (thm != f || f == nf) { r.err = "no or contradictory result"; return r; }
  r.verdict = f ? 1 : 2;
  string pend;
  bool in = false;
  size_t p = out.find("result: proof found");
  auto q = [&](size_t &i) {  // a quoted or plain name
    TP t(out, i, true);
    if (i >= out.size() || out[i] != '\'') throw PErr{"name expected at " + out.substr(i, 30)};
    size_t b = i;
    for (i++; i < out.size() && out[i] != '\''; i++) if (out[i] == '\\') i++;
    if (i >= out.size()) throw PErr{"unterminated name"};
    i++;
    string one = out.substr(b, i - b);
    TP u(one, 0, true);
    return u.term().name.substr(2);
  };
  auto want = [&](size_t &i, const string &w) { if (out.compare(i, w.size(), w)) throw PErr{"'" + w + "' expected at " + out.substr(i, 60)}; i += w.size(); };
  try {
    std::set<string> fofs, cited;
    while (p != string::npos && p < out.size()) {
      if (!out.compare(p, 9, "answer: (")) {
        TP t(out, p + 9, true);
        pend = normal(t.clause());
        p = t.i;
        want(p, ")\n");
        continue;
      }
      if (!out.compare(p, 18, "% SZS output start")) {
        if (in) throw PErr{"proof started in a proof"};
        in = true;
        NAns a;
        a.ans = pend;
        pend.clear();
        r.an.push_back(a);
        fofs.clear();
        cited.clear();
      } else if (!out.compare(p, 16, "% SZS output end")) {
        if (!in) throw PErr{"end of no proof"};
        in = false;
        for (auto &n : cited) if (!fofs.count(n) ) throw PErr{"the proof cites '" + n + "', which it does not contain"};
      } else if (!out.compare(p, 5, "cnf('")) {
        if (!in) throw PErr{"step outside the proof"};
        NStep st;
        size_t i = p + 4;
        st.nr = q(i);
        want(i, ", plain, (");
        TP t(out, i, true);
        st.cl = normal(t.clause());
        i = t.i;
        want(i, ")");
        if (!out.compare(i, 1, ",")) {
          want(i, ",\n  inference(");
          size_t e = i;
          while (e < out.size() && isalnum(out[e] == '_' ? 'a' : out[e])) e++;
          st.rule = out.substr(i, e - i);
          i = e;
          want(i, ",[");
          if (out[i] != ']') { if (!out.compare(i, 13, "then_simplify")) i += 13; }
          want(i, "],[");
          for (;;) { st.par.push_back(q(i)); if (out[i] == ',') { i++; continue; } break; }
          want(i, "])).");
          if (st.rule == "cnf_transformation") { st.name = st.par[0]; st.par.clear(); st.rule = "in"; }
        } else { st.rule = "in"; want(i, ")."); }
        want(i, "\n");
        r.an.back().st.push_back(st);
        p = i;
        continue;
      } else if (!out.compare(p, 5, "fof('")) {
        if (!in) throw PErr{"formula outside the proof"};
        size_t i = p + 4;
        string n = q(i);
        if (!fofs.insert(n).second) throw PErr{"two formulas of the same name"};
        want(i, ", ");
        // balanced up to the annotation
        int d = 0;
        for (; i < out.size(); i++) {
          char c = out[i];
          if (c == '\'' || c == '"') { for (i++; i < out.size() && out[i] != c; i++) if (out[i] == '\\') i++; continue; }
          if (strchr("([", c)) d++;
          if (strchr(")]", c) && --d < 0) break;
          if (!d && !out.compare(i, 4, ",\n  ")) break;
        }
        if (!out.compare(i, 15, ",\n  inference(n")) { i = out.find(",[],[", i); i += 5; cited.insert(q(i)); want(i, "]))."); }
        else want(i, ",\n  input).");
        while (i < out.size() && out[i] == ' ') i++;
        want(i, "\n");
        p = i;
        continue;
      } else if (in && out[p] != '\n') throw PErr{"neither a formula nor a comment: " + out.substr(p, 60)};
      p = out.find('\n', p);
      if (p == string::npos) break;
      p++;
    }
    if (in) throw PErr{"no end of the proof"};
  } catch (PErr &e) { r.err = e.msg; } catch (std::exception &e) { r.err = string("unreadable: ") + e.what(); }
  return r;
}
// the rule names TPTP proofs use for those of the text
string tptp_rule(const string &r) {
  static const std::map<string, string> m = {{"in", "in"}, {"cnf", "in"}, {"mp", "resolution"}, {"simp", "simplify"}, {"=", "paramodulation"}, {"merge", "factorization"}, {"r=", "reflexivity"}, {"prop", "propagate"}, {"propinst", "propinst"}, {"instgen", "instgen"}, {"inst", "instgen"}, {"arithinst", "arithinst"}, {"extprop", "extprop"}};
  auto it = m.find(r);
  return it == m.end() ? r : it->second;
}
// "" when b says the same as the text a
string differ(const Nf &a, const Nf &b, bool tptp, bool proofs, bool names) {
  if (b.err.size()) return b.err;
  if (a.verdict != b.verdict) return "another verdict";
  if (!proofs) return b.an.size() ? "a proof is printed at a level without proofs" : "";
  if (a.an.size() != b.an.size()) return std::to_string(b.an.size()) + " proofs instead of " + std::to_string(a.an.size());
  for (size_t i = 0; i < a.an.size(); i++) {
    auto &x = a.an[i], &y = b.an[i];
    if (x.ans != y.ans) return "another answer: " + y.ans + " instead of " + x.ans;
    if (x.st.size() != y.st.size()) return "a proof of another length";
    for (size_t k = 0; k < x.st.size(); k++) {
      auto &s = x.st[k], &t = y.st[k];
      string at = " at step " + s.nr;
      if (s.nr != t.nr) return "another step number" + at;
      if (s.cl != t.cl) return "another clause" + at + ": " + t.cl + " instead of " + s.cl;
      if ((tptp ? tptp_rule(s.rule) : s.rule) != t.rule) return "another rule" + at + ": " + t.rule + " instead of " + s.rule;
      if (s.par != t.par) return "other parents" + at;
      if (names) {
        string n = t.name;
        if (tptp && n.size() > 4 && n.compare(n.size() - 4, 4, "_$sk") == 0) n.resize(n.size() - 4);
        if (s.name != n) return "another name of the input" + at + ": '" + n + "' instead of '" + s.name + "'";
      }
    }
  }
  return "";
}
struct In { vector<string> src; string strat; string id; vector<string> names; int mx = 1; };
// fewer answers than asked for: the text and TPTP results say so in a last line
string clip(const In &x, const string &out) {
  size_t n = 0, l = out.rfind('\n', out.size() - 2);
  for (size_t p = out.find("\nanswer: "); p != string::npos; p = out.find("\nanswer: ", p + 1)) n++;
  if (x.mx < 2 || out.find("result: proof found") == string::npos || n >= (size_t)x.mx || l == string::npos) return out;
  string t = out.substr(l + 1);
  return t == "result: proof not found.\n" || !t.compare(0, 20, "% SZS status Timeout") ? out.substr(0, l + 1) : out;
}
const int ALLL[] = {0, 1, 2, 5, 8, 9, 10, 11};
RunResult run_fmt(Ctx &c, const In &x, const string &fmt, int level, vector<string> &a) {
  a = {"-mbsize", "10", "-parallel", "0"};
  if (level >= 0) { a.push_back("-print"); a.push_back(std::to_string(level)); }
  if (fmt.size()) a.push_back(fmt);
  if (x.strat.size()) { a.push_back("-strategytext"); a.push_back(x.strat); }
  else { a.push_back("-seconds"); a.push_back("1"); }
  a.insert(a.end(), x.src.begin(), x.src.end());
  c.add("runs_of_gkc");
  return run_case(a);
}
// all formats at the given levels; ref gets the text result
bool same(Ctx &c, const In &x, const vector<int> &levels, Nf &ref, bool names = false) {
  vector<string> a;
  auto r = run_fmt(c, x, "", 10, a);
  c.add("evaluations");
  if (abnormal(c, r, "C26", a, x.id)) return false;
  ref = from_text(clip(x, r.out), x.names);
  if (ref.err.size()) { violation(c, "C26:text:" + x.id, "the printed result cannot be read (" + ref.err + "): " + x.id, a, r.out); return false; }
  if (ref.verdict == 1) { c.add("distinct_nontrivial"); for (auto &y : ref.an) c.add("proof_steps", y.st.size()); c.add("proofs", ref.an.size()); }
  for (int l : levels) for (const char *f : {"", "-json", "-tptp"}) {
    if (l == 10 && !*f) continue;
    if ((l > 11 || l < 0) && *f == '-' && f[1] == 'j') continue;  // the trace of these levels is no JSON
    auto s = run_fmt(c, x, f, l, a);
    if (abnormal(c, s, "C26", a, x.id)) return false;
    bool t = f[0] && f[1] == 't', pr = l < 0 || l >= 10;
    Nf y = !*f ? from_text(clip(x, s.out), x.names) : t ? from_tptp(clip(x, s.out)) : from_json(s.out, l > 10);
    string e = ref.verdict == 1 || *f == 0 || !t ? differ(ref, y, t, pr, names) : y.err.size() ? y.err : y.verdict != 2 ? "another verdict" : "";
    if (e.empty() && l >= 0 && l < 10 && s.out.find("cnf(") != string::npos) e = "a proof is printed at a level without proofs";
    if (!e.empty()) { violation(c, string("C26:") + (*f ? f : "text") + ":" + std::to_string(l) + ":" + x.id, e + " (format " + (*f ? f + 1 : "text") + ", print level " + std::to_string(l) + ", compared with the text at level 10): " + x.id, a, s.out + "\n--- text:\n" + r.out); return false; }
  }
  return true;
}
string tptp(const Term &t) { string o = t.name; if (t.args.size()) { o += "("; for (size_t i = 0; i < t.args.size(); i++) o += (i ? "," : "") + tptp(t.args[i]); o += ")"; } return o; }
string tptp(const Clause &c) {
  string o;
  for (auto &l : c) o += (o.empty() ? "" : " | ") + (l.atom.name == "=" ? tptp(l.atom.args[0]) + (l.pos ? " = " : " != ") + tptp(l.atom.args[1]) : (l.pos ? "" : "~") + tptp(l.atom));
  return o;
}
const char *SCH[] = {"a", "A", "1", "'", "\"", "\\", "?", ":", "#", "~", "-", "$", "=", " ", ".", "%", "/", "*", "[", "(", ",", "@", "_", "\xc3\xa4", "\n", "!", "|", "{", "\t"};
string escq(const string &s, char q) { string r(1, q); for (char ch : s) { if (ch == '\\' || ch == q) r += '\\'; r += ch; } return r + q; }
string jin(const string &s) { string r = "\""; for (unsigned char ch : s) { if (ch < 32) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += ch == '\n' ? "\\n" : ch == '\t' ? "\\t" : b; continue; } if (ch == '\\' || ch == '"') r += '\\'; r += ch; } return r + "\""; }
bool injson(const string &s) {
  if (s[0] == '~' || s[0] == '-' || !s.compare(0, 2, "?:") || !s.compare(0, 2, "#:")) return false;
  for (const char *o : {"forall", "exists", "=", "@", "|", "!=", "/", "*", "&", "+", "<"}) if (s == o) return false;
  return true;
}
enum { KCONST, KFUN, KPRED, KSTR, KNAME };
const char *KN[] = {"constant", "function", "predicate", "string", "statement name"};
bool nojson(int k, const string &x) { return k != KSTR && k != KNAME && (!x.compare(0, 2, "?:") || !x.compare(0, 2, "#:") || (k == KPRED && (x[0] == '-' || x[0] == '~'))); }

void c26(Driver &d) {
  bool q = d.quick();
  // 1. problems over the families of the search checks
  struct P { string id, name; In in; vector<int> lv; };
  vector<P> ps;
  vector<int> few = {-1, 1, 10, 11}, all(ALLL, ALLL + sizeof ALLL / sizeof *ALLL);
  all.push_back(-1);
  all.push_back(12); all.push_back(15); all.push_back(20);
  vector<Strat> st;
  { std::set<string> want = {"negative_pref", "hyper", "unit", "double", "query_focus", "posunitpara", "knuthbendix_pref", "negative_pref \"query_preference\":1"};
    for (auto &s : strategies()) if (!q || want.count(s.name)) st.push_back(s); }
  {
    vector<Space> sps;
    sps.push_back(sp_prop(2, 2, {1, 2, 3, 4}));
    sps.push_back(sp_monadic(false, {1, 2, 3}));
    sps.push_back(sp_rel(2, {1, 2, 3}));
    sps.push_back(sp_eq(false, {1, 2, 3}));
    sps.push_back(sp_long({1, 2}));
    sps.push_back(sp_alg(2));
    vector<size_t> k = {4, 2, 2, 2, 2, 8};
    for (size_t i = 0; i < sps.size(); i++) {
      auto pr = contradictory(d, sps[i], k[i], true);
      for (size_t n = 0; n < pr.size(); n++) {
        auto cs = sps[i].clauses(pr[n]);
        const Strat &s = st[n % st.size()];
        string tx = str(cs), tp, fo;
        for (size_t j = 0; j < cs.size(); j++) {
          tp += "cnf(n" + std::to_string(j) + "," + (j + 1 < cs.size() ? "axiom" : "negated_conjecture") + ",(" + tptp(cs[j]) + ")). ";
          if (!cs[j].empty()) fo += "fof(n" + std::to_string(j) + ",axiom,(" + [&] { std::set<string> vs; for (auto &l : cs[j]) l.atom.vars(vs); string v; for (auto &y : vs) v += (v.empty() ? "" : ",") + y; return v.empty() ? string() : "![" + v + "]:"; }() + "(" + tptp(cs[j]) + "))). ";
        }
        vector<string> nm;
        for (size_t j = 0; j < cs.size(); j++) nm.push_back("n" + std::to_string(j));
        int w = n % 3;
        In in;
        in.src = {"-text", w == 0 ? tx : w == 1 ? tp : fo};
        in.strat = s.text;
        in.names = w ? nm : vector<string>();
        in.id = (w == 0 ? tx : w == 1 ? tp : fo) + " (" + s.name + ")";
        ps.push_back({"", sps[i].name, in, few});
        if (n < 40) {  // all ways to write it, all strategies, all levels
          for (int v = 0; v < 3; v++) for (auto &z : st) {
            In y;
            y.src = {"-text", v == 0 ? tx : v == 1 ? tp : fo};
            y.strat = z.text;
            y.names = v ? nm : vector<string>();
            y.id = y.src[1] + " (" + z.name + ")";
            ps.push_back({"", sps[i].name, y, n < 4 ? all : few});
          }
        }
      }
    }
  }
  // 2. answers, values, arithmetic, conjectures
  {
    vector<string> val = {"a", "0", "-7", "2.5", "-0.125", "\"s t\"", "\"\"", "'A b'", "f(a,1)", "[]", "[a]", "[[1],[a,[]]]", "g(X)", "f(X,Y)", "[X,Y,X]", "'it''s'", "9223372036854775807", "123456789012.5", "\"q\\\"\\\\\"", "'\\\\'", "$sum(X,1)", "f(g(X),[X|Y])"};
    for (auto &v : val) if (v.find("''") != string::npos || v.find("|") != string::npos) v = "f(a,a)";
    vector<string> qs;
    for (auto &x : val) for (auto &y : val) qs.push_back("p(" + x + "," + y + "). -p(X,Y) | $ans(X,Y).");
    for (auto &x : val) for (auto &y : val) qs.push_back("p(" + x + "). p(" + y + "). -p(X) | r(X). -r(X) | $ans(X).");
    for (auto &x : val) qs.push_back("p(" + x + ") | p(b). -p(X) | $ans(X).");
    for (auto &x : val) for (auto &y : val) qs.push_back("f1(" + x + ") = h(" + x + "). p(f1(" + y + ")). -p(h(X)) | -p(f1(" + y + ")).");
    for (auto t : {"fof(a1,axiom,p(a) & ! [X] : (p(X) => q(X))). fof(c1,conjecture,? [Y] : q(Y)).", "fof(a1,axiom,! [X] : ? [Y] : r(X,Y)). fof(c1,conjecture,? [Y] : r(a,Y)).", "fof(a1,axiom,p <=> q). fof(a2,axiom,q). fof(c1,conjecture,p & (p | r)).",
                   "fof(a1,axiom,(p & q) | (r & s) | (t & u)). fof(a2,axiom,~(p | r)). fof(c1,conjecture,t & u).", "fof(a1,axiom,! [X] : (~ ? [Y] : r(X,Y))). fof(c1,conjecture,~r(a,b)).", "cnf(a1,axiom,p(1)). fof(c1,conjecture,p($sum(0,1))).",
                   "fof(a1,axiom,! [X] : ($less(X,3) | q)). fof(a2,axiom,~q). fof(c1,conjecture,$false).", "fof(c1,conjecture,p | ~p).", "fof(c1,conjecture,$true).", "fof(a1,axiom,$false).", "fof(a1,axiom,a=b). fof(a2,axiom,f(a)=c). fof(c1,conjecture,f(b)=c).",
                   "fof(a1,axiom,![X,Y]:(f(X,Y)=f(Y,X))). fof(a2,axiom,![X]:f(X,e)=X). fof(c1,conjecture,f(e,a)=a).", "fof(a1,axiom,p(a)).", "fof(a1,axiom,![X]:(p(X) <=> ?[Y]:(r(X,Y) & ~q(Y)))). fof(a2,axiom,p(a)). fof(a3,axiom,![X]:q(X)). fof(c,conjecture,s)."}) qs.push_back(t);
    // the same with several answers wanted
    for (auto &t : qs) for (int mx : {1, 2, 3}) {
      if (mx > 1 && t.find("$ans") == string::npos) continue;
      for (const char *s : {"unit", "negative_pref", "query_focus"}) {
        if (mx > 1 && *s == 'q') continue;
        In in;
        in.src = {"-text", t};
        in.strat = string("{\"strategy\":[\"") + s + "\"],\"query_preference\":0,\"max_seconds\":1,\"max_answers\":" + std::to_string(mx) + "}";
        in.mx = mx;
        in.id = t + " (" + s + ", " + std::to_string(mx) + ")";
        for (auto n : {"a1", "a2", "a3", "c1", "c", "frm_1"}) in.names.push_back(n);
        ps.push_back({"", "values", in, *s == 'u' && mx == 1 && t.size() % 4 == 0 ? all : few});
      }
    }
  }
  double t0 = now_s();
  d.pfor(ps.size(), [&](u64 i, Ctx &c) { Nf r; same(c, ps[i].in, ps[i].lv, r, true); c.add("problems_" + ps[i].name); }, 1);
  fprintf(stderr, "problems %.1f s\n", now_s() - t0);
  t0 = now_s();
  // 3. how symbols, strings and names of statements are spelled
  vector<string> names;
  for (auto x : SCH) names.push_back(x);
  for (auto x : SCH) for (auto y : SCH) names.push_back(string(x) + y);
  for (auto x : {"aA1", "a_1", "A_1", "$true", "$false", "true", "false", "null", "a b c", "http://a.b/c#d", "''", "'\\''", "\\\\'", "0", "10", "1.5", "-1", "1e5", "in", "axiom", "] x", ", axiom", "x_$sk", "\x01", "\x1f\x7f"}) names.push_back(x);
  for (int l : {63, 64, 65, 79, 80, 255, 256, 899, 900, 901, 999, 1000, 1001, 1999, 2000, 2001, 5000}) names.push_back(string(l, 'b')), names.push_back(string(l, '\'')), names.push_back(string(l - 1, 'b') + "\\"), names.push_back(string(l, '"'));
  if (!q) for (auto x : SCH) for (auto y : SCH) for (auto z : SCH) names.push_back(string(x) + y + z);
  { std::set<string> seen; vector<string> u; for (auto &x : names) if (seen.insert(x).second) u.push_back(x); names = u; }
  struct Job { int kind; bool json; vector<string> v; };
  vector<Job> jobs;
  for (int k = KCONST; k <= KNAME; k++) for (int js = 0; js < 2; js++) {
    vector<string> v;
    for (auto &x : names) {
      if (js && k != KSTR && k != KNAME && (!injson(x) || x == "true" || x == "false" || x == "null")) continue;
      if (k == KPRED && (x == "$true" || x == "$false" || x == "=" || x == "!=" || x == "include" || x == "~")) continue;
      if (k == KNAME && x.find_first_of("\x01\x1f") != string::npos) continue;
      v.push_back(x);
      bool own = nojson(k, x);  // no spelling in JSON
      if (own && v.size() > 1) { v.pop_back(); jobs.push_back({k, (bool)js, v}); v = {x}; }
      if (v.size() == 16 || x.size() > 60 || own) { jobs.push_back({k, (bool)js, v}); v.clear(); }
    }
    if (v.size()) jobs.push_back({k, (bool)js, v});
  }
  std::function<bool(Ctx &, const Job &)> one = [&](Ctx &c, const Job &j) {
    In in;
    string src, goal, gj;
    std::multiset<string> want;
    Clause gc;
    for (size_t i = 0; i < j.v.size(); i++) {
      string n = std::to_string(i);
      const string &x = j.v[i];
      string nm = j.kind == KNAME ? x : "n" + n, f, fj;
      Term t, g;
      switch (j.kind) {
        case KCONST: t = Term::F("c:p" + n, {sym(x)}); f = "p" + n + "(" + escq(x, '\'') + ")"; fj = "[\"p" + n + "\"," + jin(x) + "]"; break;
        case KFUN: t = Term::F("c:p" + n, {Term::F("c:" + x, {sym("a")})}); f = "p" + n + "(" + escq(x, '\'') + "(a))"; fj = "[\"p" + n + "\",[" + jin(x) + ",\"a\"]]"; break;
        case KPRED: t = Term::F("c:" + x, {sym("a" + n)}); f = escq(x, '\'') + "(a" + n + ")"; fj = "[" + jin(x) + ",\"a" + n + "\"]"; break;
        case KSTR: t = Term::F("c:p" + n, {Term::F("s:" + x)}); f = "p" + n + "(" + escq(x, '"') + ")"; fj = "[\"p" + n + "\"," + jin("#:" + x) + "]"; break;
        default: t = Term::F("c:p" + n, {sym("a")}); f = "p" + n + "(a)"; fj = "[\"p" + n + "\",\"a\"]";
      }
      in.names.push_back(nm);
      want.insert(nm + " " + normal({Lit{true, t}}));
      src += j.json ? string(i ? ",\n" : "[\n") + "{\"@name\":" + jin(nm) + ",\"@logic\":" + fj + "}" : "fof(" + escq(nm, '\'') + ",axiom," + f + ").\n";
      string v = "X" + n;
      g = j.kind == KPRED ? t : Term::F("c:p" + n, {Term::V(v)});
      gc.push_back(Lit{false, g});
      goal += (i ? " | " : "") + ("~" + (j.kind == KPRED ? f : "p" + n + "(" + v + ")"));
      if (j.kind == KPRED) gj += string(i ? "," : "") + "[\"not\"," + fj + "]";
      else gj += string(i ? "," : "") + "[\"-p" + n + "\",\"?:" + v + "\"]";
    }
    src += j.json ? ",\n{\"@name\":\"goal\",\"@logic\":[\"or\"," + gj + "]}]" : "cnf(goal,negated_conjecture,(" + goal + ")).\n";
    in.names.push_back("goal");
    in.src = {j.json ? "-jstext" : "-text", src};
    in.strat = "{\"strategy\":[\"unit\"],\"query_preference\":0,\"max_seconds\":1}";
    in.id = string(KN[j.kind]) + (j.json ? "s in JSON:" : "s:");
    for (auto &x : j.v) in.id += " " + jstr(x);
    if (in.id.size() > 300) in.id.resize(300);
    vector<string> a;
    auto lit = [](const Clause &c) { std::set<string> s; for (auto &l : c) s.insert(normal({l})); return s; };
    (void)lit;
    for (const char *f : {"", "-json", "-tptp"}) {
      auto r = run_fmt(c, in, f, 10, a);
      c.add("evaluations", j.v.size());
      string e;
      if (r.sig || r.timeout) e = "gkc does not end normally";
      else {
        Nf y = !*f ? from_text(r.out, in.names) : f[1] == 't' ? from_tptp(r.out) : from_json(r.out);
        if (!j.json && f[0] && f[1] == 'j' && j.v.size() == 1 && nojson(j.kind, j.v[0])) { if (!y.err.compare(0, 9, "not valid")) e = y.err; }
        else if (y.err.size()) e = y.err;
        else if (y.verdict != 1 || y.an.size() != 1) e = "the proof is not found";
        else {
          auto w = want;
          for (auto &s : y.an[0].st) if (s.rule == "in") {
            string n = s.name;
            if (f[0] && f[1] == 't' && n.size() > 4 && n.compare(n.size() - 4, 4, "_$sk") == 0 && !std::count(in.names.begin(), in.names.end(), n)) n.resize(n.size() - 4);
            if (n == "goal") continue;
            auto it = w.find(n + " " + s.cl);
            if (it == w.end()) { e = "an input that was not given: " + n + ": " + s.cl; break; }
            w.erase(it);
          }
          if (e.empty() && w.size()) e = "an input is missing: " + *w.begin();
        }
      }
      if (e.empty()) { c.add("distinct_nontrivial", j.v.size()); continue; }
      if (j.v.size() > 1) return false;
      violation(c, string("C26:spelling:") + KN[j.kind] + ":" + f + (j.json ? ":j:" : ":t:") + j.v[0], string("the ") + KN[j.kind] + " " + jstr(j.v[0]).substr(0, 200) + " is printed wrongly in the format " + (*f ? f + 1 : "text") + ": " + e, a, r.out);
    }
    return true;
  };
  d.pfor(jobs.size(), [&](u64 i, Ctx &c) {
    std::function<void(const Job &)> go = [&](const Job &j) {
      if (one(c, j)) return;
      size_t m = j.v.size() / 2;
      go({j.kind, j.json, vector<string>(j.v.begin(), j.v.begin() + m)});
      go({j.kind, j.json, vector<string>(j.v.begin() + m, j.v.end())});
    };
    go(jobs[i]);
    c.add(string("spellings_") + KN[jobs[i].kind], jobs[i].v.size());
  }, 1);
  fprintf(stderr, "spellings %.1f s\n", now_s() - t0);
  // 4. syntax errors: every message about a wrong input is a JSON object too
  t0 = now_s();
  vector<string> bad;
  for (auto &x : names) if (x.size() < 3 || x.size() > 60) { bad.push_back("p(a). p(b" + x + "\nq. "); bad.push_back("fof(a,axiom,p('x'" + x + ")).\nfof("); }
  for (auto &x : names) { bad.push_back("[{\"@name\":" + jin(x) + ",\"@logic\":[\"forall\",\"x\"]}]"); bad.push_back("[[\"p\"," + jin(x) + "],[\"=\"," + jin(x) + "]]"); }
  d.pfor(bad.size(), [&](u64 i, Ctx &c) {
    In in;
    bool js = bad[i][0] == '[';
    in.src = {js ? "-jstext" : "-text", bad[i]};
    in.strat = "{\"strategy\":[\"unit\"],\"max_seconds\":1}";
    in.id = bad[i].substr(0, 200);
    vector<string> a;
    auto r = run_fmt(c, in, "-json", 10, a);
    if (abnormal(c, r, "C26", a, in.id)) return;
    c.add("evaluations");
    if (r.out.find("{\"error\"") == string::npos) return;
    c.add("error_messages");
    c.add("distinct_nontrivial");
    Nf y = from_json(r.out);
    if (y.err.compare(0, 7, "error: ")) violation(c, "C26:error:" + bad[i], "the error message is no JSON object: " + y.err, a, r.out);
  }, 16);
  fprintf(stderr, "errors %.1f s\n", now_s() - t0);
}
CheckReg r26("C26", c26);
}
