#include "model.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <functional>

void Model::finish() {
  q.assign(A, Vec(S, 0.0));
  for (int a = 0; a < A; a++)
    for (int s = 0; s < S; s++) {
      double t = 0;
      for (int j = 0; j < S; j++) {
        double u = 0;
        for (int o = 0; o < O; o++) u += Z[a][j][o] * R[a][s][j][o];
        t += T[a][s][j] * u;
      }
      q[a][s] = cost ? -t : t;
    } // costs are reported as negative values
}
static Vec prob_row(Rng &r, int n, bool det, bool sparse) {
  Vec v(n, 0.0);
  if (det) {
    v[r.below(n)] = 1.0;
    return v;
  }
  int left = 20;
  std::vector<int> k(n, 0);
  if (sparse && n > 1) {
    int keep = 1 + (int)r.below(n - 1);
    std::vector<int> idx;
    while ((int)idx.size() < keep) {
      int i = (int)r.below(n);
      if (std::find(idx.begin(), idx.end(), i) == idx.end()) idx.push_back(i);
    }
    while (left) {
      k[idx[r.below(idx.size())]]++;
      left--;
    }
  } else
    while (left) {
      int c = 1 + (int)r.below(left < 6 ? left : 6);
      k[r.below(n)] += c;
      left -= c;
    }
  for (int i = 0; i < n; i++) {
    char b[16];
    snprintf(b, sizeof b, "%.2f", k[i] / 20.0);
    v[i] = strtod(b, nullptr);
  }
  return v;
}
static double dec(double x) {
  char b[32];
  snprintf(b, sizeof b, "%.2f", x);
  double v = strtod(b, nullptr);
  return v == 0 ? 0 : v;
}
Model gen_model(const ModelSpec &sp) {
  Rng r(mix2(sp.seed, 0xA11CE));
  Model m;
  m.S = sp.S;
  m.A = sp.A;
  m.O = sp.O;
  m.cost = sp.kind & MK_COST;
  static const double D[] = {0.95, 0.9, 0.85, 0.8, 0.75}, L[] = {0.5, 0.6, 0.4, 0.3}, MD[] = {0.7, 0.75, 0.8, 0.6};
  m.disc = (sp.kind & MK_LOWDISC) ? L[r.below(4)] : (sp.kind & MK_MIDDISC) ? MD[r.below(4)] : D[r.below(5)];
  m.T.resize(m.A);
  m.Z.resize(m.A);
  m.R.resize(m.A);
  for (int a = 0; a < m.A; a++) {
    bool ident = r.chance(1, 5);
    for (int s = 0; s < m.S; s++) {
      Vec v;
      if (ident) {
        v.assign(m.S, 0.0);
        v[s] = 1;
      } else v = prob_row(r, m.S, sp.kind & MK_DETT, sp.kind & MK_SPARSE);
      m.T[a].push_back(v);
    }
    bool uninf = (sp.kind & MK_UNINF) && r.chance(1, 2);
    Vec u = prob_row(r, m.O, false, false);
    for (int s = 0; s < m.S; s++) {
      Vec v = uninf ? u : prob_row(r, m.O, sp.kind & MK_DETZ, sp.kind & MK_SPARSE);
      if ((sp.kind & MK_IMPOSS) && m.O > 1) {
        int dead = a % m.O;
        double x = v[dead];
        if (x > 0) {
          int t = (dead + 1) % m.O;
          v[t] = dec(v[t] + x);
          v[dead] = 0;
        }
      }
      m.Z[a].push_back(v);
    }
  }
  m.rkind = (int)r.below(4);
  if (m.S > 8 && (m.rkind != 1 || m.S > 16)) m.rkind = 0; // the text would be megabytes
  auto rv = [&]() {
    double x;
    double sc = (sp.kind & MK_SMALLR) ? 1 : 10;
    x = dec((r.unit() * 2 - 1) * sc);
    if (r.chance(1, 6)) x = 0;
    if (sp.kind & MK_NEG) x = -std::fabs(x) - 0.25;
    if (sp.kind & MK_NONNEG) x = std::fabs(x);
    return dec(x);
  };
  for (int a = 0; a < m.A; a++) {
    m.R[a].assign(m.S, std::vector<Vec>(m.S, Vec(m.O, 0.0)));
    for (int s = 0; s < m.S; s++) {
      double ras = rv();
      for (int j = 0; j < m.S; j++) {
        double rasj = rv();
        for (int o = 0; o < m.O; o++) {
          double full = rv();
          double x = m.rkind == 0 ? ras : m.rkind == 1 ? rasj : m.rkind == 2 ? full : (r.chance(1, 3) ? full : 0.0);
          m.R[a][s][j][o] = x;
        }
      }
    }
  }
  if (sp.kind & MK_START) {
    m.start = prob_row(r, m.S, false, false);
    if (r.chance(2, 5)) { // one state, or some states alike
      int k = 0;
      for (auto &x : m.start) {
        x = r.chance(1, 2);
        k += x > 0;
      }
      if (!k) m.start[r.below((uint64_t)m.S)] = k = 1;
      for (auto &x : m.start) x /= k;
    }
    if (r.chance(1, 4)) m.T[r.below((uint64_t)m.A)][r.below((uint64_t)m.S)] = m.start; // back to the start
  }
  m.finish();
  return m;
}
static std::string num(double x) {
  char b[40];
  if (std::fabs(x * 1e5 - std::round(x * 1e5)) > 1e-7) snprintf(b, sizeof b, "%.17g", x);
  else snprintf(b, sizeof b, std::fabs(x * 100 - std::round(x * 100)) > 1e-7 ? "%.5f" : "%.2f", x);
  return b;
}
static bool uniform_row(const Vec &v) {
  for (double x : v)
    if (std::fabs(x - 1.0 / (double)v.size()) > 1e-15) return false;
  return true;
}
// the plainest text: one row after the other, every number written out
static std::string render_plain(const Model &m) {
  std::string o;
  char b[64];
  snprintf(b, sizeof b, "discount: %g\nvalues: %s\n", m.disc, m.cost ? "cost" : "reward");
  o = b;
  snprintf(b, sizeof b, "states: %d\nactions: %d\nobservations: %d\n", m.S, m.A, m.O);
  o += b;
  if (!m.start.empty()) {
    o += "start:";
    for (double x : m.start) o += " " + num(x);
    o += "\n";
  }
  auto rows = [&](const char *L, int a, const std::vector<Vec> &M) {
    for (size_t s = 0; s < M.size(); s++) {
      o += std::string(L) + ": " + std::to_string(a) + " : " + std::to_string(s) + " ";
      for (double x : M[s]) o += num(x) + " ";
      o += "\n";
    }
  };
  for (int a = 0; a < m.A; a++) rows("T", a, m.T[a]);
  for (int a = 0; a < m.A; a++) rows("O", a, m.Z[a]);
  auto R = [&](int a, int s, const std::string &j, const std::string &k, double x) {
    o += "R: " + std::to_string(a) + " : " + std::to_string(s) + " : " + j + " : " + k + " " + num(x) + "\n";
  };
  for (int a = 0; a < m.A; a++)
    for (int s = 0; s < m.S; s++) {
      const auto &M = m.R[a][s];
      bool c1 = true, c2 = true;
      for (int j = 0; j < m.S; j++)
        for (int k = 0; k < m.O; k++) {
          if (M[j][k] != M[0][0]) c1 = false;
          if (M[j][k] != M[j][0]) c2 = false;
        }
      if (c1) {
        if (M[0][0] != 0) R(a, s, "*", "*", M[0][0]);
      } else
        for (int j = 0; j < m.S; j++) {
          if (c2) R(a, s, std::to_string(j), "*", M[j][0]);
          else
            for (int k = 0; k < m.O; k++)
              if (M[j][k] != 0) R(a, s, std::to_string(j), std::to_string(k), M[j][k]);
        }
    }
  return o;
}
// Any other style: specifications of every form the format has, wildcards anywhere, in any order, each possibly wrong at first
// and put right by a later one. What has been said so far is tracked, and what is missing in the end is added.
struct Writer {
  const Model &m;
  Rng r;
  std::string o;
  bool named[3];
  int pre[3], layout, numf;
  std::vector<std::string> nm[3];
  Writer(const Model &mm, uint64_t style) : m(mm), r(mix2(style, 99)) {}
  bool coin(int n, int d) { return r.chance((uint64_t)n, (uint64_t)d); }
  std::string ws() { return layout == 0 ? " " : layout == 1 ? (coin(1, 6) ? "\t" : coin(1, 8) ? "  " : " ") : coin(1, 4) ? "\t" : coin(1, 4) ? "   " : " "; }
  std::string nl() {
    std::string e = layout == 2 ? "\r\n" : "\n";
    if (layout == 3 && coin(1, 6)) return " # T: 0 : 1 uniform, or 0.5" + e;
    if (layout && coin(1, 10)) return e + e;
    return e;
  }
  std::string gap() { return layout >= 2 && coin(1, 3) ? nl() : ws(); } // between any two words
  std::string colon() { return layout >= 2 ? (coin(1, 3) ? ":" : coin(1, 2) ? " :\t" : " : ") : " : "; }
  std::string head(const char *k) { return std::string(k) + (layout >= 2 && coin(1, 3) ? " " : "") + ":" + (layout >= 2 && coin(1, 3) ? "" : " "); }
  std::string id(int w, int i) {
    if (i < 0) return "*";
    if (named[w] && coin(2, 3)) return nm[w][(size_t)i];
    return std::to_string(i);
  }
  std::string mag(double x) { // a number of at least zero, in some notation that reads back as the same double
    char b[64];
    std::string s = num(x);
    if (numf == 0) return s;
    double i = std::round(x);
    int f = (int)r.below(6);
    if (x == i && i < 1e15 && f < 3) return f == 0 ? std::to_string((long)i) : f == 1 ? std::to_string((long)i) + "." : std::to_string((long)i) + ".0e0";
    if (f == 3 && std::fabs(x * 1e5 - std::round(x * 1e5)) <= 1e-7) snprintf(b, sizeof b, coin(1, 2) ? "%ldE-5" : "%lde-05", std::lround(x * 1e5));
    else if (f == 4 && x != 0) snprintf(b, sizeof b, "%.17e", x);
    else if (f == 5 && s.find('e') == std::string::npos && s.find('.') != std::string::npos) return s + "000";
    else return s;
    return strtod(b, nullptr) == strtod(s.c_str(), nullptr) ? b : s;
  }
  std::string val(double x) { // with a sign
    if (x < 0) return (coin(1, 12) && numf ? "- " : "-") + mag(-x);
    return (numf && coin(1, 8) ? "+" : "") + mag(x);
  }
  std::string prob(double x) { return x < 0 ? num(x) : mag(x); }
  void row(const Vec &v, bool pr) {
    for (double x : v) o += gap() + (pr ? prob(x) : val(x));
  }
  void preamble() {
    char b[64];
    std::vector<std::string> p;
    snprintf(b, sizeof b, "%g", m.disc);
    p.push_back(head("discount") + b + nl());
    p.push_back(head("values") + (m.cost ? "cost" : "reward") + nl());
    static const char *K[] = {"states", "actions", "observations"};
    const int N[] = {m.S, m.A, m.O};
    static const char *B[3][6] = {{"st-", "s", "State_", "T", "uniform-", "e"}, {"act", "a-", "R_", "start", "s", "go_to-"}, {"ob_", "o", "O", "reset-", "s", "Z__"}};
    std::string big(coin(1, 8) ? 60 + r.below(100) : 0, 'x');
    for (int w = 0; w < 3; w++) {
      named[w] = coin(2, 5);
      std::string base = coin(1, 3) ? "s" : B[w][r.below(6)], suf = coin(1, 3) ? "_x" : "", tail = coin(1, 3) ? "q" : "";
      std::vector<int> no;
      for (int i = 0; i < N[w]; i++) no.push_back(i * (suf.empty() ? 1 : 7));
      if (coin(1, 3))
        for (size_t i = no.size(); i > 1; i--) std::swap(no[i - 1], no[r.below(i)]);
      std::string t = head(K[w]);
      for (int i = 0; i < N[w]; i++) {
        nm[w].push_back(base + big + std::to_string(no[(size_t)i]) + (i % 2 ? suf : "") + tail);
        if (named[w]) t += (i ? gap() : "") + nm[w].back();
      }
      if (!named[w]) t += std::to_string(N[w]);
      p.push_back(t + nl());
    }
    for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[r.below(i)]);
    if (coin(1, 3)) o += "# generated model" + nl() + nl();
    for (auto &x : p) {
      o += x;
      if (coin(1, 5)) o += "   # comment: T O R 0.5" + nl();
    }
  }
  void start() {
    Vec v = m.start.empty() ? Vec((size_t)m.S, 1.0 / m.S) : m.start;
    std::vector<int> in, ex;
    bool flat = true;
    for (int i = 0; i < m.S; i++) (v[(size_t)i] > 0 ? in : ex).push_back(i);
    for (int i : in) flat = flat && std::fabs(v[(size_t)i] - 1.0 / (double)in.size()) < 1e-15;
    if (uniform_row(v) && coin(1, 3)) return;
    if (uniform_row(v) && coin(1, 4)) {
      o += head("start") + "uniform" + nl();
      return;
    }
    if (flat && in.size() == 1 && named[0] && coin(1, 2)) {
      o += head("start") + nm[0][(size_t)in[0]] + nl();
      return;
    }
    if (flat && !in.empty() && coin(2, 3)) {
      bool inc = ex.empty() || coin(1, 2);
      auto &L = inc ? in : ex;
      for (size_t i = L.size(); i > 1; i--) std::swap(L[i - 1], L[r.below(i)]);
      o += "start" + ws() + head(inc ? "include" : "exclude");
      if (inc && ex.empty() && coin(1, 2)) o += "*";
      else
        for (size_t i = 0; i < L.size(); i++) {
          o += (i ? gap() : "") + id(0, L[i]);
          if (coin(1, 8)) o += gap() + id(0, L[i]);
        }
      o += nl();
      return;
    }
    if (m.start.empty() && m.S % 3 == 0 && coin(1, 2)) return;
    o += "start:";
    row(v, true);
    o += nl();
  }
  // one specification of T or O for the given action and row (-1: all), covering what has been said so far in cur
  typedef std::vector<std::vector<Vec>> Cube;
  Vec some(const Cube &want, size_t n) {
    if (coin(1, 2)) {
      const auto &M = want[r.below(want.size())];
      return M[r.below(M.size())];
    }
    return prob_row(r, (int)n, false, coin(1, 2));
  }
  static std::pair<int, int> range(int i, size_t n) { return i < 0 ? std::make_pair(0, (int)n) : std::make_pair(i, i + 1); }
  void spec_row(const char *L, bool obs, Cube &cur, int a, int s, const Vec &v) {
    o += head(L) + id(1, a) + colon() + id(0, s);
    bool st = !obs && !m.start.empty() && v == m.start;
    if (uniform_row(v) && coin(1, 2)) o += gap() + "uniform";
    else if (st && coin(2, 3)) o += gap() + "reset";
    else row(v, true);
    o += nl();
    auto A = range(a, cur.size()), S = range(s, cur[0].size());
    for (int x = A.first; x < A.second; x++)
      for (int y = S.first; y < S.second; y++) cur[(size_t)x][(size_t)y] = v;
  }
  void spec_one(const char *L, bool obs, Cube &cur, int a, int s, int j, double p) {
    o += head(L) + id(1, a) + colon() + id(0, s) + colon() + id(obs ? 2 : 0, j) + gap() + prob(p) + nl();
    auto A = range(a, cur.size()), S = range(s, cur[0].size()), J = range(j, cur[0][0].size());
    for (int x = A.first; x < A.second; x++)
      for (int y = S.first; y < S.second; y++)
        for (int z = J.first; z < J.second; z++) cur[(size_t)x][(size_t)y][(size_t)z] = p;
  }
  void spec_all(const char *L, bool obs, Cube &cur, int a, const std::vector<Vec> &M) {
    o += head(L) + id(1, a);
    bool ident = !obs, uni = true;
    for (size_t i = 0; i < M.size(); i++) {
      uni = uni && uniform_row(M[i]);
      for (size_t j = 0; j < M[i].size(); j++) ident = ident && M[i][j] == (i == j ? 1.0 : 0.0);
    }
    if (ident && coin(2, 3)) o += gap() + "identity";
    else if (uni && coin(2, 3)) o += gap() + "uniform";
    else {
      for (auto &v : M) {
        o += nl();
        row(v, true);
      }
    }
    o += nl();
    auto A = range(a, cur.size());
    for (int x = A.first; x < A.second; x++) cur[(size_t)x] = M;
  }
  int any(size_t n, int num, int den) { return coin(num, den) ? -1 : (int)r.below(n); }
  void cube(const char *L, bool obs, const Cube &want, Cube &cur, int wild) {
    size_t nA = want.size(), nS = want[0].size(), nJ = want[0][0].size();
    for (int k = 0; k < wild; k++) {
      int f = (int)r.below(4), a = any(nA, 1, 3);
      if (f == 0) spec_row(L, obs, cur, a, any(nS, 1, 2), some(want, nJ));
      else if (f == 1) {
        static const double P[] = {0, 1, 0.5, 0.25, 0.3};
        spec_one(L, obs, cur, a, any(nS, 1, 2), any(nJ, 1, 3), P[r.below(5)]);
      } else if (f == 2 && !obs && coin(1, 3)) {
        std::vector<Vec> I(nS, Vec(nS, 0.0));
        for (size_t i = 0; i < nS; i++) I[i][i] = 1;
        spec_all(L, obs, cur, a, I);
      } else if (f == 2) spec_all(L, obs, cur, a, std::vector<Vec>(nS, Vec(nJ, 1.0 / (double)nJ)));
      else if (coin(1, 2)) spec_all(L, obs, cur, a, want[r.below(nA)]);
      else {
        std::vector<Vec> M;
        for (size_t i = 0; i < nS; i++) M.push_back(some(want, nJ));
        spec_all(L, obs, cur, a, M);
      }
    }
  }
  bool eq(double x, double y) { return x == y; }
  void mend(const char *L, bool obs, const Cube &want, Cube &cur, int a) { // what is still wrong for this action
    size_t nA = want.size(), nS = want[0].size(), nJ = want[0][0].size();
    if (cur[(size_t)a] == want[(size_t)a]) return;
    bool all = true, same = true;
    for (auto &M : want) all = all && M == want[0];
    for (auto &v : want[(size_t)a]) same = same && v == want[(size_t)a][0];
    int f = (int)r.below(8);
    if (f < 2) {
      spec_all(L, obs, cur, all && coin(1, 2) ? -1 : a, want[(size_t)a]);
      return;
    }
    if (same && f == 2) {
      spec_row(L, obs, cur, a, -1, want[(size_t)a][0]);
      return;
    }
    for (size_t s = 0; s < nS; s++) {
      const Vec &w = want[(size_t)a][s];
      if (cur[(size_t)a][s] == w) continue;
      bool rowsame = true;
      for (size_t x = 0; x < nA; x++) rowsame = rowsame && want[x][s] == w;
      if (f < 5 ? true : coin(1, 4)) {
        spec_row(L, obs, cur, rowsame && coin(1, 2) ? -1 : a, (int)s, w);
        continue;
      }
      for (size_t j = 0; j < nJ; j++)
        if (cur[(size_t)a][s][j] != w[j]) {
          bool col = true, act = true;
          for (size_t x = 0; x < nS; x++) col = col && want[(size_t)a][x][j] == w[j];
          for (size_t x = 0; x < nA; x++) act = act && want[x][s][j] == w[j];
          spec_one(L, obs, cur, act && coin(1, 2) ? -1 : a, col && coin(1, 2) && a >= 0 && !act ? -1 : (int)s, (int)j, w[j]);
        }
    }
  }
  // rewards: the latest entry that fits counts
  typedef std::vector<Cube> Hyper;
  Hyper rc;
  void setR(int a, int s, int j, int k, double x) {
    auto A = range(a, rc.size()), S = range(s, rc[0].size()), J = range(j, rc[0][0].size()), K = range(k, rc[0][0][0].size());
    for (int w = A.first; w < A.second; w++)
      for (int y = S.first; y < S.second; y++)
        for (int z = J.first; z < J.second; z++)
          for (int q = K.first; q < K.second; q++) rc[(size_t)w][(size_t)y][(size_t)z][(size_t)q] = x;
  }
  void r_one(int a, int s, int j, int k, double x) {
    o += head("R") + id(1, a) + colon() + id(0, s) + colon() + id(0, j) + colon() + id(2, k) + gap() + val(x) + nl();
    setR(a, s, j, k, x);
  }
  void r_row(int a, int s, int j, const Vec &v) {
    o += head("R") + id(1, a) + colon() + id(0, s) + colon() + id(0, j);
    if (coin(1, 2)) o += nl();
    row(v, false);
    o += nl();
    for (size_t k = 0; k < v.size(); k++) setR(a, s, j, (int)k, v[k]);
  }
  void r_all(int a, int s, const std::vector<Vec> &M) {
    o += head("R") + id(1, a) + colon() + id(0, s);
    for (auto &v : M) {
      o += nl();
      row(v, false);
    }
    o += nl();
    for (size_t j = 0; j < M.size(); j++)
      for (size_t k = 0; k < M[j].size(); k++) setR(a, s, (int)j, (int)k, M[j][k]);
  }
  double rnd() { return coin(1, 4) ? 0.0 : dec((double)r.range(-3000, 3000) / 100); }
  void r_wild() {
    size_t A = (size_t)m.A, S = (size_t)m.S, O = (size_t)m.O;
    int a = any(A, 1, 2), s = any(S, 1, 2), f = (int)r.below(4);
    if (f < 2) r_one(a, s, any(S, 1, 2), any(O, 1, 2), rnd());
    else if (f == 2) {
      Vec v = m.R[r.below(A)][r.below(S)][r.below(S)];
      for (auto &x : v)
        if (coin(1, 3)) x = rnd();
      r_row(a, s, any(S, 1, 2), v);
    } else {
      auto M = m.R[r.below(A)][r.below(S)];
      for (auto &v : M)
        for (auto &x : v)
          if (coin(1, 4)) x = rnd();
      r_all(a, s, M);
    }
  }
  void r_mend(int a, int s) {
    const auto &M = m.R[(size_t)a][(size_t)s];
    auto &C = rc[(size_t)a][(size_t)s];
    if (C == M) return;
    bool c1 = true, c2 = true, rows = true;
    for (auto &v : M)
      for (double x : v) {
        c1 = c1 && x == M[0][0];
        c2 = c2 && x == v[0];
      }
    for (auto &v : M) rows = rows && v == M[0];
    int f = (int)r.below(6);
    if (c1 && f < 4) r_one(a, s, -1, -1, M[0][0]);
    else if (f == 0) r_all(a, s, M);
    else if (rows && f < 3) r_row(a, s, -1, M[0]);
    else
      for (int j = 0; j < m.S; j++) {
        if (C[(size_t)j] == M[(size_t)j]) continue;
        if (c2 && coin(2, 3)) r_one(a, s, j, -1, M[(size_t)j][0]);
        else if (coin(1, 3)) r_row(a, s, j, M[(size_t)j]);
        else
          for (int k = 0; k < m.O; k++)
            if (C[(size_t)j][(size_t)k] != M[(size_t)j][(size_t)k]) r_one(a, s, j, k, M[(size_t)j][(size_t)k]);
      }
  }
  std::string write() {
    layout = (int)r.below(4);
    numf = (int)r.below(3);
    preamble();
    start();
    Cube ct((size_t)m.A, std::vector<Vec>((size_t)m.S, Vec((size_t)m.S, 0.0))), cz((size_t)m.A, std::vector<Vec>((size_t)m.S, Vec((size_t)m.O, 0.0)));
    rc.assign((size_t)m.A, Cube((size_t)m.S, std::vector<Vec>((size_t)m.S, Vec((size_t)m.O, 0.0))));
    int w = coin(1, 2) ? 0 : 3; // how much is said that is not so
    bool mixed = coin(1, 3);    // all three kinds in turn, instead of one after the other
    std::vector<int> job;       // what is to be said: 0 T, 1 O, 2 R
    auto wild = [&](int k) {
      if (k == 0) cube("T", false, m.T, ct, 1);
      else if (k == 1) cube("O", true, m.Z, cz, 1);
      else r_wild();
    };
    auto mendk = [&](int k, int a) {
      if (k == 0) mend("T", false, m.T, ct, a);
      else if (k == 1) mend("O", true, m.Z, cz, a);
      else
        for (int s = 0; s < m.S; s++) r_mend(a, s);
    };
    int ord[3] = {0, 1, 2};
    if (coin(1, 3))
      for (int i = 2; i > 0; i--) std::swap(ord[i], ord[r.below((uint64_t)i + 1)]);
    if (mixed) {
      for (int i = (int)r.below((uint64_t)(3 * w + 1)); i > 0; i--) wild((int)r.below(3));
      for (int a = 0; a < m.A; a++)
        for (int k = 0; k < 3; k++) mendk(ord[k], a);
    } else
      for (int k = 0; k < 3; k++) {
        for (int i = (int)r.below((uint64_t)(w + 1)); i > 0; i--) wild(ord[k]);
        for (int a = 0; a < m.A; a++) mendk(ord[k], a);
        if (ord[k] == 2 && coin(1, 6)) { // an entry that changes nothing
          int a = (int)r.below((uint64_t)m.A), s = (int)r.below((uint64_t)m.S), j = (int)r.below((uint64_t)m.S), q = (int)r.below((uint64_t)m.O);
          r_one(a, s, j, q, m.R[(size_t)a][(size_t)s][(size_t)j][(size_t)q]);
        }
      }
    for (int k = 0; k < 3; k++) // a wildcard used to mend one thing may have spoilt another
      for (int p = 0; p < 3; p++)
        for (int a = 0; a < m.A; a++) mendk(k, a);
    return o;
  }
};
std::string render(const Model &m, uint64_t style) { return style == 0 ? render_plain(m) : Writer(m, style).write(); }

// ------------------------------------------------------------------ files
static void skipws(const char *&p) {
  while (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r') p++;
}
static bool getnum(const char *&p, double &x) {
  skipws(p);
  if (!*p) return false;
  char *e;
  x = strtod(p, &e);
  if (e == p) return false;
  if (*e && !strchr(" \t\r\n", *e)) return false;
  p = e;
  return true;
}
bool parse_alpha(const std::string &t, int S, int A, ASet &out, std::string *why) {
  out.clear();
  if (t.find('\0') != std::string::npos) {
    if (why) *why = "binary data";
    return false;
  }
  const char *p = t.c_str();
  for (;;) {
    skipws(p);
    if (!*p) break;
    Alpha al;
    double x;
    if (!getnum(p, x) || x != std::floor(x) || x < -1 || x >= A) {
      if (why) *why = "bad action number";
      return false;
    }
    al.a = (int)x;
    for (int i = 0; i < S; i++) {
      if (!getnum(p, x) || !std::isfinite(x)) {
        if (why) *why = "incomplete or non-numeric vector";
        return false;
      }
      al.v.push_back(x);
    }
    out.push_back(al);
  }
  if (t.empty() || t[t.size() - 1] != '\n') {
    if (why) *why = t.empty() ? "empty file" : "last line incomplete";
    return false;
  }
  if (out.empty()) {
    if (why) *why = "no vectors";
    return false;
  }
  return true;
}
bool parse_pg(const std::string &t, int O, std::vector<PgNode> &out, std::string *why) {
  out.clear();
  if (t.empty() || t.back() != '\n') {
    if (why) *why = t.empty() ? "empty file" : "last line incomplete";
    return false;
  }
  size_t pos = 0;
  while (pos < t.size()) {
    size_t e = t.find('\n', pos);
    std::string l = t.substr(pos, e - pos);
    pos = e + 1;
    std::vector<std::string> tok;
    size_t i = 0;
    while (i < l.size()) {
      while (i < l.size() && (l[i] == ' ' || l[i] == '\t')) i++;
      size_t b = i;
      while (i < l.size() && l[i] != ' ' && l[i] != '\t') i++;
      if (i > b) tok.push_back(l.substr(b, i - b));
    }
    if (tok.empty()) continue;
    if ((int)tok.size() != O + 2) {
      if (why) *why = "node line with " + std::to_string(tok.size()) + " fields: " + l;
      return false;
    }
    PgNode n;
    for (size_t k = 0; k < tok.size(); k++) {
      long v;
      if (tok[k] == "-") v = -1;
      else if (tok[k] == "X") v = -2;
      else {
        char *x;
        v = strtol(tok[k].c_str(), &x, 10);
        if (*x) {
          if (why) *why = "bad field " + tok[k];
          return false;
        }
      }
      if (k == 0) n.id = v;
      else if (k == 1) n.a = v;
      else n.next.push_back(v);
    }
    out.push_back(n);
  }
  if (out.empty()) {
    if (why) *why = "no nodes";
    return false;
  }
  return true;
}
std::string write_alpha(const ASet &s) {
  std::string o;
  char b[64];
  for (auto &a : s) {
    o += std::to_string(a.a) + "\n";
    for (double x : a.v) {
      snprintf(b, sizeof b, "%.25f ", x);
      o += b;
    }
    o += "\n\n";
  }
  return o;
}
double value_at(const ASet &s, const Vec &b) {
  double m = -INFINITY;
  for (auto &a : s) {
    double t = 0;
    for (size_t i = 0; i < b.size(); i++) t += a.v[i] * b[i];
    if (t > m) m = t;
  }
  return m;
}
double backup_at(const Model &m, const ASet &prev, const Vec &b) {
  double best = -INFINITY;
  for (int a = 0; a < m.A; a++) {
    double v = 0;
    for (int s = 0; s < m.S; s++) v += b[s] * m.q[a][s];
    for (int o = 0; o < m.O; o++) {
      Vec nb(m.S, 0.0);
      for (int j = 0; j < m.S; j++) {
        double t = 0;
        for (int s = 0; s < m.S; s++) t += b[s] * m.T[a][s][j];
        nb[j] = t * m.Z[a][j][o];
      }
      v += m.disc * value_at(prev, nb);
    }
    if (v > best) best = v;
  }
  return best;
}
double horizon_value(const Model &m, const ASet &term, int k, const Vec &b) { // b may be unnormalised: values scale linearly
  if (k == 0) return value_at(term, b);
  double best = -INFINITY;
  for (int a = 0; a < m.A; a++) {
    double v = 0;
    for (int s = 0; s < m.S; s++) v += b[s] * m.q[a][s];
    for (int o = 0; o < m.O; o++) {
      Vec nb(m.S, 0.0);
      double tot = 0;
      for (int j = 0; j < m.S; j++) {
        double t = 0;
        for (int s = 0; s < m.S; s++) t += b[s] * m.T[a][s][j];
        nb[j] = t * m.Z[a][j][o];
        tot += nb[j];
      }
      if (tot > 0) v += m.disc * horizon_value(m, term, k - 1, nb);
    }
    if (v > best) best = v;
  }
  return best;
}
void action_value_vec(const Model &m, int a, const std::vector<const Vec *> &next, Vec &out) {
  out.assign(m.S, 0.0);
  for (int s = 0; s < m.S; s++) {
    double v = m.q[a][s];
    for (int o = 0; o < m.O; o++)
      if (next[o]) {
        double u = 0;
        for (int j = 0; j < m.S; j++) u += m.T[a][s][j] * m.Z[a][j][o] * (*next[o])[j];
        v += m.disc * u;
      }
    out[s] = v;
  }
}
ASet zero_terminal(const Model &m) { return ASet{Alpha{0, Vec(m.S, 0.0)}}; }
static void norm1(Vec &b) {
  double t = 0;
  for (double &x : b) {
    if (x < 0) x = 0;
    t += x;
  }
  for (double &x : b) x /= t;
}
// ------------------------------------------------------------------ a small dense linear program: max c x, A x <= d, x >= 0
struct SmallLP {
  typedef long double ld;
  int m, n;
  std::vector<int> B, N;
  std::vector<std::vector<ld>> D;
  SmallLP(const std::vector<Vec> &A, const Vec &d, const Vec &c)
      : m((int)d.size()), n((int)c.size()), B((size_t)m), N((size_t)n + 1), D((size_t)m + 2, std::vector<ld>((size_t)n + 2)) {
    for (int i = 0; i < m; i++) {
      for (int j = 0; j < n; j++) at(i, j) = A[(size_t)i][(size_t)j];
      B[(size_t)i] = n + i;
      at(i, n) = -1;
      at(i, n + 1) = d[(size_t)i];
    }
    for (int j = 0; j < n; j++) {
      N[(size_t)j] = j;
      at(m, j) = -(ld)c[(size_t)j];
    }
    N[(size_t)n] = -1;
    at(m + 1, n) = 1;
  }
  ld &at(int i, int j) { return D[(size_t)i][(size_t)j]; }
  void pivot(int r, int s) {
    ld inv = 1 / at(r, s);
    for (int i = 0; i < m + 2; i++)
      if (i != r && at(i, s) != 0)
        for (int j = 0; j < n + 2; j++)
          if (j != s) at(i, j) -= at(r, j) * at(i, s) * inv;
    for (int j = 0; j < n + 2; j++)
      if (j != s) at(r, j) *= inv;
    for (int i = 0; i < m + 2; i++)
      if (i != r) at(i, s) *= -inv;
    at(r, s) = inv;
    std::swap(B[(size_t)r], N[(size_t)s]);
  }
  bool simplex(int phase) {
    const ld E = 1e-13L;
    int x = phase == 1 ? m + 1 : m;
    for (int it = 0; it < 5000; it++) {
      int s = -1;
      for (int j = 0; j <= n; j++) {
        if (phase == 2 && N[(size_t)j] == -1) continue;
        if (s < 0 || at(x, j) < at(x, s) || (at(x, j) == at(x, s) && N[(size_t)j] < N[(size_t)s])) s = j;
      }
      if (at(x, s) > -E) return true;
      int r = -1;
      for (int i = 0; i < m; i++) {
        if (at(i, s) < E) continue;
        if (r < 0) {
          r = i;
          continue;
        }
        ld p = at(i, n + 1) / at(i, s), q = at(r, n + 1) / at(r, s);
        if (p < q || (p == q && B[(size_t)i] < B[(size_t)r])) r = i;
      }
      if (r < 0) return false;
      pivot(r, s);
    }
    return false;
  }
  bool solve(Vec &x, Vec *dual = nullptr) {
    int r = 0;
    for (int i = 1; i < m; i++)
      if (at(i, n + 1) < at(r, n + 1)) r = i;
    if (at(r, n + 1) < -1e-13L) {
      pivot(r, n);
      if (!simplex(1) || at(m + 1, n + 1) < -1e-12L) return false;
      for (int i = 0; i < m; i++)
        if (B[(size_t)i] == -1) {
          int s = -1;
          for (int j = 0; j <= n; j++)
            if (s < 0 || at(i, j) < at(i, s) || (at(i, j) == at(i, s) && N[(size_t)j] < N[(size_t)s])) s = j;
          pivot(i, s);
        }
    }
    if (!simplex(2)) return false;
    x.assign((size_t)n, 0.0);
    for (int i = 0; i < m; i++)
      if (B[(size_t)i] < n && B[(size_t)i] >= 0) x[(size_t)B[(size_t)i]] = (double)at(i, n + 1);
    if (dual) {
      dual->assign((size_t)m, 0.0);
      for (int j = 0; j <= n; j++)
        if (N[(size_t)j] >= n) (*dual)[(size_t)(N[(size_t)j] - n)] = (double)at(m, j);
    }
    return true;
  }
};
// a corner of the region in which vector i is best, in a drawn direction
static bool region_corner(const ASet &s, size_t i, int S, Rng &r, Vec &b) {
  std::vector<Vec> A;
  Vec d, c;
  size_t k = (size_t)S - 1;
  for (size_t j = 0; j < s.size(); j++) {
    if (j == i) continue;
    Vec a(k);
    double last = s[j].v[k] - s[i].v[k];
    for (size_t q = 0; q < k; q++) a[q] = s[j].v[q] - s[i].v[q] - last;
    A.push_back(a);
    d.push_back(-last);
  }
  A.push_back(Vec(k, 1.0));
  d.push_back(1);
  for (size_t q = 0; q < k; q++) c.push_back(r.unit() * 2 - 1);
  Vec x;
  if (!SmallLP(A, d, c).solve(x)) return false;
  double t = 1;
  for (double y : x) t -= y;
  x.push_back(t);
  for (auto &y : x) y = std::max(0.0, y);
  b = x;
  norm1(b);
  return true;
}
// The largest margin over all beliefs. The answer is certified: the margin at the belief the program names is a lower
// bound, and its multipliers give an upper one; where the two do not meet there is no answer (NAN).
static double margin_lp(const ASet &s, size_t i, int S) {
  double M = 0;
  std::vector<Vec> A;
  Vec d, c((size_t)S, 0.0);
  std::vector<size_t> row;
  for (auto &a : s)
    for (int q = 0; q < S; q++) M = std::max(M, std::fabs(a.v[(size_t)q] - s[i].v[(size_t)q]) * 2);
  if (!(M > 0) || !std::isfinite(M)) return M == 0 && s.size() > 1 ? 0 : NAN;
  size_t k = (size_t)S - 1; // x: k entries of the belief, then the margin over M, plus 1
  for (size_t j = 0; j < s.size(); j++) {
    if (j == i) continue;
    Vec a(k + 1);
    double last = s[j].v[k] - s[i].v[k];
    for (size_t q = 0; q < k; q++) a[q] = (s[j].v[q] - s[i].v[q] - last) / M;
    a[k] = 1;
    A.push_back(a);
    d.push_back(1 - last / M);
    row.push_back(j);
  }
  Vec one(k + 1, 1.0);
  one[k] = 0;
  A.push_back(one);
  d.push_back(1);
  c[k] = 1;
  Vec x, y;
  if (!SmallLP(A, d, c).solve(x, &y)) return NAN;
  Vec b(x.begin(), x.end() - 1);
  b.push_back(1);
  for (size_t q = 0; q < k; q++) b[k] -= b[q];
  for (auto &p : b) p = std::max(p, 0.0);
  norm1(b);
  double best = INFINITY, sum = 0, bound = -INFINITY;
  for (size_t j = 0; j < s.size(); j++)
    if (j != i) {
      double u = 0;
      for (int q = 0; q < S; q++) u += (s[i].v[(size_t)q] - s[j].v[(size_t)q]) * b[(size_t)q];
      best = std::min(best, u);
    }
  for (size_t r = 0; r < row.size(); r++) sum += y[r] = std::max(y[r], 0.0);
  if (!(sum > 0)) return NAN;
  for (int q = 0; q < S; q++) {
    double u = 0;
    for (size_t r = 0; r < row.size(); r++) u += y[r] / sum * (s[i].v[(size_t)q] - s[row[r]].v[(size_t)q]);
    bound = std::max(bound, u);
  }
  return bound - best <= 1e-7 * std::max(1.0, M) ? best : NAN;
}
std::vector<Vec> critical_beliefs(const ASet &s, int S, Rng &r, size_t cap, int nrandom) {
  std::vector<Vec> o;
  for (int i = 0; i < S; i++) {
    Vec b(S, 0.0);
    b[i] = 1;
    o.push_back(b);
  }
  if (S == 1) return o;
  o.push_back(Vec(S, 1.0 / S));
  for (int i = 0; i < nrandom; i++) {
    Vec b(S);
    for (int j = 0; j < S; j++) b[j] = -std::log(1 - r.unit() * 0.999999);
    norm1(b);
    o.push_back(b);
  }
  size_t n = s.size();
  // the value is linear in each vector's region, so another convex function is farthest from it at a corner of one
  if (S >= 4 && n > 1 && n <= 400)
    for (int k = (int)std::min<size_t>(90, 4 * n * (size_t)S); k > 0; k--) {
      Vec b;
      if (region_corner(s, r.below(n), S, r, b)) o.push_back(b);
    }
  // points on edges where two vectors cross
  for (int p = 0; p < S; p++)
    for (int q = p + 1; q < S; q++) {
      std::vector<double> ts;
      for (size_t i = 0; i < n; i++)
        for (size_t j = i + 1; j < n; j++) {
          double dp = s[i].v[p] - s[j].v[p], dq = s[i].v[q] - s[j].v[q];
          if (dp * dq < 0) ts.push_back(dp / (dp - dq));
        }
      std::sort(ts.begin(), ts.end());
      size_t step = ts.size() > 400 ? ts.size() / 400 : 1;
      double last = 0;
      for (size_t k = 0; k < ts.size(); k += step) {
        Vec b(S, 0.0);
        b[q] = ts[k];
        b[p] = 1 - ts[k];
        o.push_back(b);
        if (S == 2) {
          Vec c(S, 0.0);
          double md = (last + ts[k]) / 2;
          c[q] = md;
          c[p] = 1 - md;
          o.push_back(c);
          last = ts[k];
        }
        if (o.size() > cap) return o;
      }
    }
  if (S == 3)
    for (size_t i = 0; i < n; i++)
      for (size_t j = i + 1; j < n; j++)
        for (size_t k = j + 1; k < n; k++) { // interior points where three vectors meet
          double a1 = s[i].v[0] - s[j].v[0], a2 = s[i].v[1] - s[j].v[1], a3 = s[i].v[2] - s[j].v[2], b1 = s[i].v[0] - s[k].v[0],
                 b2 = s[i].v[1] - s[k].v[1], b3 = s[i].v[2] - s[k].v[2];
          double x = a2 * b3 - a3 * b2, y = a3 * b1 - a1 * b3, z = a1 * b2 - a2 * b1, t = x + y + z;
          if (std::fabs(t) < 1e-12) continue;
          x /= t;
          y /= t;
          z /= t;
          if (x < 0 || y < 0 || z < 0) continue;
          o.push_back({x, y, z});
          if (o.size() > cap) return o;
        }
  return o;
}
double vscale(const ASet &s) {
  double m = 1;
  for (auto &a : s)
    for (double x : a.v) m = std::max(m, std::fabs(x));
  return m;
}
bool same_set(const ASet &a, const ASet &b, double tol, std::string *why) {
  if (a.size() != b.size()) {
    if (why) *why = std::to_string(a.size()) + " vectors against " + std::to_string(b.size());
    return false;
  }
  std::vector<char> used(b.size(), 0);
  for (size_t i = 0; i < a.size(); i++) {
    bool f = false;
    for (size_t j = 0; j < b.size() && !f; j++)
      if (!used[j] && a[i].a == b[j].a) {
        bool eq = true;
        for (size_t k = 0; k < a[i].v.size(); k++)
          if (!(std::fabs(a[i].v[k] - b[j].v[k]) <= tol)) {
            eq = false;
            break;
          }
        if (eq) {
          used[j] = 1;
          f = true;
        }
      }
    if (!f) {
      if (why) *why = "vector " + std::to_string(i) + " (action " + std::to_string(a[i].a) + ") has no counterpart";
      return false;
    }
  }
  return true;
}
bool same_values(const ASet &a, const ASet &b, int S, double tol, Rng &r, std::string *why) {
  for (int w = 0; w < 2; w++)
    for (auto &p : critical_beliefs(w ? b : a, S, r, 1500, 40)) {
      double x = value_at(a, p), y = value_at(b, p);
      if (!(std::fabs(x - y) <= tol)) {
        if (why) {
          std::string t = "at belief (";
          for (double q : p) {
            char c[32];
            snprintf(c, sizeof c, "%.6f ", q);
            t += c;
          }
          char c[96];
          snprintf(c, sizeof c, ") %.12g against %.12g", x, y);
          *why = t + c;
        }
        return false;
      }
    }
  return true;
}
double usefulness(const ASet &s, size_t i,
                  int S) { // the largest margin over all beliefs: a concave function, searched exactly in one or two dimensions
  if (s.size() < 2) return INFINITY;
  if (S > 3) {
    double x = margin_lp(s, i, S);
    return std::isnan(x) ? INFINITY : x;
  }
  auto g = [&](double x, double y) {
    double z = 1 - x - y, m = INFINITY;
    const Vec &w = s[i].v;
    for (size_t j = 0; j < s.size(); j++)
      if (j != i) {
        const Vec &v = s[j].v;
        double d = (w[0] - v[0]) * x;
        if (S > 1) d += (w[1] - v[1]) * y;
        if (S > 2) d += (w[2] - v[2]) * z;
        if (d < m) m = d;
      }
    return m;
  };
  if (S == 1) return g(1, 0);
  const double R = 0.38196601125010515; // golden section
  auto peak = [&](double lo, double hi, const std::function<double(double)> &f, int it) {
    double best = std::max(f(lo), f(hi));
    double a = lo + R * (hi - lo), b = hi - R * (hi - lo), fa = f(a), fb = f(b);
    for (int k = 0; k < it; k++) {
      best = std::max(best, std::max(fa, fb));
      if (fa < fb) {
        lo = a;
        a = b;
        fa = fb;
        b = hi - R * (hi - lo);
        fb = f(b);
      } else {
        hi = b;
        b = a;
        fb = fa;
        a = lo + R * (hi - lo);
        fa = f(a);
      }
    }
    return best;
  };
  if (S == 2) return peak(0, 1, [&](double x) { return g(x, 1 - x); }, 64);
  return peak(0, 1, [&](double x) { return peak(0, 1 - x, [&](double y) { return g(x, y); }, 52); }, 52);
}
