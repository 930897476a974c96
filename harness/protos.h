// Parts of the harnesses that run protocols: key material, schedules, the
// witness for the coefficients of the check phase.
#ifndef VERIF_PROTOS_H
#define VERIF_PROTOS_H
#include <algorithm>
#include <fstream>
#include <map>
#include <set>
#include "simnet.h"
#include "values.h"
#include "frn/check.h"
#include "frn/corr.h"
#include "frn/input.h"
#include "frn/input_corr.h"
#include "frn/lib/secret_sharing/additive.h"
#include "frn/mult.h"

using namespace vh;
using namespace frn;
using Rep = frn::lib::secret_sharing::Replicator<Field>;
using frn::lib::primitives::PRG;
typedef std::pair<int, int> ND;
template <class T> using V = std::vector<T>;

// An execution of a design model: its parameters (batches, counts, total) and
// the parties in the order of their steps.
struct Sched { int n, d; V<int> param, order; };
inline V<Sched> gSchedules;
inline std::string gKind;
inline bool gOnlySchedules = false;             // run nothing else

inline void LoadSchedules(const char *path) {   // lines: kind n d k param.. party..
  std::ifstream in(path);
  std::string ln;
  while (std::getline(in, ln)) {
    std::istringstream s(ln);
    std::string kind;
    Sched c;
    int k, p;
    s >> kind >> c.n >> c.d >> k;
    if (kind != gKind) continue;
    while (k-- && s >> p) c.param.push_back(p);
    for (p = 0; p < c.n; p++) c.order.push_back(p);     // up to the first step
    while (s >> p) c.order.push_back(p);
    gSchedules.push_back(c);
  }
}

// ---- key material ---------------------------------------------------------------
// For every party of the first 2d+1 a key: the generators of its additive
// shares, and for every party the generators of its replicated share.
struct Keys {
  V<V<PRG>> own;              // [i][component]
  V<V<V<PRG>>> rep;           // [party][i][position]
};
inline Keys MakeKeys(Rng &r, const Rep &rp, int n, int d) {
  Keys k;
  k.rep.resize(n);
  for (int i = 0; i < 2 * d + 1; i++) {
    auto prg = MakePrg(r.next());
    auto copy = prg;
    Field key = AnyField(r);
    auto shares = rp.Share(key, prg);
    auto add = frn::lib::secret_sharing::ShareAdditive(key, rp.AdditiveShareSize(), copy);
    V<PRG> o;
    for (auto &a : add) o.push_back(FieldElementToPrg(a));
    k.own.push_back(o);
    for (int p = 0; p < n; p++) {
      V<PRG> w;
      for (auto &s : shares[p]) w.push_back(FieldElementToPrg(s));
      k.rep[p].push_back(w);
    }
  }
  return k;
}
inline void Install(Correlator &c, const Keys &k, int party, int d) {
  if (party < 2 * d + 1) c.SetOwnPRGs(k.own[party]);
  for (int i = 0; i < 2 * d + 1; i++) c.SetRandPRGs(k.rep[party][i], i);
}

inline V<ND> ProtoCfgs() {
  V<ND> v = {{4, 1}, {5, 1}, {7, 2}, {6, 1}, {5, 2}, {3, 1}, {8, 2}, {10, 3}, {13, 4}};
  if (Thorough()) for (ND c : V<ND>{{7, 3}, {6, 2}, {9, 2}, {12, 1}, {11, 3}, {9, 4}, {14, 4}}) v.push_back(c);
  return v;
}
inline void SetSchedule(Sim &sim, Rng &r, const Sched *sched) {
  if (sched) sim.schedule = sched->order;
  sim.policy = (int)r.below(6);
}

// Solves for the coefficients from what was sent (a witness only: the trace
// specification verifies it).  Sum over one sender-receiver pair is linear.
inline Field Inv(const Field &f) { return f.Inverse(); }
inline bool Solve(V<V<Field>> a, V<Field> b, V<Field> &x, size_t K) {
  size_t row = 0;
  V<int> piv(K, -1);
  for (size_t c = 0; c < K; c++) {
    size_t p = row;
    while (p < a.size() && a[p][c] == Field(0)) p++;
    if (p == a.size()) return false;
    std::swap(a[p], a[row]); std::swap(b[p], b[row]);
    Field iv = Inv(a[row][c]);
    for (auto &e : a[row]) e *= iv;
    b[row] *= iv;
    for (size_t i = 0; i < a.size(); i++) if (i != row && a[i][c] != Field(0)) {
      Field f = a[i][c];
      for (size_t j = 0; j < K; j++) a[i][j] -= f * a[row][j];
      b[i] -= f * b[row];
    }
    piv[c] = (int)row++;
  }
  x.assign(K, Field(0));
  for (size_t c = 0; c < K; c++) x[c] = b[piv[c]];
  return true;
}


// Everything the parties of the last session sent to each other, from the
// trace (it is still buffered only in part, so it is taken from the file).
inline V<V<V<std::string>>> SentUnits(int n) {
  Flush();
  V<V<V<std::string>>> str(n, V<V<std::string>>(n));
  std::ifstream in(getenv("VH_TRACE"));
  std::string ln, key = "{\"e\":\"send\",\"i\":";
  V<std::string> ses;
  while (std::getline(in, ln)) {
    if (ln.rfind("{\"e\":\"session\"", 0) == 0) ses.clear();
    else if (ln.rfind(key, 0) == 0) ses.push_back(ln);
  }
  for (auto &e : ses) {
    int i, j, used;
    sscanf(e.c_str() + key.size(), "%d,\"j\":%d,\"u\":%n", &i, &j, &used);
    std::string u = e.substr(key.size() + used);
    for (size_t a = 1; a < u.size() && u[a] == '[';) {
      size_t b = u.find(']', a);
      str[i][j].push_back(u.substr(a, b - a + 1));
      a = b + 2;
    }
  }
  return str;
}
inline Field UnitToField(const std::string &x) {
  uint64_t v = 0; int sh = 0;
  const char *p = x.c_str() + 1;
  while (true) { char *e; v |= (uint64_t)strtoul(p, &e, 10) << sh; sh += 13; if (*e != ',') break; p = e + 1; }
  return F(v);
}
// The coefficients with which the parties combined the messages
// msgs[l][party][i] (l in 0..L-1, degree 2d), from the lists of values that
// start at position from[i][j] of the streams; empty if they cannot be found.
inline V<Field> FindCoefficients(const Rep &dbl, int U, const V<V<V<Shr>>> &msgs, const V<V<V<std::string>>> &str, const V<V<size_t>> &from) {
  const int n = (int)str.size();
  V<V<Field>> A;
  V<Field> B;
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) {
      V<std::string> s(str[i][j].begin() + std::min(from[i][j], str[i][j].size()), str[i][j].end());
      if (s.size() < 4) continue;
      uint32_t len = 0;
      for (int q = 0; q < 4; q++) len |= (uint32_t)atoi(s[q].c_str() + 1) << (8 * q);
      if (len == 0 || s.size() < 4 + len) continue;
      Field sum(0);
      for (uint32_t q = 0; q < len; q++) sum += UnitToField(s[4 + q]);
      V<Field> row;
      auto idx = dbl.IndexSetFor(i);
      for (size_t l = 0; l < msgs.size(); l++) {
        Field t(0);
        for (size_t pos = 0; pos < idx.size(); pos++) {
          auto set = dbl.Combination(idx[pos]);
          if (set[0] != i || std::find(set.begin(), set.end(), j) != set.end()) continue;
          for (int q = 0; q < U; q++) t += msgs[l][i][q][pos];
        }
        row.push_back(t);
      }
      A.push_back(row);
      B.push_back(sum);
    }
  V<Field> coef;
  bool ok = Solve(A, B, coef, msgs.size());
  if (!ok) coef.clear();
  return coef;
}
#endif
