// Drives the secret sharing code and records what it does.
//   h_rss OUT share|detect|linear|mul|comb|serial
#include <algorithm>
#include <numeric>
#include <set>
#include "common.h"
#include "values.h"
#include "frn/shr.h"

using namespace vh;
using frn::Shr;
using Rep = frn::lib::secret_sharing::Replicator<Field>;
using frn::lib::primitives::PRG;
typedef std::pair<int, int> NT;

static std::vector<NT> ShareCfgs() {
  std::vector<NT> v = {{2, 1}, {3, 1}, {3, 2}, {4, 1}, {4, 2}, {4, 3}, {5, 1}, {5, 2}, {5, 4}, {6, 2}, {6, 3},
                       {7, 2}, {7, 3}, {7, 5}, {8, 2}, {9, 3}, {10, 3}, {11, 2}, {12, 1}, {11, 4}, {13, 4}, {16, 5}};
  if (Thorough()) for (NT c : std::vector<NT>{{8, 4}, {10, 5}, {14, 4}, {16, 2}, {20, 1}, {9, 7}, {16, 4}, {15, 7}}) v.push_back(c);
  return v;
}

// transposes [k][party] into [party][k]
static std::string Guard(const std::function<std::string()> &f) {
  try { return f(); } catch (const std::exception &) { return "{\"ok\":false}"; }
}
static Raw Result(const std::function<Field()> &f) {
  return Raw{Guard([&] { return "{\"ok\":true,\"v\":" + Js(f()) + "}"; })};
}

// ---------------------------------------------------------------- C01 / C02
static void Share() {
  Rng r(Seed());
  for (int n = 1; n <= 24; n++) {
    int size = 0, t = 0;
    try { auto rep = frn::CreateReplicator(n); size = rep.Size(); t = rep.Threshold(); } catch (const std::exception &) {}
    Ev("default")("n", n)("size", size)("t", t);
  }
  for (int n = 0; n <= 6; n++)
    for (int t = 0; t <= 8; t++) {
      bool ok = true;
      try { Rep rep(n, t); } catch (const std::exception &) { ok = false; }
      Ev("create")("n", n)("t", t)("ok", ok);
    }
  for (NT c : std::vector<NT>{{7, 0}, {7, 7}, {7, 8}, {10, 10}, {10, 11}, {3, 70}, {2, 65}, {1, 100}, {0, 70}, {16, 16},
                              {16, 17}, {16, 15}, {12, 64}, {20, 19}, {30, 1}, {40, 39}, {64, 1}, {64, 63}}) {
    bool ok = true;
    try { Rep rep(c.first, c.second); } catch (const std::exception &) { ok = false; }
    Ev("create")("n", c.first)("t", c.second)("ok", ok);
  }
  for (NT c : ShareCfgs()) {
    Rep rep(c.first, c.second);
    const int big = rep.AdditiveShareSize() * c.first > 1500, huge = rep.AdditiveShareSize() > 300;
    Ev("session")("n", c.first)("t", c.second)("size", rep.Size())("threshold", rep.Threshold())(
        "add", rep.AdditiveShareSize())("share", rep.ShareSize())("bytes", rep.ShareSizeBytes());
    auto prg = MakePrg(r.next());
    auto single = [&](const Field &x) {
      PRG before = prg;
      auto s = rep.Share(x, prg);
      Ev("share")("secret", std::vector<Field>{x})("shares", s)("rec", Result([&] { return rep.Reconstruct(s); }))(
          "det", Result([&] { return rep.ErrorDetection(s); }));
      // the same generator state with another secret
      Field y = AnyField(r);
      auto s2 = rep.Share(y, before);
      Ev("twin")("s1", x)("s2", y)("sh1", s)("sh2", s2);
    };
    auto list = [&](size_t k) {
      std::vector<Field> xs;
      for (size_t i = 0; i < k; i++) xs.push_back((i && r.chance(20)) ? xs[i - 1] : AnyField(r));
      auto s = rep.Share(xs, prg);
      std::vector<Raw> rec, det;
      for (size_t i = 0; i < k; i++) {
        std::vector<Shr> one;
        for (auto &p : s) if (i < p.size()) one.push_back(p[i]);
        if (one.size() != (size_t)c.first) { rec.push_back(Raw{"{\"ok\":false}"}); det.push_back(Raw{"{\"ok\":false}"}); continue; }
        rec.push_back(Result([&] { return rep.Reconstruct(one); }));
        det.push_back(Result([&] { return rep.ErrorDetection(one); }));
      }
      Ev("sharelist")("secrets", xs)("shares", s)("rec", rec)("det", det);
    };
    if (!big) for (uint64_t b : Boundary61()) single(F(b));
    // the component that depends on the secret is 0, 1, -1 or another component
    for (int i = 0; i < (huge ? 0 : big ? 3 : 6); i++) {
      PRG ahead = prg;
      auto s = rep.Share(F(0), ahead);
      Field sum = F(0), last = s[c.first - 1].back();
      sum -= last;
      single(sum + (i == 0 ? F(0) : i == 1 ? F(1) : i == 2 ? -F(1) : i == 3 ? s[0][0] : i == 4 ? -s[0][0] : Plain(r)));
    }
    for (int i = 0; i < (huge ? 1 : big ? 3 : 12); i++) single(AnyField(r));
    if (huge) { list(2); continue; }
    for (size_t k : std::vector<size_t>{0, 1, 2, 3, 7}) list(k);
    for (int i = 0; i < 3; i++) single(F(0));
    list(4);
    if (!big) { list(17); list(Thorough() ? 700 : 70); }
    if (c == NT{4, 1}) list(Thorough() ? 5000 : 1500);
    if (c == NT{3, 1} || c == NT{2, 1}) {      // every small length, and around the powers of two
      for (size_t k = 5; k < 36; k++) list(k);
      for (size_t b = 64; b <= 1024; b *= 2) for (size_t k : {b - 1, b, b + 1}) list(k);
    }
    single(AnyField(r));
  }
}

// ---------------------------------------------------------------------- C03
static void Detect() {
  Rng r(Seed() ^ 0xD);
  auto show = [&](const Rep &rep, const Field &orig, const std::vector<Shr> &s, const std::vector<int> &bad) {
    Ev("detect")("secret", orig)("shares", s)("bad", bad)("det", Result([&] { return rep.ErrorDetection(s); }));
  };
  // every set of copies of every component altered (n = 3, 4): TLC's corruption
  // pattern space of MCRss with deltas 0/1
  for (NT c : std::vector<NT>{{3, 1}, {3, 2}, {2, 1}, {4, 1}, {4, 3}}) {
    Rep rep(c.first, c.second);
    Ev("session")("n", c.first)("t", c.second);
    auto prg = MakePrg(r.next());
    Field x = AnyField(r);
    auto base = rep.Share(x, prg);
    size_t bits = c.first * rep.ShareSize();
    for (uint64_t m = 0; m < (1ULL << bits); m++) {
      auto s = base;
      std::set<int> bad;
      for (size_t b = 0; b < bits; b++)
        if (m >> b & 1) { s[b / rep.ShareSize()][b % rep.ShareSize()] += F(1); bad.insert(b / rep.ShareSize()); }
      show(rep, x, s, std::vector<int>(bad.begin(), bad.end()));
    }
  }
  for (NT c : ShareCfgs()) {
    Rep rep(c.first, c.second);
    const bool huge = rep.AdditiveShareSize() > 300;
    Ev("session")("n", c.first)("t", c.second);
    auto prg = MakePrg(r.next());
    const int n = c.first, sz = rep.ShareSize();
    auto pert = [&](Field &f) {      // small, large, or bit-level change
      uint64_t k = r.below(7);
      if (k == 0) f += F(1);
      else if (k == 1) f -= F(1);
      else if (k == 2) f += F(1ULL << 32);
      else if (k == 3) f += F(1ULL << 60);
      else if (k == 4) f = -f;
      else if (k == 5) f = F(r.next());
      else f += F(1ULL << r.below(61));
    };
    auto share = [&](Field &x) { x = AnyField(r); return rep.Share(x, prg); };
    Field x;
    for (int p = 0; p < n; p++) {    // each copy of each component of each party alone
      for (int j = 0; j < sz; j++) {
        if (huge && !(j == sz - 1 && p >= n - 2) && r.below((uint64_t)(n * sz)) > 2) continue;
        if (sz > 20 && j != 0 && j != sz - 1 && r.below(sz) > 12) continue;
        auto s = share(x); pert(s[p][j]); show(rep, x, s, {p});
      }
    }
    const int rounds = huge ? 2 : Thorough() ? 200 : 40;
    for (int i = 0; i < rounds; i++) {
      auto s = share(x);
      // a random group of parties of any size alters random entries
      int k = r.below(n + 1);
      std::set<int> bad;
      while ((int)bad.size() < k) bad.insert(r.below(n));
      for (int p : bad) {
        int m = 1 + r.below(sz);
        for (int q = 0; q < m; q++) pert(s[p][r.below(sz)]);
      }
      show(rep, x, s, std::vector<int>(bad.begin(), bad.end()));
    }
    for (int i = 0; i < rounds; i++) {
      // the colluding parties apply the same consistent change
      auto s = share(x);
      int comp = r.below(rep.AdditiveShareSize());
      auto holders = rep.Combination(comp);
      int k = 1 + r.below(holders.size());
      std::vector<int> bad(holders.begin(), holders.begin() + k);
      if (r.chance(50)) bad.assign(holders.end() - k, holders.end());
      Field d = F(1 + r.below(1ULL << 60));
      for (int p : bad) {
        auto is = rep.IndexSetFor(p);
        int pos = std::find(is.begin(), is.end(), comp) - is.begin();
        s[p][pos] += d;
      }
      show(rep, x, s, bad);
    }
    for (int i = 0; i < rounds; i++) {
      // changes that cancel out in every sum: inside a party, between parties
      auto s = share(x);
      Field d = F(1 + r.below(1ULL << 60));
      int p = r.below(n), q = r.below(n);
      int a = r.below(sz), b = r.below(sz);
      s[p][a] += d;
      s[q][b] -= d;
      std::set<int> bad{p, q};
      show(rep, x, s, std::vector<int>(bad.begin(), bad.end()));
      auto u = share(x);
      std::swap(u[p], u[q]);
      show(rep, x, u, std::vector<int>(bad.begin(), bad.end()));
      auto w = share(x);
      std::reverse(w[p].begin(), w[p].end());
      show(rep, x, w, {p});
    }
    show(rep, x, share(x), {});
    // components that are 0, 1, -1 and the like, replaced by such values
    for (int i = 0; i < (huge ? 2 : 3 * rounds); i++) {
      x = r.chance(50) ? Plain(r) : AnyField(r);
      auto s = Made(r, rep, x);
      std::set<int> bad;
      int k = (int)r.below(r.chance(70) ? 3 : n + 1);
      while ((int)bad.size() < std::min(k, n)) {
        int p = (int)r.below(n);
        bad.insert(p);
        s[p][r.below(sz)] = r.chance(30) ? s[r.below(n)][r.below(sz)] : Plain(r);
      }
      show(rep, x, s, std::vector<int>(bad.begin(), bad.end()));
    }
  }
}

// ---------------------------------------------------------------------- C04
static void Linear() {
  Rng r(Seed() ^ 0x4);
  std::vector<NT> cfgs = {{2, 1}, {3, 1}, {4, 1}, {5, 1}, {5, 2}, {6, 1}, {6, 2}, {7, 2}, {7, 3}, {8, 2}, {9, 2}, {9, 4}, {10, 3}, {13, 4}};
  if (Thorough()) { cfgs.push_back({11, 3}); cfgs.push_back({13, 2}); cfgs.push_back({14, 4}); }
  for (NT c : cfgs) {
    const int n = c.first, d = c.second;
    if (2 * d >= n) continue;
    std::vector<frn::ShrManipulator> man;
    for (int i = 0; i < n; i++) man.emplace_back(i, d, n);
    Rep rep(n, d);
    auto prg = MakePrg(r.next());
    Ev("session")("n", n)("t", d)("sizes", [&] { std::vector<int> v; for (auto &m : man) v.push_back(m.ShareSize()); return v; }());
    const int R = 3;
    std::vector<std::vector<Shr>> reg(R);
    const bool big = rep.AdditiveShareSize() * n > 400;
    const int steps = c == NT{3, 1} ? 800 : rep.AdditiveShareSize() > 300 ? 16 : (big ? 40 : 160) * (Thorough() ? 6 : 1);
    for (int i = 0; i < R; i++) {
      Field x = AnyField(r);
      reg[i] = rep.Share(x, prg);
      Ev("load")("dst", i)("secret", x)("shares", reg[i]);
    }
    for (int k = 0; k < steps; k++) {
      int op = r.below(8), a = r.below(R), b = r.below(R), dst = r.below(R);
      Field cst = r.chance(40) ? Plain(r) : AnyField(r);
      if (c == NT{3, 1} && k < 8 * 81) {      // every operation with every small constant and its negation
        op = k % 8;
        cst = k / 8 < 41 ? F(k / 8) : -F(k / 8 - 40);
      }
      if (r.chance(15)) {               // a value the operand holds, or its negation
        const Shr &of = reg[a][r.chance(50) ? 0 : r.below(n)];
        if (!of.empty()) { cst = of[r.chance(50) ? 0 : r.below(of.size())]; if (r.chance(30)) cst = -cst; }
      }
      if (r.chance(10)) {
        Field x = AnyField(r);
        reg[dst] = r.chance(30) ? Made(r, rep, x) : rep.Share(x, prg);
        Ev("load")("dst", dst)("secret", x)("shares", reg[dst]);
        continue;
      }
      static const char *names[] = {"add", "sub", "addc", "cadd", "subc", "csub", "mulc", "cmul"};
      std::vector<Shr> res(n);
      std::vector<Shr> A = reg[a], B = reg[b];
      Field cst2 = cst;
      const bool alias = r.chance(50);
      for (int p = 0; p < n; p++) {
        // the same object as both operands; a constant that is an entry of the operand
        Shr &second = alias && a == b ? A[p] : B[p];
        auto at = std::find(A[p].begin(), A[p].end(), cst);
        const Field &cc = alias && at != A[p].end() ? *at : cst2;
        switch (op) {
          case 0: res[p] = man[p].Add(A[p], second); break;
          case 1: res[p] = man[p].Subtract(A[p], second); break;
          case 2: res[p] = man[p].AddConstant(A[p], cc); break;
          case 3: res[p] = man[p].AddConstant(cc, A[p]); break;
          case 4: res[p] = man[p].SubtractConstant(A[p], cc); break;
          case 5: res[p] = man[p].SubtractConstant(cc, A[p]); break;
          case 6: res[p] = man[p].MultiplyConstant(A[p], cc); break;
          case 7: res[p] = man[p].MultiplyConstant(cc, A[p]); break;
        }
      }
      // A and B after the calls: operands must not have been modified
      Ev("op")("op", std::string(names[op]))("dst", dst)("a", a)("b", b)("c", cst)("kept", cst2 == cst)(
          "res", res)("a2", A)("b2", B)("rec", Result([&] { return rep.Reconstruct(res); }));
      reg[dst] = res;
    }
  }
}

// ---------------------------------------------------------------------- C05
static void Mul() {
  Rng r(Seed() ^ 0x5);
  std::vector<NT> cfgs = {{3, 1}, {4, 1}, {5, 1}, {5, 2}, {6, 1}, {6, 2}, {7, 1}, {7, 2}, {7, 3}, {8, 2}, {8, 3}, {9, 2}, {10, 3}, {12, 1}, {13, 4}};
  if (Thorough()) for (NT c : std::vector<NT>{{9, 3}, {9, 4}, {11, 2}, {11, 3}, {16, 1}, {13, 2}, {14, 4}}) cfgs.push_back(c);
  for (NT c : cfgs) {
    const int n = c.first, d = c.second;
    std::vector<frn::ShrManipulator> man;
    for (int i = 0; i < n; i++) man.emplace_back(i, d, n);
    Rep rep(n, d), dbl(n, 2 * d);
    auto prg = MakePrg(r.next());
    Ev("session")("n", n)("t", d);
    const bool big = rep.AdditiveShareSize() * n > 400;
    auto show = [&](const Field &x, const Field &y, const std::vector<Shr> &X, const std::vector<Shr> &Y) {
      std::vector<Shr> dd(n);
      std::vector<Field> add(n);
      auto X2 = X, Y2 = Y;
      for (int p = 0; p < n; p++) {
        auto &second = X2[p] == Y2[p] && r.chance(60) ? X2[p] : Y2[p];
        dd[p] = man[p].MultiplyToDoubleDegree(X2[p], second);
        add[p] = man[p].MultiplyToAdditive(X2[p], second);
      }
      Ev("mul")("x", x)("y", y)("xs", X)("ys", Y)("xs2", X2)("ys2", Y2)("dd", dd)("add", add);
    };
    const bool huge = rep.AdditiveShareSize() > 300;
    const int rounds = huge ? 2 : (big ? 8 : 30) * (Thorough() ? 5 : 1);
    for (int i = 0; i < rounds; i++) {
      Field x = AnyField(r), y = AnyField(r);
      if (i == 0 && !huge) x = y = F(0);
      if (i == 1) x = y = F((1ULL << 61) - 2);
      if (i == 2) { x = F(1); y = F(0); }
      auto X = rep.Share(x, prg), Y = rep.Share(y, prg);
      if (i % 5 == 3) Y = X, y = x;
      if (i % 5 == 4) { X = Made(r, rep, x); if (r.chance(70)) Y = Made(r, rep, y); }
      show(x, y, X, Y);
    }
    // the tables by which the parties multiply and reconstruct
    if (rep.ShareSize() <= 21) {
      std::vector<std::vector<std::vector<int>>> tab(n), cidx(n);
      std::vector<std::vector<Raw>> rec(n);
      for (int p = 0; p < n; p++) {
        for (auto &e : man[p].GetTableMult()) tab[p].push_back({(int)e.src_a, (int)e.src_b, (int)e.dest_c, (int)e.first_party});
        for (size_t a = 0; a < rep.ShareSize(); a++) {
          cidx[p].emplace_back();
          for (size_t b = 0; b < rep.ShareSize(); b++) cidx[p].back().push_back(man[p].ComputeIndexForDoubleMultiplication(a, b));
        }
        for (auto &e : man[p].GetTableRec()) rec[p].push_back(Raw{"{\"value\":" + Js(e.value_or_hash == frn::VALUE) + ",\"to\":" + Js(std::vector<int>(e.party_set.begin(), e.party_set.end())) + "}"});
      }
      Ev("tables")("tab", tab)("cidx", cidx)("rec", rec);
    }
    // single pairs of components: one non-zero component on each side
    const int K = rep.AdditiveShareSize();
    auto unit = [&](int comp, const Field &v) {
      std::vector<Shr> s(n);
      for (int p = 0; p < n; p++)
        for (int i : rep.IndexSetFor(p)) s[p].push_back(i == comp ? v : F(0));
      return s;
    };
    const int pairs = huge ? 3 : K <= 7 ? K * K : (Thorough() ? 300 : 25);
    for (int k = 0; k < pairs; k++) {
      int a = K <= 7 ? k / K : (int)r.below(K), b = K <= 7 ? k % K : (int)r.below(K);
      Field x = F(2 + r.below(1ULL << 60)), y = F(2 + r.below(1ULL << 60));
      show(x, y, unit(a, x), unit(b, y));
    }
  }
}

// ---------------------------------------------------------------------- C27
static void Comb() {
  using namespace frn::lib::secret_sharing;
  Rng r(Seed() ^ 0x27);
  // every binomial of 64 bits up to row 62, split in two numbers below 2^31 each
  auto split = [](unsigned long long v) { return std::vector<long>{(long)(v / 1000000000ULL), (long)(v % 1000000000ULL)}; };
  for (int m = 0; m <= 62; m++)
    for (int k = 0; k <= m + 2; k++) {
      auto v = split(Binom(m, k));
      Ev("binom")("m", m)("k", k)("hi", v[0])("lo", v[1]);
    }
  for (int m : {63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 1000, 4096, 32767, 65535, 65536, 65537})
    for (int k : {1, 2, 3, m}) {
      Ev("binomstep")("m", m)("k", k)("v", split(Binom(m, k)))("left", split(Binom(m - 1, k - 1)))("above", split(Binom(m - 1, k)))(
          "mirror", split(Binom(m, m - k)));
    }
  const int maxm = Thorough() ? 14 : 10;
  for (int m = 1; m <= maxm; m++)
    for (int k = 0; k <= m; k++) {
      std::vector<std::vector<int>> walk;
      std::vector<int> c(k);
      std::iota(c.begin(), c.end(), 0);
      size_t guard = 0;
      do { walk.push_back(c); } while (NextCombination(c, m, k) && ++guard < 20000);
      // stepping the last one again must keep reporting the end
      std::vector<int> after = c;
      bool again = NextCombination(after, m, k);
      Ev("walk")("m", m)("k", k)("seq", walk)("again", again)("after", after);
      if (k > 0) {
        std::vector<std::pair<int, std::vector<int>>> nth;
        size_t N = walk.size();
        for (size_t i = 0; i < N; i++) {
          if (N > 40 && i != 0 && i != N - 1 && i != N / 2 && r.below(N) > 12) continue;
          std::vector<int> d(k, 7);
          NthCombination(d, i, m);
          nth.push_back({(int)i, d});
        }
        Ev("nth")("m", m)("k", k)("nth", nth);
      }
    }
  std::vector<NT> cfgs;
  for (int n = 2; n <= 9; n++) for (int t = 1; t < n; t++) cfgs.push_back({n, t});
  for (NT c : std::vector<NT>{{10, 3}, {10, 6}, {12, 2}, {13, 1}, {13, 4}, {16, 1}, {16, 2}, {16, 14}, {11, 5}}) cfgs.push_back(c);
  if (Thorough()) for (NT c : std::vector<NT>{{16, 5}, {14, 4}, {14, 8}, {16, 10}, {15, 4}}) cfgs.push_back(c);
  for (NT c : cfgs) {
    Rep rep(c.first, c.second);
    std::vector<std::vector<int>> combs, idx;
    std::vector<int> rev;
    for (size_t i = 0; i < rep.AdditiveShareSize(); i++) {
      combs.push_back(rep.Combination(i));
      int back = -1;
      try { back = rep.RevComb(combs.back()); } catch (const std::exception &) {}
      rev.push_back(back);
    }
    for (int p = 0; p < c.first; p++) idx.push_back(rep.IndexSetFor(p));
    Ev("table")("n", c.first)("t", c.second)("size", rep.Size())("threshold", rep.Threshold())(
        "add", rep.AdditiveShareSize())("share", rep.ShareSize())("combs", combs)("rev", rev)("idx", idx)(
        "diff", rep.DifferenceSize());
  }
  auto subset = [&](int m, int pct) { std::vector<int> v; for (int i = 0; i < m; i++) if (r.chance(pct)) v.push_back(i * 3 - 5); return v; };
  auto sets = [&](const std::vector<int> &a, const std::vector<int> &b) {
    std::vector<int> in, di;
    Intersection(a, b, [&](int i) { in.push_back(i); });
    Difference(a, b, [&](int i) { di.push_back(i); });
    Ev("sets")("a", a)("b", b)("inter", in)("diff", di);
  };
  // all pairs of subsets of a 5-element set, then random larger ones
  for (int x = 0; x < 32; x++)
    for (int y = 0; y < 32; y++) {
      std::vector<int> a, b;
      for (int i = 0; i < 5; i++) { if (x >> i & 1) a.push_back(i); if (y >> i & 1) b.push_back(i); }
      sets(a, b);
    }
  for (int i = 0; i < (Thorough() ? 2000 : 300); i++) sets(subset(5 + r.below(40), 1 + r.below(99)), subset(5 + r.below(40), 1 + r.below(99)));
}

int main(int argc, char **argv) {
  if (argc < 3) return 3;
  Open(argv[1]);
  std::string m = argv[2];
  if (m == "share") Share();
  else if (m == "detect") Detect();
  else if (m == "linear") Linear();
  else if (m == "mul") Mul();
  else if (m == "comb") Comb();
  else return 3;
  Ev("end");
  Flush();
  return 0;
}
