// Runs the protocols between simulated parties and records every message and
// every result.   h_proto OUT corr|mult|check|input [schedule file: these executions only]
#include "protos.h"

// ---------------------------------------------------------------------- C06
static void Corr() {
  Rng r(Seed() ^ 0x6);
  for (ND c : ProtoCfgs()) {
    const int n = c.first, d = c.second;
    Rep rp(n, d);
    const bool big = rp.ShareSize() > 50;
    for (int epoch = 0; epoch < (big ? 1 : 2); epoch++) {
      Ev("session")("kind", "corr")("n", n)("d", d);
      V<Correlator> cs;
      for (int p = 0; p < n; p++) cs.emplace_back(p, rp);
      for (int again = 0; again < (epoch ? 2 : 1); again++) {
        auto keys = MakeKeys(r, rp, n, d);
        for (int p = 0; p < n; p++) Install(cs[p], keys, p, d);
        const int calls = big ? 4 : n == 4 ? (Thorough() ? 600 : 60) : n == 3 && again == 0 ? (Thorough() ? 5000 : 560) : 12;
        for (int k = 0; k < calls; k++) {
          if (r.chance(25)) {
            bool zero = r.chance(50);
            V<Shr> sh;
            V<Field> add;
            V<V<Shr>> rep;
            for (int p = 0; p < n; p++) {
              if (zero) {
                auto z = cs[p].GenZeroShareDummy();
                add.push_back(z.add_share);
                rep.push_back(z.rep_add_shares);
              } else {
                auto z = cs[p].GenRandomShareDummy();
                sh.push_back(z.rep_share);
                add.push_back(z.add_share);
                rep.push_back(z.rep_add_shares);
              }
            }
            Ev("dummy")("sh", sh)("add", add)("rep", rep)("zero", zero);
          }
          V<Shr> sh(n);
          V<Field> add(n);
          V<V<Shr>> rep(n);
          V<int> order(n);
          for (int p = 0; p < n; p++) order[p] = p;
          for (int p = n - 1; p > 0; p--) std::swap(order[p], order[r.below(p + 1)]);
          for (int p : order) {
            // a copied correlator continues from the same point
            if (r.chance(10)) { Correlator copy = cs[p]; copy.GenRandomShare(); }
            auto z = cs[p].GenRandomShare();
            sh[p] = z.rep_share; add[p] = z.add_share; rep[p] = z.rep_add_shares;
          }
          Ev("rand")("sh", sh)("add", add)("rep", rep);
        }
      }
    }
  }
}

// ------------------------------------------------------------------ C07 - C09
struct Plan { int n, d; V<V<int>> objs; };      // per protocol object its batches

// Of a long list the first and last entries, those around powers of two, and a few more.
static bool Sampled(int k, int total, bool sample) {
  if (!sample || k < 3 || k >= total - 3) return true;
  for (int b = 8; b <= 1 << 20; b *= 2) if (k >= b - 1 && k <= b + 1) return true;
  return k % 997 == 5;
}

static void MultSession(Rng &r, int n, int d, const V<V<int>> &objs, bool check, const Sched *sched = nullptr, bool sample = false) {
  Rep rp(n, d);
  Sim sim(n, r.next());
  SetSchedule(sim, r, sched);
  int total = 0;
  for (auto &o : objs) for (int b : o) total += b;
  V<int> flat;
  for (auto &o : objs) for (int b : o) flat.push_back(b);
  Ev("session")("kind", "mult")("n", n)("d", d)("batches", flat)("sample", sample);
  // the factors and their shares
  auto prg = MakePrg(r.next());
  V<Field> x(total), y(total);
  V<V<Shr>> xs(total), ys(total);
  const bool squares = r.chance(20), repeats = r.chance(30);
  for (int k = 0; k < total; k++) {
    auto one = [&](V<Field> &v, V<V<Shr>> &s) {
      v[k] = k && repeats && r.chance(50) ? v[k - 1] : AnyField(r);
      if (k && v[k] == v[k - 1] && r.chance(60)) s[k] = s[k - 1];
      else if (r.chance(10)) s[k] = Made(r, rp, v[k]);
      else s[k] = rp.Share(v[k], prg);
    };
    one(x, xs);
    one(y, ys);
    if (squares || r.chance(15)) { y[k] = x[k]; ys[k] = squares || r.chance(50) ? xs[k] : rp.Share(y[k], prg); }
  }
  V<Keys> keys;
  for (size_t o = 0; o < objs.size(); o++) keys.push_back(MakeKeys(r, rp, n, d));
  V<ShrManipulator> mp;
  for (int p = 0; p < n; p++) mp.emplace_back(p, d, n);
  V<CheckData> cd(n, CheckData(d));
  V<V<Shr>> out(n);
  V<V<int>> outSizes(n);
  V<uint64_t> seeds(n);
  for (auto &s : seeds) s = r.next();
  for (int p = 0; p < n; p++) {
    sim.prog[p] = [&, p] {
      Rng pr(seeds[p]);
      auto net = std::make_shared<SimNetwork>(sim, p, n, rp.ShareSize());
      int k = 0;
      for (size_t o = 0; o < objs.size(); o++) {
        Correlator c(p, rp);
        Install(c, keys[o], p, d);
        Mult m(net, rp, mp[p], c, cd[p]);
        for (int b : objs[o]) {
          // one by one or as lists, in any cut
          int i = 0;
          while (i < b || (b == 0 && pr.chance(50))) {
            if (b == 0) { m.Prepare(V<Shr>{}, V<Shr>{}); break; }
            if (pr.chance(50)) { m.Prepare(xs[k + i][p], ys[k + i][p]); i++; }
            else {
              int len = 1 + (int)pr.below(b - i);
              V<Shr> a, bb;
              for (int j = 0; j < len; j++) { a.push_back(xs[k + i + j][p]); bb.push_back(ys[k + i + j][p]); }
              m.Prepare(a, a == bb && pr.chance(70) ? a : bb);
              i += len;
            }
          }
          auto res = m.Run();
          outSizes[p].push_back((int)res.size());
          for (auto &s : res) out[p].push_back(s);
          k += b;
        }
      }
      Ev("done")("p", p);
    };
  }
  if (!sim.Run()) return;
  Ev("sizes")("out", outSizes);
  // what each party had: its product share and its share of the mask, from a
  // second correlator with the same generators
  int k = 0;
  for (size_t o = 0; o < objs.size(); o++) {
    V<Correlator> twin;
    for (int p = 0; p < n; p++) { twin.emplace_back(p, rp); Install(twin[p], keys[o], p, d); }
    for (int b : objs[o])
      for (int i = 0; i < b; i++, k++) {
        V<Field> prod, mask;
        V<Shr> z;
        for (int p = 0; p < n; p++) {
          prod.push_back(mp[p].MultiplyToAdditive(xs[k][p], ys[k][p]));
          mask.push_back(twin[p].GenRandomShare().add_share);
          z.push_back(k < (int)out[p].size() ? out[p][k] : Shr());
        }
        if (Sampled(k, total, sample)) Ev("mul")("k", k)("x", x[k])("y", y[k])("prod", prod)("mask", mask)("z", z);
      }
  }
  if (!check) { Ev("fin")("total", total); return; }
  V<Raw> lens;
  for (int p = 0; p < n; p++) {
    V<int> rl;
    for (auto &l : cd[p].shares_recv_by_p1) rl.push_back((int)l.size());
    lens.push_back(Raw{"{\"counter\":" + Js(cd[p].counter) + ",\"sent\":" + Js(cd[p].shares_sent_to_p1.size()) + ",\"back\":" +
                       Js(cd[p].values_recv_from_p1.size()) + ",\"recv\":" + Js(rl) + ",\"msgs\":" + Js(cd[p].msgs.size()) + "}"});
  }
  Ev("cdlen")("p", lens);
  auto at = [](const V<Field> &v, int i) { return i < (int)v.size() ? v[i] : Field(0); };
  for (int i = 0; i < total; i++) {
    if (!Sampled(i, total, sample)) continue;
    V<Field> sent, back, recv;
    V<V<Shr>> msgs;
    for (int p = 0; p < n; p++) {
      sent.push_back(at(cd[p].shares_sent_to_p1, i));
      back.push_back(at(cd[p].values_recv_from_p1, i));
      msgs.push_back(i < (int)cd[p].msgs.size() ? cd[p].msgs[i] : V<Shr>());
    }
    for (auto &l : cd[0].shares_recv_by_p1) recv.push_back(at(l, i));
    Ev("cd")("k", i)("sent", sent)("back", back)("recv", recv)("msgs", msgs);
  }
  Ev("fin")("total", total);
}
static void MultAll(bool check) {
  Rng r(Seed() ^ 0x7);
  auto run = [&](int n, int d, const V<V<int>> &objs) { MultSession(r, n, d, objs, check); };
  for (auto &c : gSchedules) MultSession(r, c.n, c.d, {c.param}, check, &c);
  if (gOnlySchedules) return;
  for (int i = 0; i < 12; i++) run(4, 1, {{2, 1}});
  run(4, 1, {{0}}); run(4, 1, {{1}}); run(4, 1, {{0, 3, 0, 2}}); run(4, 1, {{1, 0, 1}, {2}, {0, 2}});
  run(4, 1, {{3, 3, 3}}); run(4, 1, {{50, 1, 17}}); run(4, 1, {{300}}); run(4, 1, {{257, 2}, {1, 256}});
  run(4, 1, {{Thorough() ? 3000 : 1025, 1}});
  // every small size, and around the powers of two, alone and after another batch
  for (int k = 1; k < 36; k++) run(4, 1, {{k}});
  { V<V<int>> o; for (int k = 1; k < 36; k++) o.push_back({1 + (int)r.below(35), k}); run(4, 1, o); }
  for (int b = 64; b <= 512; b *= 2) { run(3, 1, {{b - 1}, {b}, {b + 1}}); run(3, 1, {{b, b}}); }
  run(3, 1, {{1023, 1}, {1024, 1}});
  for (ND c : ProtoCfgs()) {
    Rep rp(c.first, c.second);
    const bool big = rp.ShareSize() > 50, huge = rp.ShareSize() > 300;
    for (int i = 0; i < (big ? 1 : 3); i++) {
      V<V<int>> objs;
      int no = 1 + (int)r.below(3);
      for (int o = 0; o < no; o++) {
        V<int> b;
        int nb = 1 + (int)r.below(3);
        for (int j = 0; j < nb; j++) b.push_back(huge ? 1 : big ? (int)r.below(3) : (int)r.below(6));
        objs.push_back(b);
      }
      run(c.first, c.second, objs);
    }
    if (!big) run(c.first, c.second, {{20, 3}});
  }
}

// ---------------------------------------------------------------------- C10
// total multiplications in the transcript; only those in `live` have messages
// other than zero (live.size() has to stay below the number of pairs).
static void CheckSession(Rng &r, int n, int d, int total, V<int> live, const Sched *sched = nullptr) {
  Rep rp(n, d);
  ShrManipulator m0(0, d, n);
  Rep dbl(n, 2 * d);
  Sim sim(n, r.next());
  SetSchedule(sim, r, sched);
  Ev("session")("kind", "check")("n", n)("d", d)("total", total)("live", live);
  const int U = 2 * d + 1;
  // consistent messages: msgs[k][i] is a sharing of degree 2d of some value
  V<CheckData> cd(n, CheckData(d));
  auto prg = MakePrg(r.next());
  V<V<V<Shr>>> msgs(live.size());      // [live][party][i]
  V<Shr> zero(U, Shr(dbl.ShareSize(), Field(0)));
  size_t li = 0;
  for (int k = 0; k < total; k++) {
    bool isLive = li < live.size() && live[li] == k;
    V<V<Shr>> mk(n);
    if (isLive) {
      for (int i = 0; i < U; i++) {
        auto s = dbl.Share(AnyField(r), prg);
        for (int p = 0; p < n; p++) mk[p].push_back(s[p]);
      }
      msgs[li++] = mk;
    }
    for (int p = 0; p < n; p++) {
      cd[p].msgs.push_back(isLive ? mk[p] : zero);
      cd[p].shares_sent_to_p1.push_back(AnyField(r));
      cd[p].values_recv_from_p1.push_back(AnyField(r));
      if (p == 0) for (auto &l : cd[p].shares_recv_by_p1) l.push_back(AnyField(r));
      cd[p].counter++;
    }
  }
  V<V<V<Field>>> vals(n, V<V<Field>>(n));
  for (int p = 0; p < n; p++) {
    sim.prog[p] = [&, p] {
      auto net = std::make_shared<SimNetwork>(sim, p, n, rp.ShareSize());
      ShrManipulator mp(p, d, n);
      Check c(net, rp, mp, cd[p]);
      c.ComputeRandomCoefficients();
      c.PrepareLinearCombinations();
      c.PrepareMsgs();
      c.ReconstructMsgs();
      Ev("done")("p", p);
    };
  }
  if (!sim.Run()) return;
  V<Field> coef = FindCoefficients(dbl, U, msgs, SentUnits(n), V<V<size_t>>(n, V<size_t>(n, 0)));
  Ev("coef")("found", coef.size() == live.size())("c", coef);
  for (size_t l = 0; l < live.size(); l++) Ev("msg")("l", l)("m", msgs[l]);
  Ev("fin")("total", total);
}
// Each multiplication in `live` has one message, 1 at one of the components that
// the first party sends to the last one, each at another place: the values sent
// are the coefficients themselves, in any order.
static void SpreadSession(Rng &r, int n, int d, int total, const std::set<int> &wanted) {
  Rep rp(n, d), dbl(n, 2 * d);
  Sim sim(n, r.next());
  SetSchedule(sim, r, nullptr);
  const int U = 2 * d + 1;
  V<std::pair<int, int>> slots;      // position of the sender, component
  for (int c = 0; c < (int)dbl.AdditiveShareSize(); c++) {
    auto set = dbl.Combination(c);
    if (set[0] == 0 && set.back() != n - 1) for (int i = 0; i < U; i++) slots.push_back({i, c});
  }
  V<int> live;
  for (int k : wanted) if (live.size() < slots.size()) live.push_back(k);
  Ev("session")("kind", "coefs")("n", n)("d", d)("total", total)("live", live.size());
  V<Shr> zero(U, Shr(dbl.ShareSize(), Field(0)));
  V<CheckData> cd(n, CheckData(d));
  for (int p = 0; p < n; p++) {
    auto idx = dbl.IndexSetFor(p);
    size_t li = 0;
    for (int k = 0; k < total; k++) {
      cd[p].msgs.push_back(zero);
      if (li < live.size() && live[li] == k) {
        auto at = std::find(idx.begin(), idx.end(), slots[li].second);
        if (at != idx.end()) cd[p].msgs.back()[slots[li].first][at - idx.begin()] = Field(1);
        li++;
      }
      cd[p].shares_sent_to_p1.push_back(Field(0));
      cd[p].values_recv_from_p1.push_back(Field(0));
      if (p == 0) for (auto &l : cd[p].shares_recv_by_p1) l.push_back(Field(0));
      cd[p].counter++;
    }
  }
  for (int p = 0; p < n; p++)
    sim.prog[p] = [&, p] {
      auto net = std::make_shared<SimNetwork>(sim, p, n, rp.ShareSize());
      ShrManipulator mp(p, d, n);
      Check c(net, rp, mp, cd[p]);
      c.ComputeRandomCoefficients();
      c.PrepareLinearCombinations();
      c.PrepareMsgs();
      c.ReconstructMsgs();
      Ev("done")("p", p);
    };
  if (!sim.Run()) return;
  Ev("fin")("i", 0)("j", n - 1);
}
static void CheckAll() {
  Rng r(Seed() ^ 0x10);
  auto run = [&](int n, int d, int total, V<int> live) { CheckSession(r, n, d, total, live); };
  auto pick = [&](int total, int k) {
    std::set<int> s;
    while ((int)s.size() < std::min(k, total)) s.insert((int)r.below(total));
    return V<int>(s.begin(), s.end());
  };
  for (auto &c : gSchedules) CheckSession(r, c.n, c.d, c.param[0], pick(c.param[0], c.n == 3 ? 1 : 2), &c);
  if (gOnlySchedules) return;
  for (int i = 0; i < 36; i++) run(4, 1, i, pick(i, 5));
  for (int t : {1, 2, 3, 7, 64, 255, 256, 257, 1000}) {
    run(4, 1, t, pick(t, 5));
    if (t > 1) { run(4, 1, t, {0, t - 1}); run(4, 1, t, {t - 1}); }
  }
  // every pair of neighbours among the first multiplications, and around
  // the powers of two: their coefficients differ
  for (int k = 0; k < 70; k += 3) run(4, 1, k + 4, {k, k + 1, k + 2, k + 3});
  for (int k : {126, 190, 254, 318, 510}) run(4, 1, k + 4, {k, k + 1, k + 2, k + 3});
  // and those of multiplications a power of two (or so) apart
  for (int k : {16, 32, 64, 100, 127, 128, 200, 256, 500, 512, 1000, 1024, 2048}) run(4, 1, 2 * k + 1, {0, 1, k, k + 1, 2 * k});
  // no two of hundreds of coefficients are equal, and none is 0
  auto span = [&](int from, int k) { std::set<int> s{0}; for (int i = from; i < from + k; i++) s.insert(i); return s; };
  for (int f : {0, 391, 782}) if (First() || r.chance(20)) SpreadSession(r, 10, 3, f + 392, span(f, 391));
  for (int i = 0; i < (Thorough() ? 6 : 1); i++) { auto p = pick(3000, 49); SpreadSession(r, 7, 2, 3000, std::set<int>(p.begin(), p.end())); }
  run(4, 1, Thorough() ? 70000 : 5000, pick(Thorough() ? 70000 : 5000, 5));
  for (ND c : ProtoCfgs()) {
    Rep rp(c.first, 2 * c.second);
    const bool big = rp.ShareSize() > 50, huge = rp.ShareSize() > 300;
    for (int i = 0; i < (big ? 1 : 4); i++) {
      int t = huge ? 1 : big ? 2 : (int)r.below(8);
      run(c.first, c.second, t, pick(t, c.first == 3 ? 1 : 3));
    }
    if (!big) run(c.first, c.second, 40, pick(40, c.first == 3 ? 1 : 3));
  }
}

// ------------------------------------------------------------------ C11, C12
static void InputSession(Rng &r, int n, int d, const V<int> &counts, const Sched *sched = nullptr, bool sample = false) {
  Rep rp(n, d);
  Sim sim(n, r.next());
  SetSchedule(sim, r, sched);
  Ev("session")("kind", "input")("n", n)("d", d)("counts", counts)("sample", sample);
  V<V<Field>> secrets(n);
  for (int i = 0; i < n; i++)
    for (int k = 0; k < counts[i]; k++) secrets[i].push_back(k && r.chance(25) ? secrets[i][k - 1] : AnyField(r));
  V<PRG> prgs;
  for (int p = 0; p < n; p++) prgs.push_back(MakePrg(r.next()));
  V<V<V<Shr>>> out(n);
  V<std::unique_ptr<InputSetup::Correlator>> twin(n);
  V<uint64_t> seeds(n);
  for (auto &s : seeds) s = r.next();
  bool listForm = r.chance(50);
  for (int p = 0; p < n; p++) {
    sim.prog[p] = [&, p] {
      Rng pr(seeds[p]);
      auto net = std::make_shared<SimNetwork>(sim, p, n, rp.ShareSize());
      InputSetup setup(net, rp, prgs[p]);
      auto corr = setup.Run();
      twin[p] = std::make_unique<InputSetup::Correlator>(corr);
      Ev("setup")("p", p);
      ShrManipulator mp(p, d, n);
      Input in(net, mp, corr);
      // announcements and inputs in any order
      V<int> left = counts;
      while (true) {
        V<int> open;
        for (int i = 0; i < n; i++) if (left[i]) open.push_back(i);
        if (open.empty()) break;
        int i = pr.pick(open);
        int k = pr.chance(40) ? 1 : 1 + (int)pr.below(left[i]);
        int from = counts[i] - left[i];
        if (i == p) {
          if (listForm) in.Prepare(V<Field>(secrets[p].begin() + from, secrets[p].begin() + from + k));
          else for (int j = 0; j < k; j++) in.Prepare(secrets[p][from + j]);
        } else if (k == 1 && pr.chance(50)) in.PrepareToReceive(i);
        else in.PrepareToReceive(i, k);
        left[i] -= k;
        if (pr.chance(5)) { if (i == p && pr.chance(50)) in.PrepareToReceive(p, 0); else if (i == p) in.Prepare(V<Field>{}); else in.PrepareToReceive(i, 0); }
      }
      out[p] = in.Run();
      Ev("done")("p", p);
    };
  }
  if (!sim.Run()) return;
  V<V<int>> sizes;
  for (int p = 0; p < n; p++) {
    V<int> s;
    for (auto &o : out[p]) s.push_back((int)o.size());
    sizes.push_back(s);
  }
  Ev("sizes")("out", sizes);
  for (int i = 0; i < n; i++)
    for (int k = 0; k < counts[i]; k++) {
      V<Shr> z, ms;
      for (int p = 0; p < n; p++) {
        z.push_back(i < (int)out[p].size() && k < (int)out[p][i].size() ? out[p][i][k] : Shr());
        ms.push_back(twin[p]->GetMaskShare(i));
      }
      Field mask = twin[i]->GetMask();
      if (Sampled(k, counts[i], sample)) Ev("inp")("i", i)("k", k)("x", secrets[i][k])("z", z)("ms", ms)("mask", mask);
    }
  Ev("fin")("total", 0);
}
static void InputAll() {
  Rng r(Seed() ^ 0x11);
  auto run = [&](int n, int d, const V<int> &c) { InputSession(r, n, d, c); };
  for (auto &c : gSchedules) InputSession(r, c.n, c.d, c.param, &c);
  if (gOnlySchedules) return;
  for (int i = 0; i < 8; i++) run(4, 1, {2, 0, 1, 1});
  // the generators that stand for the components of a key
  V<Field> keys;
  for (auto x : Boundary61()) keys.push_back(Field(x));
  for (int b = 0; b < 61; b++) keys.push_back(Field((uint64_t)1 << b));
  Field any = AnyField(r);
  for (int b = 0; b < 61; b++) keys.push_back(any + Field((uint64_t)1 << b));
  V<Field> first, second;
  for (auto &k : keys) {
    PRG g = FieldElementToPrg(k);
    unsigned char buf[16];
    g.Next(buf, 16);
    first.push_back(Field::FromBytes(buf));
    second.push_back(Field::FromBytes(buf + 8));
  }
  Ev("keys")("keys", keys)("first", first)("second", second);
  for (int m = 0; m < 16; m++) run(4, 1, {m & 1, (m >> 1) & 1, (m >> 2) & 1, (m >> 3) & 1});
  run(4, 1, {0, 0, 0, 40}); run(4, 1, {300, 1, 0, 2}); run(4, 1, {3, 5, 257, 256});
  run(4, 1, {Thorough() ? 12000 : 600, 0, 0, 0});
  // every small number, and around the powers of two
  for (int k = 3; k < 36; k += 4) run(4, 1, {k, k + 1, k + 2, k + 3});
  for (int b = 64; b <= 1024; b *= 2) { run(3, 1, {b - 1, b, b + 1}); run(3, 1, {0, b, 0}); }
  run(3, 1, {0, 10001, 2});
  for (ND c : ProtoCfgs()) {
    Rep rp(c.first, c.second);
    const bool big = rp.ShareSize() > 50, huge = rp.ShareSize() > 300;
    for (int i = 0; i < (big ? 1 : 4); i++) {
      V<int> v;
      for (int p = 0; p < c.first; p++) v.push_back(r.chance(40) ? 0 : huge ? (int)r.below(2) : 1 + (int)r.below(big ? 1 : 4));
      run(c.first, c.second, v);
    }
  }
}

// One batch, and one party's inputs, of more than 2^16 values.
static void Large(const std::string &mode) {
  Rng r(Seed() ^ 0x1A);
  if (mode == "input") InputSession(r, 4, 1, {65600, 0, 2, 1}, nullptr, true);
  else if (mode == "check") CheckSession(r, 4, 1, 70000, {0, 256, 32768, 65536, 65792});
  else MultSession(r, 4, 1, {{65600, 3}}, mode == "cd", nullptr, true);
}

int main(int argc, char **argv) {
  if (argc < 3) return 3;
  Open(argv[1]);
  setenv("VH_TRACE", argv[1], 1);
  gKind = argv[2];
  if (gKind == "cd") gKind = "mult";
  if (argc > 3 && !strcmp(argv[3], "large")) { Large(argv[2]); Ev("end"); Flush(); return 0; }
  if (argc > 3) { LoadSchedules(argv[3]); gOnlySchedules = true; }
  std::string mode = argv[2];
  if (mode == "corr") Corr();
  else if (mode == "mult") MultAll(false);
  else if (mode == "cd") MultAll(true);
  else if (mode == "check") CheckAll();
  else if (mode == "input") InputAll();
  else return 3;
  Ev("end");
  Flush();
  return 0;
}
