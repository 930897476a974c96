// Whole computations: all parties carry out the same program of inputs, local
// operations, batches of multiplications and check phases over one network.
//   h_circ OUT circ|threads|memory|probe
// "threads": the parties are real threads, under the thread sanitizer; "memory":
// the same, under the address sanitizer.
#include "protos.h"
#include "frn/lib/math/mat.h"
#include "races.h"

namespace {
bool gThreads = false;
struct Op {
  enum Kind { IN, LIN, MUL, CHECK } kind;
  V<int> counts;                       // IN
  int lin = 0, a = 0, b = 0;           // LIN: operation and wires
  Field c;
  V<ND> pairs;                         // MUL
  int obj = 0;                         // the object that runs it
  int first = 0;                       // first new wire
};
const char *const kLin[] = {"add", "sub", "addc", "caddc", "subc", "csub", "mulc", "cmulc"};

struct Prog { int wires = 0, mults = 0, objs = 0; V<Op> ops; };

// In a sparse program only `live` multiplications have factors other than a
// wire of which all shares are zero: their coefficients can be found.
Prog MakeProg(Rng &r, int n, int steps, int maxBatch, int maxMults, int live = -1) {
  Prog g;
  const bool sparse = live >= 0;
  auto in = [&](bool some) {
    Op o; o.kind = Op::IN; o.first = g.wires;
    for (int p = 0; p < n; p++) o.counts.push_back(r.chance(45) ? 0 : (int)r.below(n <= 5 ? 5 : 3));
    if (some && std::count(o.counts.begin(), o.counts.end(), 0) == n) o.counts[r.below(n)] = 1;
    for (int c : o.counts) g.wires += c;
    g.ops.push_back(o);
  };
  in(true);
  const int zero = g.wires;
  if (sparse) {
    Op o; o.kind = Op::LIN; o.first = g.wires++; o.lin = 1; o.a = o.b = 0;
    g.ops.push_back(o);
  }
  for (int s = 0; s < steps; s++) {
    int w = (int)r.below(100);
    auto any = [&] { return r.chance(50) ? g.wires - 1 - (int)r.below(std::min(g.wires, 4)) : (int)r.below(g.wires); };
    if (w < 12) in(false);
    else if (w < 50) {
      Op o; o.kind = Op::LIN; o.first = g.wires++;
      o.lin = (int)r.below(8); o.a = o.b = 0;
      o.a = (int)r.below(o.first); o.b = r.chance(15) ? o.a : (int)r.below(o.first);
      if (r.chance(50)) o.a = o.first - 1;
      o.c = AnyField(r);
      g.ops.push_back(o);
    } else if (w < 90) {
      Op o; o.kind = Op::MUL; o.first = g.wires;
      int k = std::min((int)r.below(maxBatch + 1), maxMults - g.mults);
      for (int i = 0; i < k; i++) { 
        int a = any(), b = r.chance(15) ? a : any();
        if (sparse && !(live > 0 && r.chance(25))) (r.chance(50) ? a : b) = zero;
        else live--;
        o.pairs.push_back({a, b});
      }
      if (g.objs == 0 || r.chance(30)) g.objs++;
      o.obj = r.chance(70) ? g.objs - 1 : (int)r.below(g.objs);
      g.mults += k; g.wires += k;
      g.ops.push_back(o);
    } else { Op o; o.kind = Op::CHECK; o.first = g.wires; g.ops.push_back(o); }
  }
  if (r.chance(80)) { Op o; o.kind = Op::CHECK; o.first = g.wires; g.ops.push_back(o); }
  return g;
}

// What one thread does by itself while the others do the same.
struct Given { V<unsigned char> bytes, seed; V<Field> v; };
V<std::string> Local(const Given &g) {
  V<std::string> o;
  frn::Hash h;
  for (size_t i = 0; i < g.bytes.size(); i += 50) h.Update(g.bytes.data() + i, std::min<size_t>(50, g.bytes.size() - i));
  auto dg = h.Finalize();
  o.push_back(Js(V<unsigned char>(dg.begin(), dg.end())));
  PRG prg(g.seed.data());
  V<unsigned char> b(77);
  prg.Next(b);
  o.push_back(Js(b));
  frn::lib::math::Matrix<Field> m = frn::lib::math::create_vandermonde_matrix(g.v, 4), x(4, 3);
  for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) x(i, j) = g.v[(size_t)(i * 3 + j) % g.v.size()];
  o.push_back(m.MatMul(x).ToString());
  o.push_back(Js(frn::lib::math::vector::Dot(g.v, g.v)));
  o.push_back(g.v[0].ToString());
  o.push_back((g.v[0] / g.v[1]).ToString());
  return o;
}
void Alone(Rng &r, const Rep &rp, int p, PRG prg, const Given &g, const V<std::string> &usual) {
  for (int k = 0; k < 3; k++) {
    Field v = AnyField(r), det;
    auto z = rp.Share(v, prg);
    bool threw = false;
    try { det = rp.ErrorDetection(z); } catch (const std::exception &) { threw = true; }
    Field rec = rp.Reconstruct(z);
    Ev("alone")("p", p)("x", v)("z", z)("rec", rec)("det", det)("threw", threw)("same", Local(g) == usual);
  }
}

void Circuit(Rng &r, int n, int d, const Prog &g) {
  Rep rp(n, d), dbl(n, 2 * d);
  const int U = 2 * d + 1;
  Sim sim(n, r.next());
  SetSchedule(sim, r, nullptr);
  sim.threads = gThreads;
  Ev("session")("n", n)("d", d);
  V<ShrManipulator> mp;
  for (int p = 0; p < n; p++) mp.emplace_back(p, d, n);
  V<Keys> keys;
  for (int o = 0; o < g.objs; o++) keys.push_back(MakeKeys(r, rp, n, d));
  V<Field> secret(g.wires);
  for (auto &s : secret) s = AnyField(r);
  V<V<PRG>> prgs(g.ops.size());
  for (auto &x : prgs) for (int p = 0; p < n; p++) x.push_back(MakePrg(r.next()));
  V<V<Shr>> wire(n, V<Shr>(g.wires));
  V<CheckData> cd(n, CheckData(d));
  V<uint64_t> seeds(n);
  for (auto &s : seeds) s = r.next();
  Given given;
  V<std::string> usual;
  if (gThreads) {
    for (int i = 0; i < 300; i++) given.bytes.push_back((unsigned char)r.next());
    for (int i = 0; i < 16; i++) given.seed.push_back((unsigned char)r.next());
    for (int i = 0; i < 6; i++) given.v.push_back(Field((std::uint64_t)(1 + r.below(1000000000))));
    usual = Local(given);
  }
  for (int p = 0; p < n; p++)
    sim.prog[p] = [&, p] {
      Rng pr(seeds[p]);
      auto net = std::make_shared<SimNetwork>(sim, p, n, rp.ShareSize());
      auto &w = wire[p];
      V<std::unique_ptr<Mult>> mult(g.objs);
      for (size_t q = 0; q < g.ops.size(); q++) {
        const Op &o = g.ops[q];
        switch (o.kind) {
          case Op::IN: {
            InputSetup setup(net, rp, prgs[q][p]);
            Input in(net, mp[p], setup.Run());
            int k = o.first;
            for (int i = 0; i < n; k += o.counts[i], i++) {
              if (i == p) { for (int j = 0; j < o.counts[i]; j++) in.Prepare(secret[k + j]); }
              else in.PrepareToReceive(i, o.counts[i]);
            }
            auto res = in.Run();
            k = o.first;
            for (int i = 0; i < n; i++)
              for (int j = 0; j < o.counts[i]; j++) w[k++] = res.at(i).at(j);
            break;
          }
          case Op::LIN: {
            const Shr &a = w[o.a], &b = w[o.b];
            auto &m = mp[p];
            w[o.first] = o.lin == 0 ? m.Add(a, b) : o.lin == 1 ? m.Subtract(a, b) : o.lin == 2 ? m.AddConstant(a, o.c)
                       : o.lin == 3 ? m.AddConstant(o.c, a) : o.lin == 4 ? m.SubtractConstant(a, o.c)
                       : o.lin == 5 ? m.SubtractConstant(o.c, a) : o.lin == 6 ? m.MultiplyConstant(a, o.c) : m.MultiplyConstant(o.c, a);
            break;
          }
          case Op::MUL: {
            auto &m = mult[o.obj];
            if (!m) {
              Correlator c(p, rp);
              Install(c, keys[o.obj], p, d);
              m = std::make_unique<Mult>(net, rp, mp[p], c, cd[p]);
            }
            if (pr.chance(50)) for (auto &x : o.pairs) m->Prepare(w[x.first], w[x.second]);
            else {
              V<Shr> a, b;
              for (auto &x : o.pairs) { a.push_back(w[x.first]); b.push_back(w[x.second]); }
              m->Prepare(a, b);
            }
            auto res = m->Run();
            for (size_t j = 0; j < o.pairs.size(); j++) w[o.first + j] = res.at(j);
            break;
          }
          case Op::CHECK: {
            Check c(net, rp, mp[p], cd[p]);
            c.ComputeRandomCoefficients();
            c.PrepareLinearCombinations();
            c.PrepareMsgs();
            c.ReconstructMsgs();
            break;
          }
        }
      }
      if (gThreads) Alone(pr, rp, p, prgs[0][p], given, usual);
      Ev("done")("p", p);
    };
  if (!sim.Run()) return;
  Races();
  auto units = SentUnits(n);
  V<V<size_t>> pos(n, V<size_t>(n, 0));       // of the next phase, in every stream
  auto shares = [&](int w) { V<Shr> z; for (int p = 0; p < n; p++) z.push_back(wire[p][w]); return z; };
  V<V<V<Shr>>> msgs;
  V<ND> done;
  for (auto &o : g.ops) switch (o.kind) {
    case Op::IN: {
      Ev("pin")("counts", o.counts);
      int k = o.first;
      for (int i = 0; i < n; i++) {
        for (int j = 0; j < o.counts[i]; j++, k++) Ev("in")("w", k)("x", secret[k])("z", shares(k));
        for (int j = 0; j < n; j++) pos[i][j] += rp.ShareSize() + o.counts[i];
      }
      break;
    }
    case Op::LIN:
      Ev("lin")("op", kLin[o.lin])("a", o.a)("b", o.b)("c", o.c)("w", o.first)("z", shares(o.first));
      break;
    case Op::MUL:
      Ev("pmul")("k", o.pairs.size());
      for (size_t j = 0; j < o.pairs.size(); j++) {
        V<V<Shr>> m;
        for (int p = 0; p < n; p++) m.push_back(done.size() < cd[p].msgs.size() ? cd[p].msgs[done.size()] : V<Shr>());
        Ev("mul")("a", o.pairs[j].first)("b", o.pairs[j].second)("w", o.first + j)("z", shares(o.first + (int)j))("m", m);
        done.push_back(o.pairs[j]);
        msgs.push_back(m);
      }
      for (int i = 0; i < U; i++) pos[i][0] += o.pairs.size();
      for (int j = 0; j < n - d; j++) pos[0][j] += o.pairs.size();
      break;
    case Op::CHECK: {
      bool shaped = true;
      for (auto &a : msgs) for (auto &b : a) { shaped &= (int)b.size() == U; for (auto &c : b) shaped &= c.size() == dbl.ShareSize(); }
      // those that have messages other than zero
      V<int> live;
      V<V<V<Shr>>> lm;
      for (size_t k = 0; k < msgs.size(); k++) {
        bool z = true;
        for (auto &a : msgs[k]) for (auto &b : a) for (auto &c : b) z &= c == Field(0);
        if (!z) { live.push_back((int)k); lm.push_back(msgs[k]); }
      }
      V<Field> c;
      const bool few = shaped && lm.size() <= (n == 3 ? 1u : 4u);
      if (few && !lm.empty()) c = FindCoefficients(dbl, U, lm, units, pos);
      const bool found = few && c.size() == lm.size();
      Ev("pcheck")("found", found)("live", found ? live : V<int>())("c", c);
      // its lists end where the lengths say
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++)
        for (int q = 0; q < 2; q++) {
          auto &s = units[i][j];
          size_t &a = pos[i][j];
          if (i == j && (a == s.size() || s[a].find(',') != std::string::npos)) continue;   // nothing for oneself
          if (a + 4 > s.size()) { a = s.size(); continue; }
          size_t len = 0;
          for (int b = 3; b >= 0; b--) len = len * 256 + (size_t)atoi(s[a + b].c_str() + 1);
          a = std::min(a + 4 + len, s.size());
        }
      break;
    }
  }
  for (int w = 0; w < g.wires; w++) {
    auto z = shares(w);
    Field det;
    bool threw = false;
    try { det = rp.ErrorDetection(z); } catch (const std::exception &) { threw = true; }
    Ev("open")("w", w)("rec", rp.Reconstruct(z))("det", det)("threw", threw);
  }
  Ev("fin")("wires", g.wires);
}
}  // namespace

int main(int argc, char **argv) {
  if (argc < 3) return 3;
  const std::string mode = argv[2];
  if (mode == "probe") return Probe();
  Open(argv[1]);
  setenv("VH_TRACE", argv[1], 1);
  Rng r(Seed() ^ (mode == "memory" ? 0x2800 : 0x28));
  if (mode == "threads" || mode == "memory") {
    gThreads = true;
    for (int i = 0; i < (Thorough() ? 100 : 20); i++)
      Circuit(r, 4, 1, MakeProg(r, 4, 6 + (int)r.below(14), 4, 20));
    for (int i = 0; i < (Thorough() ? 30 : 4); i++)
      Circuit(r, 7, 2, MakeProg(r, 7, 6, 3, 10));
    Ev("end");
    Flush();
    return 0;
  }
  if (mode != "circ") return 3;
  for (int i = 0; i < (Thorough() ? 40 : 14); i++) Circuit(r, 4, 1, MakeProg(r, 4, 3 + (int)r.below(10), 3, 4));
  for (int i = 0; i < (Thorough() ? 20 : 6); i++) Circuit(r, 4, 1, MakeProg(r, 4, 5 + (int)r.below(30), 6, 60));
  for (int i = 0; i < (Thorough() ? 40 : 8); i++) Circuit(r, 4, 1, MakeProg(r, 4, 8 + (int)r.below(20), 2 + (int)r.below(12), 80, 1 + (int)r.below(4)));
  for (ND c : ProtoCfgs()) {
    Rep rp(c.first, 2 * c.second);
    const bool big = rp.ShareSize() > 50, huge = rp.ShareSize() > 300;
    if (huge && !Thorough()) continue;
    for (int i = 0; i < (big ? 1 : 3); i++)
      Circuit(r, c.first, c.second, MakeProg(r, c.first, huge ? 4 : big ? 6 : 4 + (int)r.below(12), huge ? 1 : big ? 2 : 4,
                                             huge ? 1 : big ? 3 : i ? 30 : 4, c.first > 3 && i == 1 ? 3 : -1));
  }
  Ev("end");
  Flush();
  return 0;
}
