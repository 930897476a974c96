// Networks of several parties over simulated sockets, under a controlled
// scheduler.
//   h_net OUT net|typed|bulk|serial [schedules]
#include "simos.h"
#include <sys/mman.h>
#include <iostream>
#include "frn/lib/net/builder.h"
#include "frn/lib/net/network.h"
#include "frn/tcp_network.h"
#include "script.h"
#include "values.h"
using namespace vh;
using frn::Field;
using frn::Shr;

static void NetSession(Sched &s, Rng &g, int n, int cycles, const std::vector<int> *sched) {
  SimOs os;
  gOs = &os;
  os.log = true;
  os.cap = sched ? 1000 : g.chance(20) ? 1 + g.below(3) : 4 + g.below(100);
  os.cut = g.chance(30) ? 0 : (int)g.below(80);
  int base = g.chance(10) ? 1025 : 2000 + (int)g.below(50000);
  bool same = g.chance(50);
  Streams st;
  std::vector<Script> scripts;
  for (int c = 0; c < cycles; c++) scripts.push_back(MakeScript(g, n, sched ? 0 : 2 + (int)g.below(6 * n), os.cap));
  Ev("session")("n", n)("os", "simulated");
  int connected = 0;
  std::vector<int> arrived(cycles, 0);
  for (int p = 0; p < n; p++) {
    uint64_t sd = g.next();
    int late = (int)g.below(4);
    s.Spawn([&, p, sd, late] {
      Rng r(sd);
      std::unique_ptr<net::Network> nw;
      for (int i = 0; i < late && !sched; i++) gS->Sleep();
      for (int c = 0; c < cycles; c++) {
        if (!nw || !same) nw = std::make_unique<net::Network>(BuildNet(p, n, base));
        Ev("connecting")("p", p);
        nw->Connect();
        Ev("connected")("p", p)("id", nw->LocalPeerId())("size", nw->Size());
        connected++;
        for (auto &o : scripts[c][p]) {
          if (o.k == 's' || o.k == 'b') {
            std::vector<unsigned char> d;
            if (o.k == 's') d = st.Fresh(p, o.peer, o.size);
            else {
              for (int i = 0; i < o.size; i++) d.push_back((unsigned char)r.next());
              for (int j = 0; j < n; j++) st.Append(p, j, d.data(), d.size());
            }
            Ev("nsend")("p", p)("to", o.k == 's' ? o.peer : -1)("k", o.size);
            if (o.k == 's') nw->SendTo(o.peer, d.data(), d.size());
            else nw->Broadcast(d.data(), d.size());
            std::fill(d.begin(), d.end(), 0x11);
            Ev("nsent")("p", p);
          } else if (o.k == 'r') {
            std::vector<unsigned char> b((size_t)o.size + 1, 0xAA);
            Ev("nrecving")("p", p);
            nw->RecvFrom(o.peer, b.data(), (size_t)o.size);
            Ev("nrecv")("p", p)("from", o.peer)("k", o.size)("u", st.Decode(o.peer, p, b.data(), (size_t)o.size))("past", (int)b[(size_t)o.size]);
          } else {
            arrived[c]++;
            gS->Wait([&, c] { return arrived[c] == n; }, "all have sent");
          }
        }
        gS->Wait([&, c] { return connected >= (c + 1) * n; }, "all are connected");
        Ev("closing")("p", p);
        nw->Close();
        Ev("closed")("p", p)("fds", os.Open(p));
      }
    }, true);
    s.f.back()->tag = p;
  }
  if (sched) s.schedule = *sched;
  s.Run();
  Ev("fin")("fds", (int)os.fds.size());
  gOs = nullptr;
}


static void Net(const char *schedules) {
  Rng g(Seed());
  bool big = Thorough();
  if (schedules) {
    FILE *f = fopen(schedules, "r");
    if (!f) exit(3);
    char *line = nullptr;
    size_t cap = 0;
    while (getline(&line, &cap, f) > 0) {
      std::istringstream in(line);
      int n, cycles, who;
      in >> n >> cycles;
      std::vector<int> sched;
      while (in >> who) sched.insert(sched.end(), 8, who);
      Sched s;
      s.rng = Rng(g.next());
      NetSession(s, g, n, cycles, &sched);
    }
    fclose(f);
    return;
  }
  int rounds = big ? 1500 : 150;
  for (int r = 0; r < rounds; r++) {
    Sched s;
    s.rng = Rng(g.next());
    s.policy = (int)g.below(6);
    s.spurious = g.chance(15);
    int n = r % 10 < 7 ? 2 + r % 4 : r % 10 == 7 ? 1 : r % 10 == 8 ? 6 : 7;
    if (r == rounds - 1) n = 16;
    if (r == rounds - 2) n = 10;
    NetSession(s, g, n, n > 7 ? 1 : r == 40 || r == 41 ? 9 : 1 + (int)g.below(3), nullptr);
  }
}

// ---- typed messages -------------------------------------------------------------
struct TOp { char k; int peer; int count; bool single; };  // v values, s shares, b bytes: sent; V S B: received; p print

static std::string Summary(const frn::TcpNetwork &n) {
  std::ostringstream o;
  auto old = std::cout.rdbuf(o.rdbuf());
  n.PrintCommunicationSummary();
  std::cout.rdbuf(old);
  return o.str();
}
static int Count(Rng &g, int n) {
  switch (g.below(8)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return n > 8 ? 8 : n < 6 && g.chance(30) ? (int)RoundSize(g, 9) : 20 + (int)g.below(80);
    default: return 1 + (int)g.below(6);
  }
}
static std::vector<Field> Flat(const std::vector<Shr> &s) {
  std::vector<Field> r;
  for (auto &x : s) r.insert(r.end(), x.begin(), x.end());
  return r;
}

static void TypedSession(Sched &s, Rng &g, int n) {
  SimOs os;
  gOs = &os;
  os.cap = g.chance(20) ? 1 + g.below(30) : 64 + g.below(1000);
  os.cut = g.chance(30) ? 0 : (int)g.below(80);
  int base = 2000 + (int)g.below(50000);
  frn::lib::secret_sharing::Replicator<Field> rep(n, (n - 1) / 3);
  // the same network objects may connect, work and close several times
  const int cycles = n > 7 ? 1 : g.chance(25) ? 2 + (int)g.below(2) : 1;
  std::vector<std::vector<std::vector<TOp>>> plan;
  for (int c = 0; c < cycles; c++) {
    std::vector<std::vector<TOp>> todo(n);
    // as MakeScript: the queue from a to b is a sequence of (type, number of elements)
    std::vector<std::vector<std::vector<std::pair<char, int>>>> owed(n, std::vector<std::vector<std::pair<char, int>>>(n));
    auto add = [&](int a, int b, char t, int k) {
      if (!k) return;
      auto &q = owed[a][b];
      if (!q.empty() && q.back().first == t) q.back().second += k;
      else q.push_back({t, k});
    };
    auto take = [&](int a, int b, int part) {            // b receives from a
      auto &q = owed[a][b];
      if (q.empty()) return;
      int k = q[0].second;
      if (part && k > 1) k = 1 + (int)g.below((uint64_t)k);
      todo[b].push_back({(char)(q[0].first - 'a' + 'A'), a, k, false});
      if ((q[0].second -= k) == 0) q.erase(q.begin());
    };
    int ops = 3 + (int)g.below(8 * n), only = g.chance(20) ? (int)g.below(n) : -1;
    for (int i = 0; i < ops; i++) {
      int a = (int)g.below(n), b = only >= 0 ? only : g.chance(20) ? a : (int)g.below(n);
      if (g.chance(5)) todo[a].push_back({'p', 0, 0, false});
      if (g.chance(60)) {
        char t = "vsb"[g.below(3)];
        int k = Count(g, n);
        bool single = g.chance(30) && k <= 6;
        todo[a].push_back({t, b, k, single});
        add(a, b, t, k);
      } else if (g.chance(10)) todo[b].push_back({"VSB"[g.below(3)], a, 0, false});
      else take(a, b, 1);
    }
    for (int b = 0; b < n; b++)
      for (int a : [&] { std::vector<int> o; for (int x = 0; x < n; x++) o.insert(o.begin() + (long)g.below(o.size() + 1), x); return o; }())
        while (!owed[a][b].empty()) take(a, b, g.chance(60));
    plan.push_back(todo);
  }
  Ev("session")("n", n)("ss", rep.ShareSize());
  bool logs = g.chance(20);
  std::ostringstream sink;
  auto old = std::cout.rdbuf(sink.rdbuf());
  int connected = 0;
  for (int p = 0; p < n; p++) {
    uint64_t sd = g.next();
    s.Spawn([&, p, sd] {
      Rng r(sd);
      auto prg = MakePrg(r.next());
      auto nw = frn::TcpNetwork::CreateWithLocalParties((unsigned)p, (size_t)n, (unsigned)base, logs);
      Ev("made")("p", p)("id", nw->Id())("size", nw->Size());
      auto print = [&] { auto t = Summary(*nw); Ev("summary")("p", p)("text", t); };
      for (int c = 0; c < cycles; c++) {
      if (r.chance(50)) print();
      nw->Connect();
      connected++;
      if (r.chance(50)) print();
      for (auto &o : plan[c][p]) {
        unsigned q = (unsigned)o.peer;
        switch (o.k) {
          case 'p': print(); break;
          case 'v': {
            std::vector<Field> x;
            for (int i = 0; i < o.count; i++) x.push_back(AnyField(r));
            Ev("tsend")("p", p)("to", o.peer)("t", "v")("v", x);
            if (o.single) for (auto &y : x) nw->Send(q, {y});
            else nw->Send(q, x);
            break;
          }
          case 's': {
            std::vector<Shr> x;
            for (int i = 0; i < o.count; i++)
              if (r.chance(50)) x.push_back(rep.Share(AnyField(r), prg)[p]);
              else { Shr y; for (size_t j = 0; j < rep.ShareSize(); j++) y.push_back(AnyField(r)); x.push_back(y); }
            Ev("tsend")("p", p)("to", o.peer)("t", "s")("v", Flat(x));
            if (o.single) for (auto &y : x) nw->SendShares(q, {y});
            else nw->SendShares(q, x);
            break;
          }
          case 'b': {
            std::vector<unsigned char> x;
            for (int i = 0; i < o.count; i++) x.push_back((unsigned char)r.below(r.chance(50) ? 256 : 2));
            Ev("tsend")("p", p)("to", o.peer)("t", "b")("v", x);
            if (o.single) for (auto y : x) nw->SendBytes(q, {y});
            else nw->SendBytes(q, x);
            break;
          }
          case 'V': { auto x = nw->Recv(q, (size_t)o.count); Ev("trecv")("p", p)("from", o.peer)("t", "v")("k", o.count)("v", x); break; }
          case 'S': {
            auto x = nw->RecvShares(q, (size_t)o.count);
            std::vector<int> z;
            for (auto &y : x) z.push_back((int)y.size());
            Ev("trecv")("p", p)("from", o.peer)("t", "s")("k", o.count)("v", Flat(x))("z", z);
            break;
          }
          case 'B': { auto x = nw->RecvBytes(q, (size_t)o.count); Ev("trecv")("p", p)("from", o.peer)("t", "b")("k", o.count)("v", x); break; }
        }
      }
      print();
      if (cycles > 1) gS->Wait([&, c] { return connected >= (c + 1) * n; }, "all are connected");
      nw->Close();
      print();
      }
    }, true);
    s.f.back()->tag = p;
  }
  s.Run();
  std::cout.rdbuf(old);
  std::vector<std::vector<long>> wire(n, std::vector<long>(n, 0));
  for (auto &x : os.moved) if (x.first.first >= 0 && x.first.second >= 0) wire[x.first.first][x.first.second] = x.second;
  Ev("fin")("wire", wire);
  gOs = nullptr;
}

static void Typed() {
  Rng g(Seed());
  int rounds = Thorough() ? 1500 : 120;
  for (int r = 0; r < rounds; r++) {
    Sched s;
    s.rng = Rng(g.next());
    s.policy = (int)g.below(6);
    int n = r % 8 < 5 ? 4 + r % 3 : r % 8 == 5 ? 7 : 4;
    if (r == rounds - 1) n = 10;
    if (r == rounds - 2) n = 13;
    TypedSession(s, g, n);
  }
}

// A party sends itself more bytes than 32 bits can count.
static void Bulk() {
  Rng g(Seed());
  Sched s;
  s.rng = Rng(g.next());
  SimOs os;
  gOs = &os;
  int n = 4;
  Ev("session")("n", n)("ss", 3);
  std::ostringstream sink;
  auto old = std::cout.rdbuf(sink.rdbuf());
  for (int p = 0; p < n; p++) {
    s.Spawn([&, p] {
      auto nw = frn::TcpNetwork::CreateWithLocalParties((unsigned)p, (size_t)n, 6000, false);
      Ev("made")("p", p)("id", nw->Id())("size", nw->Size());
      nw->Connect();
      if (p == 1) {
        std::vector<unsigned char> d((size_t)64 << 20);
        for (size_t i = 0; i < d.size(); i++) d[i] = (unsigned char)(i * 7 + (i >> 13));
        for (int k = 0; k < 66; k++) {
          d[d.size() - 1 - (size_t)k] ^= 0x55;
          nw->SendBytes(1, d);
          auto e = nw->RecvBytes(1, d.size());
          bool same = d == e;
          Ev("bulk")("p", 1)("to", 1)("k", d.size())("same", same);
          if (k % 16 == 1) { auto t = Summary(*nw); Ev("summary")("p", p)("text", t); }
        }
      }
      auto t = Summary(*nw);
      Ev("summary")("p", p)("text", t);
      nw->Close();
    }, true);
    s.f.back()->tag = p;
  }
  s.Run();
  std::cout.rdbuf(old);
  Ev("fin")("wire", std::vector<std::vector<long>>(n, std::vector<long>(n, 0)));
  gOs = nullptr;
}

// ---- serialization --------------------------------------------------------------
// the last k bytes before memory that must not be accessed
struct Guarded {
  unsigned char *base, *p;
  size_t len;
  explicit Guarded(size_t k) {
    len = ((k + 4095) / 4096 + 1) * 4096;
    base = (unsigned char *)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(base + len - 4096, 4096, PROT_NONE);
    p = base + len - 4096 - k;
  }
  ~Guarded() { munmap(base, len); }
};

template <class Item>
static void Serial(const char *what, size_t count, size_t each, size_t announced, const Item &items,
                   const std::function<void(unsigned char *)> &write, const std::function<Item(const unsigned char *)> &read) {
  size_t pad = 16, total = announced + 2 * pad + 64;
  std::vector<unsigned char> a(total, 0xA5), b(total, 0x5A);
  write(a.data() + pad);
  write(b.data() + pad);
  size_t in = 0, out = 0;
  for (size_t i = 0; i < total; i++) {
    bool changed = !(a[i] == 0xA5 && b[i] == 0x5A), inside = i >= pad && i < pad + announced;
    if (changed && a[i] != b[i]) out += 1000;        // what is written does not depend on what was there
    (inside ? in : out) += changed;
  }
  Guarded g(announced);
  memcpy(g.p, a.data() + pad, announced);
  Item back = read(g.p);
  { Guarded w(announced); write(w.p); if (memcmp(w.p, g.p, announced)) out += 100000; }
  Ev("serial")("what", what)("count", count)("each", each)("size", announced)("items", items)("written", in)("outside", out)("back", back);
}

template <class T> static T Elem(Rng &r) {
  unsigned char b[16];
  for (auto &x : b) x = (unsigned char)r.below(256);
  switch (r.below(6)) {
    case 0: return T((int)r.below(300));
    case 1: return -T((int)r.below(300));
    case 2: memset(b, 0xff, 16); b[0] = (unsigned char)r.below(256); return T::FromBytes(b);
    default: return T::FromBytes(b);
  }
}

template <class T> static void SerialField(Rng &g) {
  namespace vec = frn::lib::math::vector;
  bool big = Thorough();
  for (int i = 0; i < (big ? 300 : 40); i++) {
    std::vector<T> one = {Elem<T>(g)};
    Serial<std::vector<T>>("element", 1, sizeof(T), T::ByteSize(), one, [&](unsigned char *p) { one[0].ToBytes(p); },
                           [&](const unsigned char *p) { return std::vector<T>{T::FromBytes(p)}; });
  }
  for (int k = 0; k < (big ? 200 : 30); k++) {
    std::vector<T> v;
    for (int i = 0; i < k; i++) v.push_back(Elem<T>(g));
    Serial<std::vector<T>>("vector", v.size(), sizeof(T), v.size() * T::ByteSize(), v, [&](unsigned char *p) { vec::ToBytes(p, v); },
                           [&](const unsigned char *p) { return vec::FromBytes<T>(p, v.size()); });
  }
  // more than 2^16 bytes
  if (First()) {
    std::vector<T> v;
    for (size_t i = 0; i < 65600 / sizeof(T) + 3; i++) v.push_back(Elem<T>(g));
    Serial<std::vector<T>>("vector", v.size(), sizeof(T), v.size() * T::ByteSize(), v, [&](unsigned char *p) { vec::ToBytes(p, v); },
                           [&](const unsigned char *p) { return vec::FromBytes<T>(p, v.size()); });
    frn::lib::secret_sharing::Replicator<T> rep(4, 1);
    std::vector<std::vector<T>> ss;
    for (size_t i = 0; i < 65600 / (3 * sizeof(T)) + 3; i++) ss.push_back({Elem<T>(g), Elem<T>(g), Elem<T>(g)});
    Serial<std::vector<std::vector<T>>>("shares", ss.size(), rep.ShareSize() * sizeof(T), ss.size() * rep.ShareSizeBytes(), ss,
                                        [&](unsigned char *p) { rep.SharesToBytes(ss, p); },
                                        [&](const unsigned char *p) { return rep.SharesFromBytes(p, ss.size()); });
  }
  for (auto nt : std::vector<std::pair<int, int>>{{2, 1}, {3, 1}, {3, 2}, {4, 1}, {5, 2}, {5, 3}, {7, 2}, {10, 3}}) {
    frn::lib::secret_sharing::Replicator<T> rep(nt.first, nt.second);
    auto prg = MakePrg(g.next());
    auto share = [&] {
      std::vector<T> s;
      if (g.chance(50)) return rep.Share(Elem<T>(g), prg)[g.below(nt.first)];
      for (size_t i = 0; i < rep.ShareSize(); i++) s.push_back(Elem<T>(g));
      return s;
    };
    for (int i = 0; i < (big ? 20 : 3); i++) {
      auto s = share();
      Serial<std::vector<T>>("share", rep.ShareSize(), sizeof(T), rep.ShareSizeBytes(), s, [&](unsigned char *p) { rep.ShareToBytes(s, p); },
                             [&](const unsigned char *p) { return rep.ShareFromBytes(p); });
    }
    for (int k = 0; k < (big ? 12 : 5); k++) {
      std::vector<std::vector<T>> v;
      for (int i = 0; i < k; i++) v.push_back(share());
      Serial<std::vector<std::vector<T>>>("shares", v.size(), rep.ShareSize() * sizeof(T), v.size() * rep.ShareSizeBytes(), v,
                                          [&](unsigned char *p) { rep.SharesToBytes(v, p); },
                                          [&](const unsigned char *p) { return rep.SharesFromBytes(p, v.size()); });
    }
  }
}

static void SerialAll() {
  Rng g(Seed());
  SerialField<frn::lib::math::FpElement<frn::lib::math::Mp61>>(g);
  SerialField<frn::lib::math::FpElement<frn::lib::math::Mp127>>(g);
}

int main(int argc, char **argv) {
  if (argc < 3) return 3;
  Open(argv[1]);
  std::string m = argv[2];
  const char *f = argc > 3 ? argv[3] : nullptr;
  if (m == "net") Net(f);
  else if (m == "typed") Typed();
  else if (m == "bulk") Bulk();
  else if (m == "serial") SerialAll();
  else return 3;
  Ev("end");
  Flush();
  _exit(0);
}
