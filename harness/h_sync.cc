// The shared queue and the channels under a controlled scheduler.
//   h_sync OUT deque|chan [schedules]
#include "fib.h"
#include "frn/lib/net/channel.h"
#include "frn/lib/net/connector.h"
#include "frn/lib/net/shared_deque.h"
#include "streams.h"
using namespace vh;
namespace net = frn::lib::net;

// ---- queue -------------------------------------------------------------------
// An item that is only equal to its value while nobody is writing it, with
// scheduling points while it is being written.
struct Item {
  int v = 0, w = ~0;
  void Set(int x) { w = 0x5a5a; v = x; SchedPoint(); w = ~x; }
  Item() {}
  explicit Item(int x) : v(x), w(~x) {}
  Item(const Item &o) { int x = o.Get(); Set(x); }
  Item(Item &&o) { int x = o.Get(); o.v = -7; o.w = ~-7; Set(x); }
  Item &operator=(const Item &o) { int x = o.Get(); Set(x); return *this; }
  Item &operator=(Item &&o) { int x = o.Get(); o.v = -7; o.w = ~-7; Set(x); return *this; }
  ~Item() { v = -9; w = 0; }
  int Get() const { return v == ~w ? v : -1; }
};

struct Op { char k; int v; };        // p push(const &), m push(&&), f front, x pop, s size
typedef std::vector<std::vector<Op>> Program;

static std::vector<std::string> gHist;
static void H(const std::string &s) { gHist.push_back(s); }

static const char *OpName(char k) { return k == 'p' || k == 'm' ? "push" : k == 'f' ? "front" : k == 'x' ? "pop" : "size"; }

static void DoOp(net::SharedDeque<Item> &q, int t, Op o) {
  H("{\"e\":\"inv\",\"t\":" + std::to_string(t) + ",\"op\":\"" + OpName(o.k) + "\",\"v\":" + std::to_string(o.v) + "}");
  SchedPoint();
  int r = 0;
  try {
    switch (o.k) {
      case 'p': { Item a(o.v); q.PushBack(a); r = a.Get() == o.v ? 0 : -2; break; }
      case 'm': { Item a(o.v); q.PushBack(std::move(a)); break; }
      case 'f': { Item &a = q.Front(); r = a.Get(); break; }
      case 'x': q.PopFront(); break;
      case 's': r = (int)q.Size(); break;
    }
  } catch (...) { r = -3; }
  H("{\"e\":\"res\",\"t\":" + std::to_string(t) + ",\"v\":" + std::to_string(r) + "}");
}

static std::set<std::string> gSeen;
static long gDup = 0;

// one execution; false: enumeration is over
static void RunProgram(Sched &s, const Program &p, const std::string &head) {
  gHist.clear();
  auto q = std::make_unique<net::SharedDeque<Item>>();
  int left = (int)p.size();
  for (int t = 0; t < (int)p.size(); t++)
    s.Spawn([&, t] {
      for (auto &o : p[t]) DoOp(*q, t, o);
      left--;
    }, true);
  // afterwards one more thread takes out what is left
  int T = (int)p.size();
  s.Spawn([&, T] {
    gS->Wait([&] { return left == 0; }, "end");
    DoOp(*q, T, {'s', 0});
    size_t k = q->Size();
    for (size_t i = 0; i < k; i++) { DoOp(*q, T, {'f', 0}); DoOp(*q, T, {'x', 0}); }
    DoOp(*q, T, {'s', 0});
  }, true);
  s.on_stuck = [&] { gBuf += head; for (auto &x : gHist) gBuf += x + "\n"; };
  s.Run();
  std::string all;
  for (auto &x : gHist) all += x + "\n";
  if (!gSeen.insert(all).second) { gDup++; return; }
  gBuf += head + all + "{\"e\":\"fin\"}\n";
  if (gBuf.size() > (1 << 16)) Flush();
}

static void Enumerate(const Program &p, int bound, long limit, bool spurious) {
  std::string head = "{\"e\":\"session\",\"threads\":" + std::to_string(p.size() + 1) + "}\n";
  gSeen.clear();
  std::vector<int> forced;
  for (long k = 0; k < limit; k++) {
    Sched s;
    s.enumerate = true;
    s.bound = bound;
    s.spurious = spurious;
    s.forced = forced;
    RunProgram(s, p, head);
    if (!s.NextChoices()) break;
    forced = s.forced;
  }
}

static void RandomRuns(const Program &p, Rng &g, long runs) {
  std::string head = "{\"e\":\"session\",\"threads\":" + std::to_string(p.size() + 1) + "}\n";
  gSeen.clear();
  for (long k = 0; k < runs; k++) {
    Sched s;
    s.rng = Rng(g.next());
    s.policy = (int)g.below(6);
    s.spurious = g.chance(40);
    RunProgram(s, p, head);
  }
}

// One thread, very many items.
static void Burst(Rng &g, int top) {
  Ev("burst");
  net::SharedDeque<int> q;
  int in = 0, out = 0;
  auto push = [&](int k) {
    for (int i = 0; i < k; i++) {
      if (i % 3) q.PushBack(in + 1);
      else { const int v = in + 1; q.PushBack(v); }
      in++;
    }
    Ev("bpush")("k", k);
  };
  auto size = [&] { Ev("bsize")("v", (long)q.Size()); };
  auto pop = [&](int k) {
    std::vector<std::pair<int, int>> u;
    int n = 0;
    for (; n < k && q.Size() > 0; n++) {
      int v = q.Front();
      if (!u.empty() && u.back().first + u.back().second == v) u.back().second++;
      else if (u.size() < 100) u.push_back({v, 1});
      q.PopFront();
    }
    out += n;
    Ev("bpop")("k", n)("u", u);
    size();
  };
  push(top);
  size();
  pop(1);
  pop(top / 3 - 1);
  for (int i = 0; i < 6; i++) {
    push(1 + (int)g.below((uint64_t)top / 4));
    pop(1 + (int)g.below((uint64_t)std::max(1, in - out - 1)));
  }
  push(10);
  pop(in - out);
  Ev("bfin");
}

static void Deque(const char *schedules) {
  Rng g(Seed());
  bool big = Thorough();
  // executions of the model: "push-thread programs as in MCDeque" and who moves
  if (schedules) {
    FILE *f = fopen(schedules, "r");
    if (!f) exit(3);
    char *line = nullptr;
    size_t cap = 0;
    while (getline(&line, &cap, f) > 0) {
      std::istringstream in(line);
      Program p;
      std::string w;
      while (in >> w && w != ":") {
        std::vector<Op> ops;
        for (size_t i = 0; i < w.size(); i++) {
          if (w[i] == 'p' || w[i] == 'm') { ops.push_back({w[i], w[i + 1] - '0'}); i++; }
          else if (w[i] != '-') ops.push_back({w[i], 0});
        }
        p.push_back(ops);
      }
      Sched s;
      s.rng = Rng(g.next());
      int who;
      while (in >> who) s.schedule.push_back(who);
      gSeen.clear();
      RunProgram(s, p, "{\"e\":\"session\",\"threads\":" + std::to_string(p.size() + 1) + "}\n");
    }
    fclose(f);
    return;
  }
  // small programs, all interleavings up to a number of preemptions
  std::vector<Program> small = {
      {{{'p', 1}}, {{'f', 0}, {'x', 0}}},
      {{{'m', 1}, {'p', 2}}, {{'f', 0}, {'x', 0}, {'f', 0}, {'x', 0}}},
      {{{'p', 1}}, {{'m', 2}}, {{'f', 0}, {'x', 0}, {'f', 0}, {'x', 0}}},
      {{{'p', 1}, {'p', 2}}, {{'x', 0}}, {{'x', 0}}},
      {{{'p', 1}}, {{'p', 2}}, {{'x', 0}}, {{'x', 0}}},
      {{{'p', 1}, {'m', 2}, {'p', 3}}, {{'x', 0}}, {{'f', 0}}, {{'s', 0}, {'s', 0}}},
      {{{'p', 1}, {'m', 2}}, {{'f', 0}}, {{'f', 0}}},
      {{{'m', 1}}, {{'p', 2}}, {{'p', 3}}, {{'f', 0}, {'x', 0}, {'s', 0}, {'x', 0}}},
      {{{'s', 0}, {'p', 1}, {'s', 0}, {'x', 0}, {'s', 0}}, {{'m', 2}, {'s', 0}, {'f', 0}}},
  };
  for (auto &p : small) {
    Enumerate(p, 2, big ? 30000 : 1200, false);
    Enumerate(p, 1, big ? 10000 : 400, true);
    RandomRuns(p, g, big ? 3000 : 150);
  }
  // many items, taken out while and after they are put in
  for (int k : {70, 150, 300, 2200}) {
    Program p(2);
    for (int i = 1; i <= k; i++) {
      p[0].push_back({i % 3 ? 'p' : 'm', i});
      if (i % 40 == 0) p[0].push_back({'s', 0});
      if (i < k) { p[1].push_back({'f', 0}); p[1].push_back({'x', 0}); }
    }
    RandomRuns(p, g, 2);
    Program q(1);
    for (auto &o : p[0]) q[0].push_back(o);
    RandomRuns(q, g, 1);
  }
  for (int k : {40, 300, 5000, 70000}) Burst(g, k + (int)g.below(30));
  // larger ones, at random: any number of producers, pops never exceed pushes,
  // and somebody looks at the front only if an item always stays or he is the only consumer
  int rounds = big ? 600 : 60;
  for (int r = 0; r < rounds; r++) {
    Program p;
    int producers = 1 + (int)g.below(3), pushes = 0, v = 1;
    for (int i = 0; i < producers; i++) {
      std::vector<Op> o;
      int k = 1 + (int)g.below(producers == 3 ? 2 : 4);
      for (int j = 0; j < k; j++) { o.push_back({g.chance(50) ? 'p' : 'm', v++}); pushes++; if (g.chance(15)) o.push_back({'s', 0}); }
      p.push_back(o);
    }
    int keep = g.chance(50) ? 1 : 0, pops = pushes - keep;
    int consumers = 1 + (int)g.below(2);
    std::vector<std::vector<Op>> c(consumers);
    for (int k = 0; k < pops; k++) {
      auto &o = c[g.below(consumers)];
      if ((keep && g.chance(70)) || consumers == 1) o.push_back({'f', 0});
      o.push_back({'x', 0});
      if (g.chance(10)) o.push_back({'s', 0});
    }
    for (auto &o : c) p.push_back(o);
    if (keep) p.push_back({{'f', 0}, {'s', 0}, {'f', 0}});
    RandomRuns(p, g, 8);
  }
}

// ---- channels ----------------------------------------------------------------
// A transport that records what it is given.  Transfers take time (scheduling
// points), may be cut short, and may fail.
struct Mock : net::Connector {
  int c;
  Streams &st;
  bool shorts;                        // transfers may be cut short
  long fail_at;                       // the write that fails, -1: none
  std::function<bool()> gate;         // a write waits for this
  long writes = 0;
  Mock(int c, Streams &st, bool shorts, long fail_at, std::function<bool()> gate) : c(c), st(st), shorts(shorts), fail_at(fail_at), gate(std::move(gate)) {}
  std::int64_t Send(const unsigned char *b, std::size_t n) override {
    Ev("wbeg")("c", c);
    if (gate) gS->Wait(gate, "transport");
    SchedPoint();
    if (fail_at >= 0 && writes++ >= fail_at) {
      Ev("write")("c", c)("u", Raw{"[]"})("ok", false);
      mState = State::eError;
      throw std::system_error(EPIPE, std::generic_category(), "write failed");
    }
    std::size_t k = shorts && n > 1 && gS->Choose(2) ? 1 + gS->Choose((int)n) : n;
    std::vector<unsigned char> copy;
    for (std::size_t i = 0; i < k; i++) { copy.push_back(b[i]); if (i == k / 2) SchedPoint(); }
    SchedPoint();
    Ev("write")("c", c)("u", st.Decode(c, 0, copy.data(), k))("ok", true);
    return (std::int64_t)k;
  }
  std::int64_t Recv(unsigned char *b, std::size_t n) override {
    SchedPoint();
    if (n == 0) return 0;
    std::size_t k = n > 1 && gS->Choose(2) ? 1 + gS->Choose((int)n) : n;
    auto d = st.Fresh(c, 1, k);
    memcpy(b, d.data(), k);
    return (std::int64_t)k;
  }
  std::string ToString() const override { return "Mock"; }
  void EstablishConnection() override { SchedPoint(); Ev("estab")("c", c); }
  void TeardownConnection() override { SchedPoint(); Ev("teardown")("c", c); SchedPoint(); }
};

static bool gBig = false;            // megabytes in one call
static int gMany = 0;                // so many sends before the transport takes the first
static size_t Size(Rng &g) {
  if (gBig && g.chance(60)) return g.chance(30) ? 65536 * (1 + g.below(40)) : 1000000 + g.below(4000000);
  if (g.chance(12)) return RoundSize(g, 17);
  switch (g.below(8)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return 2 + g.below(3);
    case 3: return 5 + g.below(20);
    case 4: return 100 + g.below(100);
    case 5: return 8 * (1 + g.below(10));
    case 6: return 1000 + g.below(3000);
    default: return 1 + g.below(64);
  }
}

// kinds: async (over a recording transport), base (Channel itself), self (one
// local connector), pair (two local connectors with crossing buffers)
static void ChanSession(Sched &s, Rng &g, const std::string &kind, int nch, const std::vector<int> *plan = nullptr) {
  Streams st;
  bool local = kind == "self" || kind == "pair";
  int reopen = kind == "pair" || gMany ? 1 : 1 + (int)g.below(3);
  Ev("session")("kind", kind)("channels", nch);
  std::vector<std::shared_ptr<net::Channel>> ch(nch);
  std::vector<char> user_done(nch, 0);
  std::vector<std::shared_ptr<long>> avail(nch);
  std::vector<net::LocalConnector::BufferPtr> buf;
  for (int c = 0; c < nch; c++) buf.push_back(net::LocalConnector::MakeBuffer());
  for (int c = 0; c < nch; c++) {
    std::unique_ptr<net::Connector> con;
    if (kind == "self") con = std::make_unique<net::LocalConnector>(buf[c], buf[c]);
    else if (kind == "pair") con = std::make_unique<net::LocalConnector>(buf[c], buf[c ^ 1]);
    else {
      std::function<bool()> gate;
      bool fails = plan ? (*plan)[0] >= 0 : !gMany && g.chance(25);
      if (!plan && (gMany || g.chance(30)) && kind == "async") gate = [&user_done, c] { return (bool)user_done[c]; };
      con = std::make_unique<Mock>(c, st, kind == "base", kind == "async" && fails ? (plan ? (*plan)[0] : (long)g.below(6)) : -1, gate);
      if (fails) reopen = 1;
    }
    if (kind == "base") ch[c] = std::make_shared<net::Channel>(con);
    else ch[c] = std::make_shared<net::AsyncSenderChannel>(con);
  }
  // where the bytes received on c come from
  auto from = [&](int c) { return kind == "self" ? std::make_pair(c, 0) : kind == "pair" ? std::make_pair(c ^ 1, 0) : std::make_pair(c, 1); };
  std::vector<long> left(nch, 0);
  int closers = 0;
  bool early = kind == "pair" && g.chance(50);      // one end closes before the other one reads
  for (int c = 0; c < nch; c++) {
    uint64_t sd = g.next();
    s.Spawn([&, c, sd] {
      Rng r(sd);
      for (int life = 0; life < reopen; life++) {
        Ev("opening")("c", c);
        ch[c]->Open();
        Ev("opened")("c", c)("state", (int)ch[c]->State());
        bool many = !plan && kind == "async" && (gMany || r.chance(6));
        int k = plan ? (*plan)[1] : early && c == 1 ? 0 : many ? 65 + (int)r.below(r.chance(20) ? 2500 : 500) : (int)r.below(7);
        if (gMany) k = gMany;
        long sent = 0, got = 0;
        bool reads = !plan && !gMany && r.chance(70);
        for (int i = 0; i < k; i++) {
          size_t z = plan ? 3 : many ? r.below(4) : Size(r);
          auto d = st.Fresh(c, 0, z);
          Ev("csend")("c", c)("k", z);
          try { ch[c]->Send(d.data(), z); } catch (const std::exception &e) { Ev("threw")("c", c)("op", "send"); }
          std::fill(d.begin(), d.end(), 0xEE);      // the caller may reuse its buffer
          Ev("csent")("c", c);
          sent += (long)z;
          if (reads) while (kind != "pair" && r.chance(40)) {
            size_t m = r.chance(20) ? 0 : kind == "self" ? (size_t)r.below((uint64_t)(sent - got) + 1) : Size(r);
            std::vector<unsigned char> b(m + 1, 0xAA);
            Ev("recving")("c", c)("k", m);
            ch[c]->Recv(b.data(), m);
            got += (long)m;
            Ev("crecv")("c", c)("k", m)("u", st.Decode(from(c).first, from(c).second, b.data(), m))("past", (int)b[m]);
          }
        }
        left[c] = sent;
        user_done[c] = 1;
        if (kind == "self" && sent > got) {
          std::vector<unsigned char> b((size_t)(sent - got));
          Ev("recving")("c", c)("k", b.size());
          ch[c]->Recv(b.data(), b.size());
          Ev("crecv")("c", c)("k", b.size())("u", st.Decode(c, 0, b.data(), b.size()))("past", 170);
        }
        if (early && c == 1) gS->Wait([&] { return closers == 1; }, "other end");
        if (kind == "pair" && !(early && c == 0)) {
          // both ends read everything the other one sends, in pieces of their own
          gS->Wait([&] { return (bool)user_done[c ^ 1]; }, "other user");
          long todo = left[c ^ 1];
          while (todo > 0) {
            size_t m = 1 + r.below((uint64_t)todo);
            std::vector<unsigned char> b(m);
            Ev("recving")("c", c)("k", m);
            ch[c]->Recv(b.data(), m);
            Ev("crecv")("c", c)("k", m)("u", st.Decode(from(c).first, from(c).second, b.data(), m))("past", 170);
            todo -= (long)m;
          }
        }
        Ev("closing")("c", c);
        ch[c]->Close();
        Ev("closed")("c", c)("state", (int)ch[c]->State());
        if (kind != "pair") user_done[c] = 0;
      }
      closers++;
    }, true);
  }
  s.Run();
  ch.clear();
  Ev("fin");
}

static void Chan(const char *schedules) {
  Rng g(Seed());
  bool big = Thorough();
  if (schedules) {
    // lines: failing write (or -1), number of sends, threads that move
    FILE *f = fopen(schedules, "r");
    if (!f) exit(3);
    char *line = nullptr;
    size_t cap = 0;
    while (getline(&line, &cap, f) > 0) {
      std::istringstream in(line);
      std::vector<int> plan(2);
      in >> plan[0] >> plan[1];
      Sched s;
      s.rng = Rng(g.next());
      int who;
      while (in >> who) s.schedule.push_back(who);
      ChanSession(s, g, "async", 1, &plan);
    }
    fclose(f);
    return;
  }
  // one channel, few sends, all interleavings up to a number of preemptions
  for (int fail : {-1, 0, 1, 2})
    for (int sends : {0, 1, 2, 3}) {
      std::vector<int> plan = {fail, sends}, forced;
      for (long k = 0; k < (big ? 4000 : 60); k++) {
        Sched s;
        s.enumerate = true;
        s.bound = 3;
        s.forced = forced;
        Rng same(1);
        ChanSession(s, same, "async", 1, &plan);
        if (!s.NextChoices()) break;
        forced = s.forced;
      }
    }
  int rounds = big ? 2500 : 220;
  for (int r = 0; r < rounds; r++) {
    Sched s;
    s.rng = Rng(g.next());
    s.policy = (int)g.below(6);
    s.spurious = g.chance(20);
    static const char *kinds[] = {"async", "async", "base", "self", "pair"};
    std::string kind = kinds[r % 5];
    ChanSession(s, g, kind, kind == "pair" ? 2 : 1 + (int)g.below(3));
  }
  gBig = true;
  if (big || First())
    for (int r = 0; r < (big ? 100 : 15); r++) {
      Sched s;
      s.rng = Rng(g.next());
      s.policy = (int)g.below(6);
      static const char *kinds[] = {"async", "base", "self", "pair"};
      std::string kind = kinds[r % 4];
      ChanSession(s, g, kind, kind == "pair" ? 2 : 1);
    }
  gBig = false;
  if (big || First())
    for (int m : {4097 + (int)g.below(1000), big ? 66000 : 9000}) {
      Sched s;
      s.rng = Rng(g.next());
      gMany = m;
      ChanSession(s, g, "async", 1);
    }
  gMany = 0;
}

int main(int argc, char **argv) {
  if (argc < 3) return 3;
  Open(argv[1]);
  std::string m = argv[2];
  const char *f = argc > 3 ? argv[3] : nullptr;
  if (m == "deque") Deque(f);
  else if (m == "chan") Chan(f);
  else return 3;
  Ev("end");
  Flush();
  _exit(0);
}
