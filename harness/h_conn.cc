// TCP connectors over scripted system calls, the network builder, the loggers.
//   h_conn OUT tcp|peer|build|log
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <time.h>
#include <iostream>
#include <set>
#include <system_error>
#include <thread>
#include "frn/lib/logging.h"
#include "frn/lib/net/builder.h"
#include "frn/lib/net/channel.h"
#include "frn/lib/net/connector.h"
#include "frn/lib/net/network.h"
#include "streams.h"
using namespace vh;
namespace net = frn::lib::net;
namespace logging = frn::lib::logging;

// ---- scripted system calls -----------------------------------------------------------
// Results are taken from the script: for a transfer the number of bytes (at
// most what was asked for), 0, or -errno; for other calls 0 (success) or -errno.
struct Script {
  std::vector<int> xfer;              // results of transfers; afterwards everything asked for
  size_t at = 0;
  std::map<std::string, int> fail;    // other calls: errno
  int refusals = 0;                   // attempts to connect that are refused first
};
static Script *gScript = nullptr;
static Streams *gStreams = nullptr;
// Transfers of gigabytes: counted in pages, told apart by the address only.
static unsigned char *gBase = nullptr;
static size_t gPage = 0, gReadPages = 0;
static bool gAstray = false;
static size_t gWritten = 0;           // of the stream written: what should come next

struct Fake : net::SystemInterface {
  int last = 0, next = 50;
  int Fail(int e) { last = e; errno = e; return -1; }
  int Plain(const char *f, int fd, int ok = 0) {
    int e = gScript->fail.count(f) ? gScript->fail[f] : 0;
    int r = e ? Fail(e) : ok;
    Ev("sys")("f", f)("fd", fd)("r", r)("err", e);
    return r;
  }
  int get_errno() override { return last; }
  int close(int fd) override { return Plain(listening.count(fd) && listening.erase(fd) ? "closel" : "close", fd); }
  int create_socket(int, int, int) override { int e = gScript->fail.count("socket"); return Plain("socket", e ? -1 : next, e ? -1 : next++); }
  ssize_t write(int fd, const void *b, std::size_t n) override { return Transfer("write", fd, (unsigned char *)b, n); }
  ssize_t read(int fd, void *b, std::size_t n) override { return Transfer("read", fd, (unsigned char *)b, n); }
  ssize_t Pages(const char *f, int fd, unsigned char *b, size_t n) {
    const size_t P = 4096, off = (size_t)(b - gBase);
    if (off % P || n % P || b < gBase) gAstray = true;
    int r = gScript->at < gScript->xfer.size() ? gScript->xfer[gScript->at++] : 0x7ffff;
    if (r > 0 && (size_t)r > n / P) r = (int)(n / P);
    if (r > 0x7ffff) r = 0x7ffff;      // no call transfers more
    Raw u{"[]"};
    if (*f == 'w') u = Raw{"[[" + std::to_string(gPage + off / P) + "," + std::to_string(n / P) + "]]"};
    else { if (off / P != gReadPages) gAstray = true; if (r > 0) gReadPages += (size_t)r; }
    ssize_t k = r < 0 ? Fail(-r) : (ssize_t)r * (ssize_t)P;
    Ev("sys")("f", f)("fd", fd)("n", gAstray ? 0 : n / P)("r", r < 0 ? -1 : r)("err", r < 0 ? -r : 0)("u", u);
    return k;
  }
  ssize_t Transfer(const char *f, int fd, unsigned char *b, size_t n) {
    if (gBase) return Pages(f, fd, b, n);
    int r = gScript->at < gScript->xfer.size() ? gScript->xfer[gScript->at++] : (int)n;
    if (r > (int)n) r = (int)n;
    Raw u{"[]"};
    int k = r;
    if (*f == 'w') {
      gStreams->s[{0, 0}].pos = gWritten;
      u = gStreams->Decode(0, 0, b, n);
      if (r > 0) gWritten += (size_t)r;
    }
    if (r < 0) k = Fail(-r);
    else if (*f == 'r') { auto d = gStreams->Fresh(0, 1, (size_t)r); memcpy(b, d.data(), d.size()); }
    Ev("sys")("f", f)("fd", fd)("n", n)("r", k)("err", r < 0 ? -r : 0)("u", u);
    return k;
  }
  int set_socket_options(int fd, int, int, const void *, socklen_t) override { return Plain("option", fd); }
  int bind(int fd, const struct sockaddr *a, socklen_t) override {
    Ev("addr")("port", (int)ntohs(((const sockaddr_in *)a)->sin_port));
    return Plain("bind", fd);
  }
  int listen(int fd, int) override { int r = Plain("listen", fd); if (r == 0) listening.insert(fd); return r; }
  int accept(int fd, struct sockaddr *, socklen_t *) override {
    int e = gScript->fail.count("accept") ? gScript->fail["accept"] : 0;
    int r = e ? Fail(e) : next++;
    Ev("sys")("f", "accept")("fd", fd)("r", r)("err", e);
    return r;
  }
  std::set<int> listening;
};
extern "C" int connect(int fd, const struct sockaddr *a, socklen_t l) {
  if (!gScript) return (int)syscall(SYS_connect, fd, a, l);
  Ev("addr")("port", (int)ntohs(((const sockaddr_in *)a)->sin_port));
  bool no = gScript->refusals-- > 0;
  Ev("sys")("f", "connect")("fd", fd)("r", no ? -1 : 0)("err", 0);
  if (no) errno = ECONNREFUSED;
  return no ? -1 : 0;
}
extern "C" int nanosleep(const struct timespec *, struct timespec *) { return 0; }
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) { return 0; }

struct TcpOp { char k; int size; };      // o open, s send, r receive, c close

static void TcpSession(Rng &g, bool server, int via, const std::vector<TcpOp> &ops, Script sc) {
  Streams st;
  gStreams = &st;
  gScript = &sc;
  auto fake = std::make_shared<Fake>();
  int port = 1025 + (int)g.below(64000);
  Ev("session")("kind", server ? "server" : "client")("port", port);
  std::unique_ptr<net::Connector> con;
  if (server) con = std::make_unique<net::TCPServerConnector>(fake, port);
  else con = std::make_unique<net::TCPClientConnector>(fake, port, "127.0.0.1");
  net::Connector *c = con.get();
  std::unique_ptr<net::Channel> ch;
  if (via) ch = std::make_unique<net::Channel>(con);
  Ev("made")("state", (int)c->State());
  for (auto &o : ops) {
    std::vector<unsigned char> d;
    gWritten = st.s[{0, 0}].all.size();
    size_t had = st.s[{0, 1}].all.size();
    if (o.k == 's') d = st.Fresh(0, 0, (size_t)o.size);
    if (o.k == 'r') d.assign((size_t)o.size + 1, 0xAA);
    Ev("op")("k", std::string(1, o.k))("size", o.size);
    long ret = o.size;
    std::string threw = "no";
    int code = 0;
    try {
      switch (o.k) {
        case 'o': if (via) ch->Open(); else c->Connect(); break;
        case 'c': if (via) ch->Close(); else c->Close(); break;
        case 's': if (via) ch->Send(d.data(), d.size()); else ret = c->Send(d.data(), d.size()); break;
        case 'r': if (via) ch->Recv(d.data(), (size_t)o.size); else ret = c->Recv(d.data(), (size_t)o.size); break;
      }
    } catch (const std::system_error &e) { threw = "system"; code = e.code().value(); }
    catch (const std::exception &e) { threw = "other"; }
    Raw u{"[]"};
    st.s[{0, 1}].pos = had;
    if (o.k == 'r' && threw == "no") u = st.Decode(0, 1, d.data(), (size_t)o.size);
    Ev("ret")("threw", threw)("code", code)("state", (int)c->State())("n", ret)("u", u)("past", o.k == 'r' ? (int)d[(size_t)o.size] : 170);
    if (threw != "no" && (o.k == 'o' || o.k == 'c')) break;
  }
  Ev("fin");
  gScript = nullptr;
}

// One connection that sends and receives gigabytes; sizes and parts in pages.
static void HugeSession(Rng &g, bool server, int via, const std::vector<TcpOp> &ops, Script sc) {
  gScript = &sc;
  auto fake = std::make_shared<Fake>();
  int port = 1025 + (int)g.below(64000);
  Ev("session")("kind", server ? "server" : "client")("port", port);
  std::unique_ptr<net::Connector> con;
  if (server) con = std::make_unique<net::TCPServerConnector>(fake, port);
  else con = std::make_unique<net::TCPClientConnector>(fake, port, "127.0.0.1");
  net::Connector *c = con.get();
  std::unique_ptr<net::Channel> ch;
  if (via) ch = std::make_unique<net::Channel>(con);
  Ev("made")("state", (int)c->State());
  size_t out = 0, in = 0;
  for (auto &o : ops) {
    const size_t size = (size_t)o.size * 4096;
    unsigned char *b = nullptr;
    if (size) b = (unsigned char *)mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    gBase = b; gPage = out; gReadPages = 0; gAstray = false;
    if (o.k == 's') out += (size_t)o.size;
    Ev("op")("k", std::string(1, o.k))("size", o.size);
    std::int64_t ret = (std::int64_t)size;
    std::string threw = "no";
    int code = 0;
    try {
      switch (o.k) {
        case 'o': if (via) ch->Open(); else c->Connect(); break;
        case 'c': if (via) ch->Close(); else c->Close(); break;
        case 's': if (via) ch->Send(b, size); else ret = c->Send(b, size); break;
        case 'r': if (via) ch->Recv(b, size); else ret = c->Recv(b, size); break;
      }
    } catch (const std::system_error &e) { threw = "system"; code = e.code().value(); }
    catch (const std::exception &e) { threw = "other"; }
    gBase = nullptr;
    Raw u{"[]"};
    if (o.k == 'r' && threw == "no" && size && !gAstray) u = Raw{"[[" + std::to_string(in) + "," + std::to_string(o.size) + "]]"};
    in += gReadPages;
    if (b) munmap(b, size);
    Ev("ret")("threw", threw)("code", code)("state", (int)c->State())("n", ret % 4096 ? -1L : (long)(ret / 4096))("u", u)("past", 170);
  }
  Ev("fin");
  gScript = nullptr;
}

static void Compositions(int k, std::vector<int> &cur, std::vector<std::vector<int>> &out) {
  if (k == 0) { out.push_back(cur); return; }
  for (int i = 1; i <= k; i++) { cur.push_back(i); Compositions(k - i, cur, out); cur.pop_back(); }
}
static const int kErr[] = {EPIPE, ECONNRESET, EIO, EBADF, ENOTCONN, ETIMEDOUT, ENOBUFS, EMFILE, EACCES, EADDRINUSE, EINVAL, ENOMEM, EHOSTUNREACH};

static void Tcp() {
  Rng g(Seed());
  bool big = Thorough();
  auto err = [&] { return kErr[g.below(sizeof kErr / sizeof *kErr)]; };
  // establishing and closing: every call may fail
  for (bool server : {false, true})
    for (int via : {0, 1})
      for (std::string f : {"", "socket", "option", "bind", "listen", "accept", "closel", "close"})
        for (int i = 0; i < 3; i++) {
          Script sc;
          if (!f.empty()) sc.fail[f] = err();
          if (i == 2) { sc.fail["close"] = err(); if (f != "closel" && g.chance(50)) sc.fail["closel"] = err(); }
          sc.refusals = (int)g.below(5);
          TcpSession(g, server, via, {{'o', 0}, {'c', 0}}, sc);
        }
  // every way to split a transfer of up to 6 bytes, ended by an error or the
  // peer's disconnection at every place
  int top = big ? 8 : 6;
  for (int k = 0; k <= top; k++)
    for (int end = 0; end <= 2; end++)               // 0 completes, 1 error, 2 disconnected (or nothing written)
      for (int done = end ? 0 : k; done <= (end ? k - 1 : k); done++) {
        std::vector<std::vector<int>> parts;
        std::vector<int> cur;
        Compositions(done, cur, parts);
        for (auto &p : parts)
          for (char o : {'s', 'r'}) {
            Script sc;
            sc.xfer = p;
            if (end == 1) sc.xfer.push_back(-err());
            if (end == 2) sc.xfer.push_back(0);
            TcpSession(g, g.chance(50), (int)g.below(2), {{'o', 0}, {o, k}, {'c', 0}}, sc);
          }
      }
  // longer sessions
  for (int i = 0; i < (big ? 4000 : 400); i++) {
    std::vector<TcpOp> ops = {{'o', 0}};
    Script sc;
    sc.refusals = (int)g.below(3);
    int m = (int)g.below(10);
    for (int j = 0; j < m; j++) ops.push_back({g.chance(50) ? 's' : 'r', g.chance(15) ? 0 : g.chance(20) ? 1000 + (int)g.below(70000) : (int)g.below(40)});
    int x = (int)g.below(30);
    for (int j = 0; j < x; j++) sc.xfer.push_back(g.chance(50) ? 1 + (int)g.below(4) : 1 + (int)g.below(30000));
    if (g.chance(50)) sc.xfer.push_back(g.chance(60) ? -err() : 0);
    ops.push_back({'c', 0});
    if (g.chance(20)) sc.fail["close"] = err();
    TcpSession(g, g.chance(50), (int)g.below(2), ops, sc);
  }
  // megabytes in one call, transferred in parts of any size
  if (big || First())
    for (int i = 0; i < (big ? 60 : 16); i++) {
      Script sc;
      std::vector<TcpOp> ops = {{'o', 0}};
      int m = 1 + (int)g.below(3);
      for (int j = 0; j < m; j++) {
        int z = (j + i) % 2 ? 60000 + (int)g.below(80000) : 1000000 + (int)g.below(4000000);
        ops.push_back({i & 4 ? 's' : i & 8 ? 'r' : g.chance(50) ? 's' : 'r', z});
      }
      int x = 20 + (int)g.below(40);
      for (int j = 0; j < x; j++)
        sc.xfer.push_back(g.chance(15) ? 1 + (int)g.below(4) : g.chance(30) ? 1 + (int)g.below(70000) : g.chance(15) ? 65536 * (1 + (int)g.below(20)) : 1 + (int)g.below(400000));
      if (g.chance(25)) sc.xfer.push_back(g.chance(60) ? -err() : 0);
      ops.push_back({'c', 0});
      TcpSession(g, i & 1, i >> 1 & 1, ops, sc);
    }
  // and gigabytes
  if (big || First())
    for (int i = 0; i < (big ? 60 : 16); i++) {
      Script sc;
      int m = 1 + (int)g.below(3), x = (int)g.below(12);
      std::vector<TcpOp> ops = {{'o', 0}};
      for (int j = 0; j < m; j++) ops.push_back({(i + j) & 1 ? 's' : 'r', g.chance(50) ? (1 << 20) + (int)g.below(1 << 20) : (1 << 19) + (int)g.below(1 << 19)});
      for (int j = 0; j < x; j++) sc.xfer.push_back(g.chance(30) ? 0x7ffff : g.chance(30) ? 1 << g.below(19) : 1 + (int)g.below(0x7ffff));
      if (g.chance(25)) sc.xfer.push_back(g.chance(60) ? -err() : 0);
      ops.push_back({'c', 0});
      HugeSession(g, i >> 1 & 1, i >> 2 & 1, ops, sc);
    }
}

// ---- real sockets, the peer disconnects ---------------------------------------------
static void Peer() {
  Rng g(Seed());
  signal(SIGPIPE, SIG_DFL);
  auto sys = std::make_shared<net::SystemInterface>();
  for (int i = 0; i < (Thorough() ? 120 : 24); i++) {
    int port;
    for (port = 8000 + (int)((getpid() * 131 + i * 7) % 20000);; port++) {
      int s = socket(AF_INET, SOCK_STREAM, 0);
      sockaddr_in a = {};
      a.sin_family = AF_INET;
      a.sin_port = htons((uint16_t)port);
      bool ok = bind(s, (sockaddr *)&a, sizeof a) == 0;
      close(s);
      if (ok) break;
    }
    net::TCPServerConnector a(sys, port);
    net::TCPClientConnector b(sys, port, "127.0.0.1");
    std::thread t([&] { a.Connect(); });
    b.Connect();
    t.join();
    // one end sends some bytes and disconnects, the other one wants more than
    // that, or writes
    net::Connector &x = i % 2 ? (net::Connector &)a : b, &y = i % 2 ? (net::Connector &)b : a;
    int have = (int)g.below(40), want = have + (g.chance(70) ? 1 + (int)g.below(40) : 0);
    bool write = i % 4 >= 2;
    std::vector<unsigned char> d((size_t)(write ? 0 : have), 1), e((size_t)want + 100000, 0xAA);
    x.Send(d.data(), d.size());
    std::vector<unsigned char> pending(1 + g.below(20));
    bool unread = g.chance(30);
    if (unread) y.Send(pending.data(), pending.size());      // x disconnects with data it has not read
    x.Close();
    std::string threw = "no";
    int code = 0;
    long ret = -1;
    try {
      if (write) {
        for (int k = 0; k < 2000; k++) { y.Send(e.data(), 100000); usleep(k < 5 ? 1000 : 0); }
      } else {
        if (unread) want = have + 1 + (int)g.below(30);
        ret = y.Recv(e.data(), (size_t)want);
      }
    } catch (const std::system_error &er) { threw = "system"; code = er.code().value(); }
    catch (const std::exception &er) { threw = "other"; }
    Ev("peer")("what", write ? "write" : "read")("have", have)("want", write ? have + 1 : want)("reset", unread)("threw", threw)("code", code)("state", (int)y.State())("n", ret);
    y.Close();
  }
}

// ---- builder ----------------------------------------------------------------------------
struct Peek : net::Network {
  static std::vector<std::unique_ptr<net::Channel>> &Of(net::Network &n) { return n.*&Peek::mChannels; }
};
struct CountLogger : logging::Logger {
  int lines = 0;
  std::string ToString() const override { return "count"; }
  void LogBegin(Level) override {}
  void Log(const std::string &) override { lines++; }
  void LogEnd(Level) override {}
};
struct Call { char k; int v; std::string s; };   // i id, n size, t transport, p port, f file, l local, g logger, b build

static std::string gDir;
static std::vector<std::vector<std::string>> gFiles;     // contents by number

static std::string FileName(int k) {
  if (k < 0) return gDir + "/missing";
  return gDir + "/f" + std::to_string(k);
}
static int AddFile(const std::vector<std::string> &lines, bool newline) {
  gFiles.push_back(lines);
  FILE *f = fopen(FileName((int)gFiles.size() - 1).c_str(), "w");
  for (size_t i = 0; i < lines.size(); i++) fprintf(f, "%s%s", lines[i].c_str(), i + 1 < lines.size() || newline ? "\n" : "");
  fclose(f);
  return (int)gFiles.size() - 1;
}

// "<Channel(TCPClientConnector(state = IDLE, server = 1.2.3.4:5))>" -> [kind, host, port]
static Raw Chan(const std::string &s) {
  const char *kind = s.find("Client") != std::string::npos ? "client" : s.find("Server") != std::string::npos ? "server" : "local";
  size_t c = s.rfind(':'), e = s.size();
  while (e > 0 && !isdigit((unsigned char)s[e - 1])) e--;
  size_t b = e;
  while (b > 0 && isdigit((unsigned char)s[b - 1])) b--;
  std::string host;
  if (*kind == 'c' && c != std::string::npos) { size_t h = s.rfind(' ', c) + 1; host = s.substr(h, c - h); }
  return Raw{"[" + Js(kind) + "," + Js(host) + "," + (*kind == 'l' ? std::string("0") : b < e ? s.substr(b, e - b) : "-1") + "]"};
}

static void BuildSession(Rng &g, const std::vector<Call> &calls) {
  net::Network::Builder b;
  Ev("bsession");
  std::vector<std::shared_ptr<CountLogger>> loggers;
  for (auto &c : calls) {
    std::string threw = "no";
    std::vector<Raw> chans;
    int id = -1, size = -1, logs = -1;
    try {
      switch (c.k) {
        case 'i': b.LocalPeerId(c.v); break;
        case 'n': b.Size((size_t)c.v); break;
        case 't': b.TransportType(c.v ? net::Network::TransportType::eTcp : net::Network::TransportType::eFake); break;
        case 'p': b.BasePort(c.v); break;
        case 'f': b.ConnectionFile(FileName(c.v)); break;
        case 'l': b.AllPartiesLocal(); break;
        case 'g': loggers.push_back(std::make_shared<CountLogger>()); b.Logger(loggers.back()); break;
        case 'b': {
          std::shared_ptr<net::Network> n;
          if (g.chance(50)) n = b.BuildShared();
          else n = std::make_shared<net::Network>(b.Build());
          id = n->LocalPeerId();
          size = (int)n->Size();
          for (auto &x : Peek::Of(*n)) chans.push_back(Chan(x->ToString()));
          if (size == 1) {
            for (auto &l : loggers) l->lines = 0;
            n->Connect();
            n->Close();
            logs = -2;
            for (size_t i = 0; i < loggers.size(); i++) if (loggers[i]->lines) logs = logs == -2 ? (int)i : 1000;
          }
        }
      }
    } catch (const std::logic_error &) { threw = "logic"; }
    catch (const std::exception &) { threw = "other"; }
    std::vector<std::string> lines;
    if (c.k == 'f' && c.v >= 0) lines = gFiles[(size_t)c.v];
    Ev e("call");
    e("k", std::string(1, c.k))("v", c.v)("threw", threw);
    if (c.k == 'f') e("lines", lines);
    if (c.k == 'b' && threw == "no") e("id", id)("size", size)("chans", chans)("logs", logs);
  }
}

static void Build() {
  Rng g(Seed());
  char tmpl[] = "/tmp/verif-conn-XXXXXX";
  gDir = mkdtemp(tmpl);
  auto ip = [](int i) { return "10.0." + std::to_string(i) + "." + std::to_string(200 - i); };
  AddFile({}, false);                                    // 0: empty
  for (int n = 1; n <= 5; n++) { std::vector<std::string> l; for (int i = 0; i < n; i++) l.push_back(ip(i)); AddFile(l, n % 2); }   // 1..5
  AddFile({"192.168.7.1", "192.168.7.2", "192.168.7.3"}, true);     // 6; 7, 8: longer ones
  for (int n : {12, 33}) { std::vector<std::string> l; for (int i = 0; i < n; i++) l.push_back(ip(i)); AddFile(l, true); }
  // equal addresses, adjacent and not                   9, 10, 11
  AddFile({"10.0.0.1", "10.0.0.2", "10.0.0.1", "10.0.0.1", "127.0.0.1", "127.0.0.1", "10.0.0.2", "127.0.0.1"}, true);
  AddFile(std::vector<std::string>(8, "127.0.0.1"), true);
  AddFile({"10.0.0.1", "10.0.0.2", "10.0.0.3", "10.0.0.2", "10.0.0.3", "10.0.0.1"}, false);
  // all orders of the parts of a description
  struct D { int id, n, t, port, file, local; };
  std::vector<D> ds = {{0, 3, 1, 5000, 3, 0}, {2, 3, 1, 5000, 6, 0}, {1, 3, 1, 1025, -2, 1}, {3, 3, 1, 5000, 3, 0}, {2, 3, 1, 5000, 2, 0},
                       {1, 2, 1, 65535, 2, 0}, {0, 2, 1, 65535, 2, 0}, {0, 2, 0, 5000, 2, 0}, {-1, 2, 1, 5000, 2, 0}, {0, 1, 1, 65535, -2, 1},
                       {0, 2, 1, 65534, -2, 1}, {1, 2, 1, 65536, -2, 1}, {1, 4, 1, 80, 4, 0}, {1, 4, 1, 5000, 5, 1}, {4, 5, 1, 65515, -2, 1}, {0, 4, 1, 65532, 4, 0},
                       {9, 12, 1, 5000, 7, 0}, {15, 16, 1, 1025, -2, 1}, {32, 33, 1, 7000, 8, 0}, {0, 33, 1, 7000, 7, 0},
                       {3, 8, 1, 5000, 9, 0}, {0, 8, 1, 5000, 9, 0}, {7, 8, 1, 5000, 9, 0}, {6, 8, 1, 5000, 10, 0}, {0, 8, 1, 5000, 10, 0},
                       {0, 6, 1, 5000, 11, 0}, {5, 6, 1, 5000, 11, 0}};
  for (auto &d : ds) {
    std::vector<Call> parts = {{'i', d.id}, {'n', d.n}, {'t', d.t}, {'p', d.port}};
    if (d.file > -2) parts.push_back({'f', d.file});
    if (d.local) parts.push_back({'l', 0});
    std::vector<int> o;
    for (size_t i = 0; i < parts.size(); i++) o.push_back((int)i);
    do {
      std::vector<Call> c;
      for (int i : o) c.push_back(parts[(size_t)i]);
      c.push_back({'b', 0});
      BuildSession(g, c);
      if (!Thorough() && parts.size() > 5 && g.chance(60)) for (int z = 0; z < 3; z++) std::next_permutation(o.begin(), o.end());
    } while (std::next_permutation(o.begin(), o.end()));
    // each part left out
    for (size_t i = 0; i < parts.size(); i++) {
      std::vector<Call> c;
      for (size_t j = 0; j < parts.size(); j++) if (j != i) c.push_back(parts[j]);
      c.push_back({'b', 0});
      BuildSession(g, c);
    }
  }
  for (int p : {-2147483647, -65536, -5000, -1, 0, 1, 21, 80, 443, 1000, 1023, 1024, 1025, 1026, 8080, 32767, 32768, 49151, 65533, 65534, 65535, 65536, 65537, 70000, 131072 + 5000, 2147483647})
    BuildSession(g, {{'i', 0}, {'n', 1}, {'t', 1}, {'l', 0}, {'p', p}, {'b', 0}, {'p', 6000}, {'b', 0}, {'p', p}, {'b', 0}});
  for (int p = 1900; p < 65000; p += 900 + (int)g.below(400))
    BuildSession(g, {{'i', 0}, {'n', 1}, {'t', 1}, {'l', 0}, {'p', p}, {'b', 0}});
  for (int p : {2222, 3333, 4444, 5555, 6666, 7777, 8000, 8888, 9000, 9099, 9875, 9876, 9877, 9999, 10000, 12345, 20000, 30000, 40000, 50000, 60000})
    BuildSession(g, {{'i', 1}, {'n', 2}, {'t', 1}, {'l', 0}, {'p', p}, {'b', 0}});
  // random sequences, with parts given again, refused parts and several builds
  int rounds = Thorough() ? 20000 : 2500;
  for (int r = 0; r < rounds; r++) {
    std::vector<Call> c;
    int m = 3 + (int)g.below(14);
    for (int i = 0; i < m; i++) {
      switch (g.below(9)) {
        case 0: case 1: c.push_back({'i', g.chance(10) ? -1 - (int)g.below(3) : (int)g.below(5)}); break;
        case 2: case 3: c.push_back({'n', g.chance(5) ? 0 : 1 + (int)g.below(5)}); break;
        case 4: c.push_back({'t', g.chance(80) ? 1 : 0}); break;
        case 5: c.push_back({'p', g.chance(30) ? 1022 + (int)g.below(6) : g.chance(40) ? 65500 + (int)g.below(40) : 2000 + (int)g.below(60000)}); break;
        case 6: c.push_back({'f', (int)g.below(8) - 1}); break;
        case 7: if (g.chance(50)) c.push_back({'l', 0}); else c.push_back({'g', 0}); break;
        default: c.push_back({'b', 0});
      }
    }
    c.push_back({'b', 0});
    BuildSession(g, c);
  }
  for (size_t i = 0; i < gFiles.size(); i++) unlink(FileName((int)i).c_str());
  rmdir(gDir.c_str());
}

// ---- loggers -----------------------------------------------------------------------------
static int gOut;                              // descriptor 1 goes here
static std::string TakeOutput() {
  std::cout.flush();
  fflush(stdout);
  std::string s;
  off_t n = lseek(gOut, 0, SEEK_END);
  s.resize((size_t)n);
  if (n && pread(gOut, &s[0], (size_t)n, 0) != n) s = "?";
  if (ftruncate(gOut, 0)) {}
  lseek(gOut, 0, SEEK_SET);
  return s;
}
static std::vector<int> Chars(const std::string &s) { std::vector<int> v; for (unsigned char c : s) v.push_back(c); return v; }

struct Custom : logging::Logger {
  std::vector<Raw> seen;
  std::string ToString() const override { return "custom"; }
  void LogBegin(Level l) override { seen.push_back(Raw{"[\"begin\"," + std::to_string((int)l) + ",[]]"}); }
  void Log(const std::string &s) override { seen.push_back(Raw{"[\"message\",0," + Js(Chars(s)) + "]"}); }
  void LogEnd(Level l) override { seen.push_back(Raw{"[\"end\"," + std::to_string((int)l) + ",[]]"}); }
};

template <class... Ts> static void Write(logging::Logger &l, int level, bool macro, const char *f, Ts &&...a) {
  auto p = &l;
  switch (level) {
    case 0: if (macro) LOG_INFO(p, f, a...); else l.Info(f, a...); break;
    case 1: if (macro) LOG_WARN(p, f, a...); else l.Warn(f, a...); break;
    default: if (macro) LOG_ERROR(p, f, a...); else l.Error(f, a...);
  }
}

struct Arg { int k; int i; std::string s; double d; };
// an argument in the types that are printed in different ways
template <class F> static void With(const Arg &a, F f) {
  switch (a.k) {
    case 0: f(a.i); break;
    case 1: f(a.s); break;
    case 2: f(a.s.c_str()); break;
    case 3: f((char)('A' + (a.i & 15))); break;
    case 4: f(a.d); break;
    case 5: f((unsigned long long)(unsigned)a.i * 0x100000001ULL); break;
    case 6: f((a.i & 1) != 0); break;
    default: f((std::size_t)(unsigned)a.i);
  }
}
template <class T> static std::string Printed(const T &v) { std::ostringstream o; o << v; return o.str(); }

static std::string Now() {
  time_t t = std::chrono::system_clock::to_time_t(std::chrono::system_clock::now());
  char b[16];
  strftime(b, sizeof b, "%H:%M:%S", localtime(&t));
  return b;
}

static logging::StdoutLogger *gPlain;
static void One(Rng &g, int kind, int level, const std::string &f, const std::vector<Arg> &args) {
  static auto plain = logging::create_logger<logging::StdoutLogger>(false), dflt = logging::create_logger<logging::StdoutLogger>(),
              stamped = logging::create_logger<logging::StdoutLogger>(true);
  static auto none = logging::create_logger<logging::VoidLogger>();
  Custom cu;
  logging::Logger *l = kind == 0 ? (logging::Logger *)(g.chance(50) ? plain : dflt).get() : kind == 1 ? (logging::Logger *)stamped.get()
                       : kind == 2 ? (logging::Logger *)&cu : (logging::Logger *)none.get();
  std::vector<std::vector<int>> printed;
  bool macro = g.chance(50);
  TakeOutput();
  std::string before = Now();
  const char *s = f.c_str();
  auto P = [&](const auto &x) { printed.push_back(Chars(Printed(x))); };
  switch (args.size()) {
    case 0: Write(*l, level, macro, s); break;
    case 1: With(args[0], [&](auto x) { P(x); Write(*l, level, macro, s, x); }); break;
    case 2: With(args[0], [&](auto x) { With(args[1], [&](auto y) { P(x); P(y); Write(*l, level, macro, s, x, y); }); }); break;
    case 3: {
      int k = args[0].i; const std::string &t = args[1].s; double d = args[2].d;
      P(k); P(t); P(d);
      Write(*l, level, macro, s, k, t, d);
      break;
    }
    case 10: {
      auto i = [&](int x) { return args[(size_t)x].i; };
      auto t = [&](int x) -> const std::string & { return args[(size_t)x].s; };
      P(i(0)); P(t(1)); P(i(2)); P(t(3)); P(i(4)); P(t(5)); P(i(6)); P(t(7)); P(t(8)); P(i(9));
      Write(*l, level, macro, s, i(0), t(1), i(2), t(3), i(4), t(5), i(6), t(7), t(8), i(9));
      break;
    }
    default: {
      const std::string &a = args[0].s; int b = args[1].i; const char *c = args[2].s.c_str(); unsigned long e = (unsigned long)(unsigned)args[3].i;
      P(a); P(b); P(c); P(e);
      Write(*l, level, macro, s, a, b, c, e);
    }
  }
  std::string after = Now(), out = TakeOutput();
  static const char *kinds[] = {"plain", "stamped", "custom", "void"};
  Ev("log")("kind", kinds[kind])("level", level)("fmt", Chars(f))("args", printed)("out", Chars(out))("before", Chars(before))("after", Chars(after))("seen", cu.seen);
}

static Arg AnyArg(Rng &g) {
  Arg a;
  a.k = (int)g.below(8);
  a.i = g.chance(50) ? (int)g.below(10) : (int)g.next();
  static const std::vector<std::string> w = {"", "%", "a%b", "%%", "x", "hello world", "[E] ", "100% sure", "\\n", "a\tb", "0", "-1", std::string("a\0b%\0", 5), std::string(1, '\0')};
  a.s = g.pick(w);
  if (g.chance(2)) a.s = std::string(200 + g.below(3000), (char)('A' + g.below(26))) + "%" + a.s;
  a.d = g.chance(50) ? 0.5 * (double)g.below(100) : 1e-7 * (double)g.next();
  return a;
}

static void Log() {
  Rng g(Seed());
  gOut = memfd_create("out", 0);
  dup2(gOut, 1);
  auto args = [&](int k) { std::vector<Arg> v; for (int i = 0; i < k; i++) v.push_back(AnyArg(g)); return v; };
  // all formats of up to four characters of an alphabet of three
  std::vector<std::string> all = {""};
  for (size_t i = 0; all[i].size() < (Thorough() ? 5u : 4u); i++) for (char c : {'%', 'a', ' '}) all.push_back(all[i] + c);
  for (auto &f : all)
    for (int k = 0; k <= 4; k++) One(g, (int)g.below(3), (int)g.below(3), f, args(k));
  int rounds = Thorough() ? 20000 : 1200;
  for (int r = 0; r < rounds; r++) {
    std::string f;
    int len = g.chance(10) ? 100 + (int)g.below(400) : (int)g.below(40);
    for (int i = 0; i < len; i++) f += g.chance(12) ? '%' : g.chance(5) ? (char)(128 + g.below(128)) : (char)(32 + g.below(95));
    One(g, (int)g.below(4), (int)g.below(3), f, args(g.chance(10) ? 10 : (int)g.below(5)));
  }
}

int main(int argc, char **argv) {
  if (argc < 3) return 3;
  Open(argv[1]);
  std::string m = argv[2];
  if (m == "tcp") Tcp();
  else if (m == "peer") { Watch(40); Peer(); }
  else if (m == "build") Build();
  else if (m == "log") Log();
  else return 3;
  Ev("end");
  Flush();
  _exit(0);
}
