// Small pure functions of the library: inverses modulo powers of two and the
// textual forms of values.     h_text OUT inv2|text
#include <unistd.h>

#include <array>
#include <map>

#include "common.h"
#include "frn/lib/math/arithmetic.h"
#include "frn/lib/math/fp.h"
#include "frn/lib/math/p.h"
#include "frn/lib/net/channel.h"
#include "frn/lib/net/connector.h"
#include "frn/lib/tools.h"

using namespace vh;
namespace net = frn::lib::net;
namespace utils = frn::lib::utils;
namespace details = frn::lib::math::details;
using u8 = unsigned char;
using u128 = unsigned __int128;

namespace {
template <class V> Raw Word(V v) {                 // little-endian bytes
  std::string s = "[";
  for (size_t i = 0; i < sizeof(V); i++) { s += (i ? "," : "") + std::to_string((int)(u8)v); if (sizeof(V) > 1) v = (V)(v >> 7 >> 1); }
  return Raw{s + "]"};
}
Raw Codes(const std::string &t) {
  std::string s = "[";
  for (size_t i = 0; i < t.size(); i++) s += (i ? "," : "") + std::to_string((int)(u8)t[i]);
  return Raw{s + "]"};
}
u128 Rand128(Rng &r) { return ((u128)r.next() << 64) | r.next(); }
template <class V> V AnyWord(Rng &r) {
  V v = (V)Rand128(r);
  switch (r.below(6)) {
    case 0: return (V)(v >> r.below(8 * sizeof(V)));                              // any length
    case 1: return (V)(((V)1 << r.below(8 * sizeof(V))) + (V)r.below(3) - 1);     // around powers of two
    case 2: return (V)(0 - (V)r.below(1000));
    default: return v;
  }
}

// ---------------------------------------------------------------------- C29
template <size_t K, class V> void Inv2(V v) {
  Ev e("inv2");
  e("k", K)("v", Word(v));
  try { V r = details::inv2<K, V>(v); e("ok", true)("r", Word(r)); }
  catch (const std::exception &) { e("ok", false)("r", Word((V)0)); }
}
template <class V, size_t... K> void Inv2All(Rng &r) {
  std::vector<V> vs;
  for (int i = 0; i < 32; i++) { vs.push_back((V)i); vs.push_back((V)(0 - (V)i)); }
  for (size_t b = 0; b < 8 * sizeof(V); b++) for (int d : {-1, 0, 1}) vs.push_back((V)(((V)1 << b) + (V)d));
  if (sizeof(V) == 1) for (int i = 0; i < 256; i++) vs.push_back((V)i);
  for (int i = 0; i < (Thorough() ? 600 : 60); i++) { V v = AnyWord<V>(r); vs.push_back(r.chance(80) ? (V)(v | 1) : v); }
  for (V v : vs) (Inv2<K, V>(v), ...);
}
void Inv2Mode(Rng &r) {
  Inv2All<u8, 1, 2, 3, 4, 5, 6, 7, 8>(r);
  Inv2All<uint32_t, 1, 4, 5, 6, 9, 10, 11, 16, 19, 20, 21, 31, 32>(r);
  Inv2All<uint64_t, 1, 5, 8, 10, 19, 20, 21, 32, 39, 40, 41, 53, 61, 63, 64>(r);
  Inv2All<u128, 1, 10, 20, 40, 61, 64, 79, 80, 81, 96, 100, 127, 128>(r);
  Inv2<129, uint64_t>(1);
  Inv2<192, u128>(3);
  Inv2<256, u128>(5);
}

// ---------------------------------------------------------------------- C30
template <class V> void Number(V v) {
  std::string s = utils::to_string<V>(v);
  Ev("number")("v", Word(v))("text", Codes(s))("back", Word(utils::from_string<V>(s)));
}
template <class V> void Numbers(Rng &r) {
  for (int i = 0; i < 12; i++) { Number<V>((V)i); Number<V>((V)(0 - (V)i)); }
  V p = 1;
  for (int i = 0; i < (sizeof(V) == 8 ? 20 : 39); i++, p *= 10) for (int d : {-1, 0, 1}) { Number<V>(p + (V)d); Number<V>(p * 9 + (V)d); }
  for (size_t b = 0; b < 8 * sizeof(V); b++) for (int d : {-1, 0, 1}) Number<V>(((V)1 << b) + (V)d);
  for (int i = 0; i < (Thorough() ? 2000 : 200); i++) Number<V>(AnyWord<V>(r));
}
template <class T> std::string Text(const T &v) { std::stringstream s; s << v; return s.str(); }
template <class C> void List(const C &c) {
  std::vector<std::string> items;
  for (const auto &x : c) items.push_back(Text(x));
  Ev("list")("items", items)("text", utils::to_string(c));
}
template <class T, class F> void Vectors(F make) {
  for (int n = 0; n <= 24; n++) { std::vector<T> v; for (int i = 0; i < n; i++) v.push_back(make()); List(v); }
  for (int n : {99, 100, 101, 105, 106, 1005, 1006, 4321}) { std::vector<T> v; for (int i = 0; i < n; i++) v.push_back(make()); List(v); }
}
template <class T, size_t K, class F> void Array(F make) {
  std::array<T, K> a;
  for (auto &x : a) x = make();
  List(a);
}
template <class T, class F> void Lists(F make) {
  Vectors<T>(make);
  Array<T, 1>(make); Array<T, 2>(make); Array<T, 4>(make); Array<T, 5>(make); Array<T, 6>(make); Array<T, 7>(make); Array<T, 32>(make);
}

struct Fake : net::SystemInterface {
  std::map<std::string, int> fail;
  int R(const char *f, int ok) { if (fail.count(f)) { errno = EIO; return -1; } return ok; }
  int get_errno() override { return EIO; }
  int close(int) override { return R("close", 0); }
  int create_socket(int, int, int) override { return R("socket", 70); }
  ssize_t write(int, const void *, std::size_t n) override { return R("write", (int)n); }
  ssize_t read(int, void *b, std::size_t n) override { memset(b, 0, n); return fail.count("eof") ? 0 : R("read", (int)n); }
  int set_socket_options(int, int, int, const void *, socklen_t) override { return R("option", 0); }
  int bind(int, const struct sockaddr *, socklen_t) override { return R("bind", 0); }
  int listen(int, int) override { return R("listen", 0); }
  int accept(int, struct sockaddr *, socklen_t *) override { return R("accept", 71); }
};
bool gConnecting = false;

// what a connector and its channel say about themselves in every state
template <class Make> void Describe(const char *kind, int port, const std::string &host, Make make) {
  auto path = [&](std::vector<std::string> ops) {
    auto sys = std::make_shared<Fake>();
    std::unique_ptr<net::Connector> c = make(sys);
    net::Connector *k = c.get();
    net::Channel ch(c);
    auto say = [&](const std::string &op, bool threw) {
      Ev("says")("kind", kind)("port", port)("host", host)("op", op)("threw", threw)("state", (int)k->State())("cstate", (int)ch.State())(
          "text", k->ToString())("chan", ch.ToString());
    };
    say("new", false);
    for (auto &o : ops) {
      unsigned char b[4] = {1, 2, 3, 4};
      bool threw = false;
      auto bar = o.find('|');
      std::string op = o.substr(0, bar);
      sys->fail.clear();
      if (bar != std::string::npos) sys->fail[o.substr(bar + 1)] = 1;
      try {
        if (op == "open") ch.Open();
        else if (op == "send") ch.Send(b, 4);
        else if (op == "recv") ch.Recv(b, 4);
        else ch.Close();
      } catch (const std::exception &) { threw = true; }
      say(op, threw);
    }
  };
  path({"open", "send", "recv", "close"});
  path({"open", "close", "open", "close"});
  path({"open", "send|write"});
  path({"open", "recv|read"});
  path({"open", "recv|eof"});
  path({"open", "close|close"});
  path({"open|socket"});
}

void TextMode(Rng &r) {
  Numbers<uint64_t>(r);
  Numbers<u128>(r);
  auto hex = [&](size_t n) {
    std::vector<int> bs;
    std::vector<u8> b;
    for (size_t i = 0; i < n; i++) { b.push_back(r.chance(20) ? (u8)r.pick(std::vector<int>{0, 1, 9, 10, 15, 16, 127, 128, 255}) : (u8)r.next()); bs.push_back(b.back()); }
    Ev("hex")("b", bs)("text", Codes(utils::bytes2hex(b.data(), n)));
  };
  for (int i = 0; i < 256; i++) { u8 b = (u8)i; Ev("hex")("b", std::vector<int>{i})("text", Codes(utils::bytes2hex(&b, 1))); }
  for (size_t n = 0; n < 40; n++) hex(n);
  for (size_t n : {64, 100, 255, 256, 257}) hex(n);
  Lists<int>([&] { return (int)r.below(3000) - 1000; });
  Lists<uint64_t>([&] { return AnyWord<uint64_t>(r); });
  Lists<std::string>([&] { return std::string(r.below(5), (char)('a' + r.below(26))) + (r.chance(20) ? ", ]" : ""); });
  Lists<frn::lib::math::FpElement<frn::lib::math::Mp61>>([&] { return frn::lib::math::FpElement<frn::lib::math::Mp61>(r.next()); });
  Lists<frn::lib::math::FpElement<frn::lib::math::Mp127>>([&] { return frn::lib::math::FpElement<frn::lib::math::Mp127>(Rand128(r)); });
  gConnecting = true;
  for (int port : {1024 + 1, 9876, 40000, 65535}) {
    Describe("server", port, "", [&](std::shared_ptr<net::SystemInterface> s) { return std::make_unique<net::TCPServerConnector>(s, port); });
    for (std::string host : {"127.0.0.1", "10.20.30.40"})
      Describe("client", port, host, [&](std::shared_ptr<net::SystemInterface> s) { return std::make_unique<net::TCPClientConnector>(s, port, host); });
  }
}
}  // namespace

// the client connector calls connect directly
extern "C" int connect(int, const struct sockaddr *, socklen_t) { return gConnecting ? 0 : -1; }

int main(int argc, char **argv) {
  if (argc < 3) return 3;
  Open(argv[1]);
  Watch(60);
  std::string m = argv[2];
  Rng r(Seed() ^ 0x2930);
  if (m == "inv2") Inv2Mode(r);
  else if (m == "text") TextMode(r);
  else return 3;
  Ev("end");
  Flush();
  return 0;
}
