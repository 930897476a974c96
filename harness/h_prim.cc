// Drives the generator, the hash, the fields and the vectors and matrices.
//   h_prim OUT prg|prgbig|hash|field|matrix
#include <algorithm>
#include <array>
#include <set>
#include <unistd.h>
#include <sys/mman.h>
#include <map>
#include "common.h"
#include "frn/lib/math/fp.h"
#include "frn/lib/math/mat.h"
#include "frn/lib/math/p.h"
#include "frn/lib/math/vec.h"
#include "frn/lib/primitives/hash.h"
#include "frn/lib/primitives/prg.h"
#include "frn/lib/tools.h"

using namespace vh;
using namespace frn::lib::math;
using namespace frn::lib::primitives;
using u8 = unsigned char;
using u128 = __uint128_t;
typedef std::vector<u8> Bytes;

static Raw JB(const u8 *p, size_t n) {
  std::string s = "[";
  for (size_t i = 0; i < n; i++) { if (i) s += ","; s += std::to_string((int)p[i]); }
  return Raw{s + "]"};
}
static Raw JB(const Bytes &b) { return JB(b.data(), b.size()); }
// a counter as << hi, lo >> in base 2^24
static Raw Ctr(unsigned long c) { return Raw{"[" + std::to_string(c >> 24) + "," + std::to_string(c & 0xFFFFFF) + "]"}; }
static Bytes RandBytes(Rng &r, size_t n) {
  Bytes b(n);
  for (auto &x : b) x = (u8)r.next();
  return b;
}

// ---------------------------------------------------------------------- C13
static Bytes SeedBytes(Rng &r) {
  Bytes b = RandBytes(r, 16);
  switch (r.below(6)) {
    case 0: std::fill(b.begin(), b.end(), 0); break;
    case 1: std::fill(b.begin(), b.end(), 0xFF); break;
    case 2: std::fill(b.begin(), b.end(), 0); b[r.below(16)] = (u8)(1u << r.below(8)); break;
    default: break;
  }
  return b;
}
static void NewEv(int o, const PRG &p, bool dflt, const Bytes &given) {
  Ev("new")("o", o)("dflt", dflt)("given", JB(given))("seed", JB(p.Seed(), 16))(
      "sizes", std::vector<int>{(int)PRG::BlockSize(), (int)PRG::SeedSize()})("ctr", Ctr(p.Counter()));
}
static void Peek(int o, const PRG &p) { Ev("peek")("o", o)("ctr", Ctr(p.Counter()))("seed", JB(p.Seed(), 16)); }

static void TakeBytes(Rng &r, int o, PRG &p, size_t k) {
  const size_t pre = r.below(20), post = 40;
  Bytes buf(pre + k + post, 0xA5);
  bool ok = true;
  int form = r.below(3);
  Bytes out;
  bool clean = true;
  try {
    if (form == 0) {
      p.Next(buf.data() + pre, k);
      out.assign(buf.begin() + pre, buf.begin() + pre + k);
      for (size_t i = 0; i < pre; i++) clean = clean && buf[i] == 0xA5;
      for (size_t i = 0; i < post; i++) clean = clean && buf[pre + k + i] == 0xA5;
    } else if (form == 1) {
      Bytes v(k, 0x5A);
      p.Next(v);
      clean = v.size() == k;
      out = v;
    } else {
      size_t extra = r.below(3) ? r.below(40) : 0;
      Bytes v(k + extra, 0x5A);
      p.Next(v, k);
      clean = v.size() == k + extra;
      for (size_t i = 0; clean && i < extra; i++) clean = v[k + i] == 0x5A;
      v.resize(k);
      out = v;
    }
  } catch (const std::exception &) { ok = false; }
  Ev("next")("o", o)("k", k)("bytes", JB(out))("ok", ok)("clean", clean)("ctr", Ctr(p.Counter()));
}

// What the build was asked for (PRG_NONCE and PRG_INITIAL_COUNTER are settings).
static void Conf() {
#if defined(VERIF_NONCE) && defined(VERIF_COUNTER)
  std::uint64_t n = VERIF_NONCE;
  Ev("conf")("dflt", false)("start", Ctr(VERIF_COUNTER))("nonce", JB((u8 *)&n, 8));
#else
  Ev("conf")("dflt", true);
#endif
}

static void Prg() {
  Conf();
  Rng r(Seed() ^ 0x13);
  const int sessions = Thorough() ? 60 : 14;
  int id = 0;
  for (int s = 0; s < sessions; s++) {
    std::map<int, PRG> objs;
    auto fresh = [&] {
      int o = ++id;
      if (r.chance(15)) {
        objs.emplace(o, PRG());
        NewEv(o, objs.at(o), true, Bytes(16, 0));
      } else {
        Bytes b = SeedBytes(r), orig = b;
        if (r.chance(50)) {      // the seed is read, at the position given
          Bytes shifted = RandBytes(r, 3);
          shifted.insert(shifted.end(), b.begin(), b.end());
          objs.emplace(o, PRG(shifted.data() + 3));
          std::fill(shifted.begin(), shifted.end(), 0xEE);
        } else {
          objs.emplace(o, PRG(b.data()));
        }
        NewEv(o, objs.at(o), false, orig);
      }
      return o;
    };
    std::vector<int> ids{fresh()};
    if (s == 0)      // every small length from one object
      for (size_t k = 0; k <= 100; k++) TakeBytes(r, ids[0], objs.at(ids[0]), k);
    const int steps = 60;
    for (int i = 0; i < steps; i++) {
      int o = r.pick(ids);
      PRG &p = objs.at(o);
      switch (r.below(13)) {
        case 0: if (ids.size() < 5) ids.push_back(fresh()); break;
        case 1: {
          if (r.chance(50)) {
            int c = ++id;
            objs.emplace(c, PRG(p));
            Ev("copy")("o", c)("from", o);
            ids.push_back(c);
          } else {
            int c = r.pick(ids);
            if (c != o) { objs.at(c) = p; Ev("copy")("o", c)("from", o); }
          }
          break;
        }
        case 2: p.Reset(); Ev("reset")("o", o)("ctr", Ctr(p.Counter())); break;
        case 3: {      // more than the destination holds
          Bytes v(r.below(40), 0x77);
          size_t ask = v.size() + 1 + r.below(r.chance(50) ? 2 : 100);
          bool ok = true;
          try {
            Bytes w = v;
            w.reserve(300);
            p.Next(w, ask);
            v = w;
          } catch (const std::exception &) { ok = false; }
          bool clean = true;
          for (u8 b : v) clean = clean && b == 0x77;
          Ev("refused")("o", o)("ok", ok)("clean", clean)("ctr", Ctr(p.Counter()));
          break;
        }
        case 4: TakeBytes(r, o, p, 0); break;
        case 5: TakeBytes(r, o, p, 16 * r.below(8)); break;
        case 6: TakeBytes(r, o, p, 16 * (1 + r.below(8)) - 1); break;
        case 7: TakeBytes(r, o, p, 16 * r.below(8) + 1); break;
        case 8: TakeBytes(r, o, p, 1 + r.below(16)); break;
        case 9: TakeBytes(r, o, p, 100 + r.below(400)); break;
        case 10: if (r.chance(30)) { TakeBytes(r, o, p, 4000 + r.below(1000)); break; }  // fallthrough
        default: Peek(o, p);
      }
    }
    for (int o : ids) Peek(o, objs.at(o));
  }
}

// Requests that drive the counter across powers of two.
#include <malloc.h>
static void PrgBig() {
  mallopt(M_MMAP_THRESHOLD, 1 << 30);      // memory is kept, not returned
  mallopt(M_TRIM_THRESHOLD, 2000000000);
  Rng r(Seed() ^ 0xB16);
  Conf();
  PRG p(SeedBytes(r).data());
  NewEv(1, p, false, Bytes(p.Seed(), p.Seed() + 16));
  auto big = [&](size_t k) {
    u8 *b = (u8 *)malloc(k + 64);
    std::memset(b + k, 0xA5, 64);
    size_t start = (unsigned long)p.Counter(), nb = (k + 15) / 16;
    bool ok = true;
    try { p.Next(b, k); } catch (const std::exception &) { ok = false; }
    for (int i = 0; i < 64; i++) ok = ok && b[k + i] == 0xA5;
    std::set<size_t> at{0, nb - 1, nb / 2};
    for (int i = 8; i < 40; i++) {
      size_t c = (size_t)1 << i;
      for (size_t d : {c - 1, c, c + 1}) if (d >= start && d < start + nb) at.insert(d - start);
    }
    for (int i = 0; i < 3; i++) at.insert(r.below(nb));
    std::vector<Raw> js;
    for (size_t a : at) {
      size_t n = std::min<size_t>(16, k - 16 * a);
      js.push_back(Raw{"[" + std::to_string(a) + "," + JB(b + 16 * a, n).s + "]"});
    }
    Ev("big")("o", 1)("k", Raw{Ctr(k).s})("ok", ok)("at", js)("ctr", Ctr(p.Counter()));
    free(b);
  };
  big(1 << 16); big((1 << 20) + 3);
  TakeBytes(r, 1, p, 100);
  big((1 << 24) - 5); big((1 << 22));
  TakeBytes(r, 1, p, 33);
  // on past 2^31 and 2^32 blocks (64 GB of output)
  const size_t chunk = (size_t)64 << 20;
  for (int i = 0; i < 1026; i++) big(chunk + (i % 5 == 4 ? 7 : 0));
  TakeBytes(r, 1, p, 100);
  // more than 2^32 bytes in one request, where the memory suffices
  if ((double)sysconf(_SC_AVPHYS_PAGES) * (double)sysconf(_SC_PAGESIZE) > 14e9) {
    big(((size_t)1 << 32) + 40);
    TakeBytes(r, 1, p, 5);
  }
  Peek(1, p);
}

// ---------------------------------------------------------------------- C14
template <class Tag> static void HashOne(Rng &r, int bits, int &id) {
  using H = Hash<Tag>;
  auto fin = [&](int o, H &h) {
    auto d = h.Finalize();
    Ev("fin")("o", o)("digest", JB(d.data(), d.size()));
  };
  auto upd = [&](int o, H &h, const u8 *p, size_t n) {
    // no more than the given bytes may be read, at any alignment
    const size_t sh = r.below(9);
    Bytes b(sh + n + 16, 0xC3);
    std::copy(p, p + n, b.begin() + sh);
    if (r.chance(50)) h.Update(b.data() + sh, n);
    else h.Update(Bytes(p, p + n));
    Ev("upd")("o", o)("bytes", JB(p, n));
  };
  const size_t rate = 200 - 2 * bits / 8;
  // every length, fed at once and in random cuts
  const size_t upto = Thorough() ? 450 : 2 * rate + 20;
  for (size_t len = 0; len <= upto; len++) {
    Bytes m = RandBytes(r, len);
    for (int form = 0; form < 2; form++) {
      int o = ++id;
      H h;
      Ev("new")("o", o)("bits", bits);
      if (form == 0) {
        if (len || r.chance(50)) upd(o, h, m.data(), len);
      } else {
        size_t at = 0;
        size_t mx = r.chance(50) ? 9 : (r.chance(50) ? 20 : 3 + r.below(rate + 10));
        while (at < len) {
          size_t k = std::min<size_t>(len - at, r.below(mx + 1));
          upd(o, h, m.data() + at, k);
          at += k;
        }
        if (r.chance(20)) upd(o, h, m.data(), 0);
      }
      fin(o, h);
    }
  }
  // fixed chunk sizes over messages that cross several blocks
  for (size_t chunk = 1; chunk <= (Thorough() ? 40u : 17u); chunk++) {
    Bytes m = RandBytes(r, 2 * rate + r.below(rate));
    int o = ++id;
    H h;
    Ev("new")("o", o)("bits", bits);
    for (size_t at = 0; at < m.size(); at += chunk) upd(o, h, m.data() + at, std::min(chunk, m.size() - at));
    fin(o, h);
  }
  // every pair of (bytes already in the word, length of the next piece), at
  // the end of a block and elsewhere
  for (size_t a = 0; a < 8; a++)
    for (size_t b = 0; b <= 18; b++) {
      size_t base = r.chance(50) ? 0 : rate - 8;
      Bytes m = RandBytes(r, base + a + b + 5);
      int o = ++id;
      H h;
      Ev("new")("o", o)("bits", bits);
      upd(o, h, m.data(), base + a);
      upd(o, h, m.data() + base + a, b);
      upd(o, h, m.data() + base + a + b, 5);
      fin(o, h);
    }
  // all ones, all zeros
  for (u8 v : {(u8)0, (u8)0xFF, (u8)0x80})
    for (size_t len : {size_t(1), size_t(7), size_t(8), rate - 1, rate, rate + 1, 3 * rate}) {
      Bytes m(len, v);
      int o = ++id;
      H h;
      Ev("new")("o", o)("bits", bits);
      upd(o, h, m.data(), len / 2);
      upd(o, h, m.data() + len / 2, len - len / 2);
      fin(o, h);
    }
  // long
  {
    Bytes m = RandBytes(r, Thorough() ? 100000 : 12000);
    int o = ++id;
    H h;
    Ev("new")("o", o)("bits", bits);
    upd(o, h, m.data(), 5000);
    upd(o, h, m.data() + 5000, 3);
    upd(o, h, m.data() + 5003, m.size() - 5003);
    fin(o, h);
  }
  // very long: one call with more than 2^16 words (the bytes follow a rule)
  if (First()) {
    Bytes m(Thorough() ? 1100001 : 530001);
    const u8 p = (u8)(2 * r.below(128) + 1), q = (u8)r.below(256);
    for (size_t i = 0; i < m.size(); i++) m[i] = (u8)(i * p + (i >> 8) + q);
    int o = ++id;
    H h;
    Ev("new")("o", o)("bits", bits);
    upd(o, h, m.data(), 3);
    h.Update(m.data() + 3, m.size() - 3);
    Ev("updrule")("o", o)("from", 3)("to", m.size())("p", (int)p)("q", (int)q);
    fin(o, h);
  }
  // more than 2^32 zero bytes in one call
  if (Thorough() && First() && bits == 256) {
    const size_t n = ((size_t)1 << 32) + 13;
    auto *m = (const u8 *)mmap(nullptr, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    H h;
    h.Update(m, n);
    auto d = h.Finalize();
    munmap((void *)m, n);
    Ev("huge")("bits", bits)("digest", JB(d.data(), d.size()));
  }
  // several objects and copies, interleaved
  for (int s = 0; s < (Thorough() ? 40 : 6); s++) {
    std::map<int, H> hs;
    std::vector<int> ids;
    auto fresh = [&] { int o = ++id; hs.emplace(o, H()); ids.push_back(o); Ev("new")("o", o)("bits", bits); };
    fresh(); fresh();
    for (int i = 0; i < 30; i++) {
      int o = r.pick(ids);
      if (r.chance(10) && ids.size() < 5) {
        int c = ++id;
        hs.emplace(c, H(hs.at(o)));
        Ev("copy")("o", c)("from", o);
        ids.push_back(c);
      } else {
        Bytes m = RandBytes(r, r.below(r.chance(50) ? 12 : 80));
        // chained calls
        if (r.chance(20)) {
          hs.at(o).Update(m).Update(m);
          Bytes mm = m;
          mm.insert(mm.end(), m.begin(), m.end());
          Ev("upd")("o", o)("bytes", JB(mm));
        } else upd(o, hs.at(o), m.data(), m.size());
      }
    }
    for (int o : ids) fin(o, hs.at(o));
  }
}
static void HashAll() {
  Rng r(Seed() ^ 0x14);
  int id = 0;
  HashOne<SHA3_256>(r, 256, id);
  HashOne<SHA3_384>(r, 384, id);
  HashOne<SHA3_512>(r, 512, id);
}

// ---------------------------------------------------------------------- C15
template <class P> struct M;
template <> struct M<Mp61> { static const int m = 61; };
template <> struct M<Mp127> { static const int m = 127; };

static u128 Rand128(Rng &r) { return (u128)r.next() << 64 | r.next(); }
template <class P> static std::vector<typename P::ValueType> Boundary() {
  using V = typename P::ValueType;
  const V p = P::kPrime;
  const int bits = M<P>::m;
  std::vector<V> v = {0, 1, 2, 3, 5, 10, p - 1, p - 2, p - 3, (p - 1) / 2, (p + 1) / 2, p / 3, p / 10};
  for (int b : {8, 16, 31, 32, 33, 48, 60, 61, 62, 63, 64, 65, 96, 125, 126})
    if (b < bits) for (int d : {-1, 0, 1}) { V x = ((V)1 << b) + d; if (x < p) v.push_back(x); }
  if (bits > 64) for (V x : {(V)~0ULL, (V)~0ULL << 32, (V)~0ULL << 62, ((V)1 << 126) + ((V)1 << 63)}) v.push_back(x % p);
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}
template <class E> static Raw Try(const std::function<E()> &f) {
  try { return Raw{"{\"ok\":true,\"v\":" + Js(f()) + "}"}; } catch (const std::exception &) { return Raw{"{\"ok\":false}"}; }
}
static Raw Digits(const std::string &s) {      // anything but a digit becomes 99
  std::string o = "[";
  for (size_t i = 0; i < s.size(); i++) {
    if (i) o += ",";
    o += std::to_string(s[i] >= '0' && s[i] <= '9' ? s[i] - '0' : 99);
  }
  return Raw{o + "]"};
}
// the value itself, in limbs, as the harness knows it
template <class V> static Raw Limb(V v) { return Raw{Limbs((const u8 *)&v, sizeof v)}; }

template <class P> static void FieldOne(Rng &r) {
  using E = FpElement<P>;
  using V = typename P::ValueType;
  const int m = M<P>::m;
  const V p = P::kPrime;
  auto anyv = [&]() -> V {
    V v = (V)Rand128(r);
    switch (r.below(4)) {
      case 0: v >>= r.below(8 * sizeof(V)); break;
      case 1: v = p - (v >> r.below(8 * sizeof(V))) % p; break;
      default: break;
    }
    return v % p;
  };
  {
    E d;
    E c1 = E::template FromConstant<1>(), c2 = E::template FromConstant<77>(), c3 = E::template FromConstant<(1UL << 31)>(),
      c4 = E::template FromConstant<(1UL << 61) - 2>();
    Ev("const")("m", m)("dflt", d)("zero", E::kZero)("one", E::kOne)("c", std::vector<E>{c1, c2, c3, c4})(
        "want", std::vector<Raw>{Limb((V)1), Limb((V)77), Limb((V)(1UL << 31)), Limb((V)((1UL << 61) - 2))})(
        "size", E::ByteSize())("bits", E::BitSize());
  }
  auto bin = [&](V a, V b) {
    E x(a), y(b);
    const E x0 = x, y0 = y;
    std::vector<E> add{x + y}, sub{x - y}, mul{x * y};
    { E t = x; t += y; add.push_back(t); }
    { E t = x; t -= y; sub.push_back(t); }
    { E t = x; t *= y; mul.push_back(t); }
    std::vector<Raw> div{Try<E>([&] { return x / y; }), Try<E>([&] { E t = x; t /= y; return t; })};
    Ev("bin")("m", m)("a", Limb(a))("b", Limb(b))("x", x0)("y", y0)("add", add)("sub", sub)("mul", mul)("div", div)(
        "eq", std::vector<bool>{x == y, x.Equal(y), !(x != y), !x.NotEqual(y)})("x2", x)("y2", y);
  };
  auto un = [&](V a) {
    E x(a);
    std::vector<E> neg{-x}, dbl{x + x}, sq{x * x}, zero{x - x};
    { E t = x; t.Negate(); neg.push_back(t); }
    { E t = x; neg.push_back(t.Negate()); }
    { E t = x; t += t; dbl.push_back(t); }
    { E t = x; t *= t; sq.push_back(t); }
    { E t = x; t -= t; zero.push_back(t); }
    std::vector<Raw> inv{Try<E>([&] { return x.Inverse(); }), Try<E>([&] { E t = x; t.Invert(); return t; }),
                         Try<E>([&] { E t = x; return t.Invert(); })};
    std::vector<Raw> one{Try<E>([&] { return x / x; }), Try<E>([&] { E t = x; t /= t; return t; })};
    u8 b[64];
    std::memset(b, 0xA5, 64);
    x.ToBytes(b + 8);
    bool clean = true;
    for (int i = 0; i < 64; i++) if (i < 8 || i >= 8 + (int)E::ByteSize()) clean = clean && b[i] == 0xA5;
    std::stringstream ss;
    ss << x;
    Ev("un")("m", m)("a", Limb(a))("x", x)("neg", neg)("dbl", dbl)("sq", sq)("zero", zero)("inv", inv)("one", one)(
        "bytes", JB(b + 8, E::ByteSize()))("clean", clean)("text", Digits(x.ToString()))("stream", Digits(ss.str()))(
        "back", std::vector<E>{E::FromBytes(b + 8), E(x.ToString())});
  };
  auto raw = [&](V a) {
    Ev("int")("m", m)("bytes", JB((const u8 *)&a, sizeof a))("v", E(a));
    // from bytes, anywhere in a buffer
    size_t sh = r.below(9);
    Bytes buf(sh + sizeof a + 9, 0x3C);
    std::memcpy(buf.data() + sh, &a, sizeof a);
    E e = E::FromBytes(buf.data() + sh);
    Ev("int")("m", m)("bytes", JB((const u8 *)&a, sizeof a))("v", e);
  };
  auto bs = Boundary<P>();
  for (V a : bs) {
    un(a);
    for (V b : bs) bin(a, b);
  }
  for (int i = 0; i < (Thorough() ? 3000 : 400); i++) { V a = anyv(), b = r.chance(10) ? a : anyv(); bin(a, b); un(a); }
  for (V a : bs) raw(a);
  for (int k = 0; k <= (m == 61 ? 8 : 2); k++)      // around every multiple of the prime that fits
    for (int d = -2; d <= 2; d++) { V a = (V)(p * (V)k) + (V)d; raw(a); }
  for (V a : {(V)~(V)0, (V)~(V)0 - 1, (V)1 << (8 * sizeof(V) - 1), ((V)1 << (8 * sizeof(V) - 1)) - 1}) raw(a);
  for (int i = 0; i < (Thorough() ? 2000 : 300); i++) raw((V)Rand128(r));
  auto dec = [&](const std::string &s) { Ev("dec")("m", m)("digits", Digits(s))("v", E(s)); };
  auto text = [&](V v) { std::string s; do { s += (char)('0' + (int)(v % 10)); v /= 10; } while (v); return std::string(s.rbegin(), s.rend()); };
  for (V a : bs) { dec(text(a)); if (r.chance(30)) dec("000" + text(a)); }
  for (int k = 0; k <= (m == 61 ? 8 : 2); k++)
    for (int d = -1; d <= 1; d++) { V a = (V)(p * (V)k) + (V)d; dec(text(a)); }
  dec(text((V)~(V)0));
  for (int len = 1; len <= 45; len++)
    for (int i = 0; i < (Thorough() ? 10 : 2); i++) {
      std::string s;
      for (int j = 0; j < len; j++) s += (char)('0' + r.below(10));
      dec(s);
    }
  for (int len : {19, 20, 21, 38, 39, 40, 41, 80, 200, 600}) { dec(std::string(len, '9')); dec("1" + std::string(len, '0')); }
}
static void FieldAll() {
  Rng r(Seed() ^ 0x15);
  FieldOne<Mp61>(r);
  FieldOne<Mp127>(r);
}

// ---------------------------------------------------------------------- C16
template <class P> static void MatOne(Rng &r, int &id) {
  using E = FpElement<P>;
  using Mat = Matrix<E>;
  using V = typename P::ValueType;
  namespace vec = frn::lib::math::vector;
  const int m = M<P>::m;
  auto bs = Boundary<P>();
  auto any = [&]() -> E {
    if (r.chance(25)) return E(r.pick(bs));
    if (r.chance(25)) return E((V)r.below(1000));
    return E((V)Rand128(r));
  };
  auto js = [&](const Mat &a) {
    std::string s = "[\"r\"";
    std::vector<std::vector<E>> rows;
    for (size_t i = 0; i < a.RowCount(); i++) {
      rows.emplace_back();
      for (size_t j = 0; j < a.ColumnCount(); j++) rows.back().push_back(a(i, j));
    }
    return Raw{"{\"r\":" + std::to_string(a.RowCount()) + ",\"c\":" + std::to_string(a.ColumnCount()) + ",\"v\":" + Js(rows) + "}"};
  };
  typedef std::vector<std::pair<size_t, size_t>> Shapes;
  Shapes shapes = {{1, 1}, {1, 2}, {2, 1}, {1, 5}, {5, 1}, {2, 2}, {2, 3}, {3, 2}, {3, 3}, {3, 4}, {4, 3}, {2, 7}, {7, 2}, {6, 6}};
  auto tryM = [&](const std::function<Mat()> &f) {
    try { return Raw{"{\"ok\":true,\"v\":" + js(f()).s + "}"}; } catch (const std::exception &) { return Raw{"{\"ok\":false}"}; }
  };
  for (size_t a = 0; a < 3; a++)
    for (size_t b = 0; b < 3; b++) Ev("mnew")("m", m)("r", a)("c", b)("res", tryM([&] { return Mat(a, b); }));
  const int sessions = Thorough() ? 30 : 5;
  typedef std::vector<std::pair<size_t, size_t>> Shapes;
  auto session = [&](const Shapes &shapes, int steps, bool large) {
    std::map<int, Mat> regs;
    std::vector<int> ids;
    auto put = [&](const Mat &x) { int o = ++id; regs.emplace(o, x); ids.push_back(o); Ev("mset")("m", m)("o", o)("v", js(x)); return o; };
    auto make = [&](size_t a, size_t b) {
      Mat x(a, b);
      for (size_t i = 0; i < a; i++) for (size_t j = 0; j < b; j++) x(i, j) = large && a == 14 && i < 13 ? E((V)i) : any();
      return put(x);
    };
    for (auto &sh : shapes) { make(sh.first, sh.second); if (r.chance(60)) make(sh.first, sh.second); }
    auto peek = [&](int o) { Ev("mpeek")("m", m)("o", o)("v", js(regs.at(o))); };
    auto like = [&](int o) {      // mostly a matrix of the same shape
      if (r.chance(20)) return r.pick(ids);
      for (int i = 0; i < 60; i++) {
        int x = r.pick(ids);
        if (regs.at(x).RowCount() == regs.at(o).RowCount() && regs.at(x).ColumnCount() == regs.at(o).ColumnCount()) return x;
      }
      return o;
    };
    static const char *ops[] = {"add", "sub", "mul"};
    for (int i = 0; i < steps; i++) {
      int a = large && i < 9 ? ids[0] : r.pick(ids), b = like(a);
      Mat &x = regs.at(a);
      Mat &y = regs.at(b);
      switch (large && i < 9 ? (i + 8) % 9 : (int)r.below(9)) {
        case 0: case 1: {
          int k = r.below(3);
          Ev("mbin")("m", m)("op", ops[k])("a", a)("b", b)("res", tryM([&] { return k == 0 ? x.Add(y) : k == 1 ? x.Subtract(y) : x.Multiply(y); }))(
              "a2", js(x))("b2", js(y));
          break;
        }
        case 2: case 3: {      // in place; the returned matrix is the target
          int k = r.below(3);
          bool same = true;
          Raw res = tryM([&] {
            Mat &z = k == 0 ? x.AddInto(y) : k == 1 ? x.SubtractInto(y) : x.MultiplyInto(y);
            same = &z == &x;
            return z;
          });
          Ev("minto")("m", m)("op", ops[k])("a", a)("b", b)("res", res)("same", same)("a2", js(x))("b2", js(y));
          break;
        }
        case 4: {
          E k = any();
          Ev("mscale")("m", m)("a", a)("k", k)("res", tryM([&] { return x.Scale(k); }))("a2", js(x));
          break;
        }
        case 5: {
          if (r.chance(40)) {      // by one of its own entries
            size_t i0 = r.below(x.RowCount()), j0 = r.below(x.ColumnCount());
            E k = x(i0, j0);
            Ev("mscaleby")("m", m)("a", a)("k", k)("res", tryM([&] { return x.ScaleBy(x(i0, j0)); }))("a2", js(x));
          } else {
            E k = any();
            Ev("mscaleby")("m", m)("a", a)("k", k)("res", tryM([&] { return x.ScaleBy(k); }))("a2", js(x));
          }
          break;
        }
        case 6: {
          int c = r.pick(ids);
          if (r.chance(large ? 100 : 70))
            for (int t = 0; t < 60 && regs.at(c).RowCount() != x.ColumnCount(); t++) c = r.pick(ids);
          Mat &z = regs.at(c);
          if (x.RowCount() * z.ColumnCount() > 2000) break;
          Ev("mmatmul")("m", m)("a", a)("b", c)("res", tryM([&] { return x.MatMul(z); }))("a2", js(x))("b2", js(z));
          break;
        }
        case 7: {
          size_t q[4];
          q[0] = r.below(x.RowCount() + 1); q[1] = r.chance(30) ? r.below(x.RowCount() + 3) : q[0] + 1 + r.below(x.RowCount());
          q[2] = r.below(x.ColumnCount() + 1); q[3] = r.chance(30) ? r.below(x.ColumnCount() + 3) : q[2] + 1 + r.below(x.ColumnCount());
          if (r.chance(60)) {
            q[0] = r.below(x.RowCount()); q[1] = q[0] + 1 + r.below(x.RowCount() - q[0]);
            q[2] = r.below(x.ColumnCount()); q[3] = q[2] + 1 + r.below(x.ColumnCount() - q[2]);
          }
          if (large) { q[0] = r.below(2); q[1] = x.RowCount(); q[2] = r.below(2); q[3] = x.ColumnCount(); }
          if (q[0] == q[1] || q[2] == q[3]) break;      // empty: unspecified
          Ev("msub")("m", m)("a", a)("q", std::vector<int>{(int)q[0], (int)q[1], (int)q[2], (int)q[3]})(
              "res", tryM([&] { return x.extract_submatrix(q[0], q[1], q[2], q[3]); }))("a2", js(x));
          break;
        }
        case 8: {
          std::string t = x.ToString();
          std::vector<Raw> lines;
          std::istringstream in(t);
          std::string ln;
          while (std::getline(in, ln)) {
            if (ln.empty() && lines.empty()) continue;
            std::istringstream tok(ln.size() >= 2 ? ln.substr(1, ln.size() - 2) : "");
            std::vector<Raw> ts;
            std::string w;
            while (tok >> w) ts.push_back(Digits(w));
            lines.push_back(Raw{"{\"open\":" + Js(!ln.empty() && ln.front() == '[') + ",\"close\":" + Js(!ln.empty() && ln.back() == ']') +
                                ",\"len\":" + std::to_string(ln.size()) + ",\"t\":" + Js(ts) + "}"});
          }
          Ev("mtext")("m", m)("a", a)("lines", lines);
          break;
        }
      }
      if (i % 10 == 0) peek(r.pick(ids));
    }
    for (int o : ids) peek(o);
  };
  for (int s = 0; s < sessions; s++) session(shapes, 250, false);
  // many rows, many columns, many entries
  if (First() || Thorough()) {
    session(Shapes{{300, 2}, {2, 2}}, 14, true);
    session(Shapes{{2, 300}, {300, 2}}, 14, true);
    session(Shapes{{20, 30}, {30, 1}, {1, 20}}, 14, true);
    session(Shapes{{1, 257}, {257, 1}}, 14, true);
    session(Shapes{{3, 33}, {33, 2}}, 14, true);
    session(Shapes{{16, 65}, {65, 1}}, 14, true);
    session(Shapes{{31, 3}, {3, 17}}, 14, true);
    session(Shapes{{14, 2}, {2, 14}}, 14, true);
  }
  // element access is by row and column
  for (auto &sh : shapes) {
    Mat x(sh.first, sh.second);
    for (size_t i = 0; i < sh.first; i++) for (size_t j = 0; j < sh.second; j++) x(i, j) = E((V)(100 * i + j));
    Ev("mcell")("m", m)("v", js(x))("r", sh.first)("c", sh.second);
  }
  for (size_t rows : {0, 1, 2, 3, 6})
    for (size_t cols : {0, 1, 2, 4, 9}) {
      std::vector<E> al;
      for (size_t i = 0; i < rows; i++) al.push_back(i == 1 ? E((V)0) : any());
      Ev("vand")("m", m)("al", al)("c", cols)("res", tryM([&] { return create_vandermonde_matrix(al, cols); }));
      E base = r.chance(40) ? E((V)(P::kPrime - 2)) : any();
      Ev("vandoff")("m", m)("base", base)("r", rows)("c", cols)("res", tryM([&] { return create_vandermonde_matrix(base, rows, cols); }));
    }
  // many rows, many columns
  for (auto &sh : std::vector<std::pair<size_t, size_t>>{{300, 3}, {2, 300}}) {
    std::vector<E> al;
    for (size_t i = 0; i < sh.first; i++) al.push_back(any());
    Ev("vand")("m", m)("al", al)("c", sh.second)("res", tryM([&] { return create_vandermonde_matrix(al, sh.second); }));
    E base = any();
    Ev("vandoff")("m", m)("base", base)("r", sh.first)("c", sh.second)("res", tryM([&] { return create_vandermonde_matrix(base, sh.first, sh.second); }));
  }
  // vectors
  auto tryV = [&](const std::function<std::vector<E>()> &f) {
    try { return Raw{"{\"ok\":true,\"v\":" + Js(f()) + "}"}; } catch (const std::exception &) { return Raw{"{\"ok\":false}"}; }
  };
  for (int i = 0; i < (Thorough() ? 900 : 160); i++) {
    size_t na = i < 10 ? i : i < 13 ? 255 + 45 * (i - 10) : r.below(r.chance(10) ? 60 : 12), nb = r.chance(75) ? na : (r.chance(50) ? na + 1 : r.below(12));
    std::vector<E> a(na), b(nb);
    for (auto &x : a) x = any();
    for (auto &x : b) x = any();
    Raw add = tryV([&] { return vec::Add(a, b); }), sub = tryV([&] { return vec::Subtract(a, b); }), mul = tryV([&] { return vec::Multiply(a, b); });
    auto into = [&](int k, bool self) {
      auto t = a;
      const auto &o = self ? t : b;
      bool same = true;
      Raw res = tryV([&] {
        auto &z = k == 0 ? vec::AddInto(t, o) : k == 1 ? vec::SubtractInto(t, o) : vec::MultiplyInto(t, o);
        same = &z == &t;
        return z;
      });
      return Raw{"{\"res\":" + res.s + ",\"left\":" + Js(t) + ",\"same\":" + Js(same) + "}"};
    };
    E k = any();
    auto sc = a, own = a;
    size_t at = na ? r.below(na) : 0;
    vec::ScaleBy(sc, k);
    if (na) vec::ScaleBy(own, own[at]);
    Bytes buf(na * E::ByteSize() + 8, 0xA5);
    vec::ToBytes(buf.data(), a);
    bool clean = true;
    for (int j = 0; j < 8; j++) clean = clean && buf[na * E::ByteSize() + j] == 0xA5;
    Ev("vec")("m", m)("a", a)("b", b)("add", add)("sub", sub)("mul", mul)(
        "dot", Try<E>([&] { return vec::Dot(a, b); }))("dots", Try<E>([&] { return vec::Dot(a, a); }))(
        "into", std::vector<Raw>{into(0, false), into(1, false), into(2, false)})(
        "self", std::vector<Raw>{into(0, true), into(1, true), into(2, true)})("k", k)("scale", vec::Scale(a, k))("scaleby", sc)(
        "at", at)("own", own)("sum", vec::Sum(a))("back", vec::FromBytes<E>(buf.data(), na))("clean", clean)("a2", a)("b2", b);
    // the printed form
    std::string t = frn::lib::utils::to_string(a);
    bool open = t.rfind("#[", 0) == 0, close = !t.empty() && t.back() == ']';
    std::string body = t.size() >= 3 ? t.substr(2, t.size() - 3) : "";
    std::vector<Raw> toks;
    int more = 0;
    for (size_t pos = 0; pos < body.size();) {
      size_t c = body.find(", ", pos);
      std::string w = body.substr(pos, c == std::string::npos ? c : c - pos);
      pos = c == std::string::npos ? body.size() : c + 2;
      int cnt = 0;
      if (sscanf(w.c_str(), "... (%d more element", &cnt) == 1) more = cnt;
      else toks.push_back(Digits(w));
    }
    Ev("vtext")("m", m)("a", a)("open", open)("close", close)("t", toks)("more", more);
  }
}
static void MatAll() {
  Rng r(Seed() ^ 0x16);
  int id = 0;
  MatOne<Mp61>(r, id);
  MatOne<Mp127>(r, id);
}

int main(int argc, char **argv) {
  if (argc < 3) return 3;
  Open(argv[1]);
  std::string mode = argv[2];
  if (mode == "prg") Prg();
  else if (mode == "prgbig") PrgBig();
  else if (mode == "hash") HashAll();
  else if (mode == "field") FieldAll();
  else if (mode == "matrix") MatAll();
  else return 3;
  Ev("end");
  Flush();
  return 0;
}
