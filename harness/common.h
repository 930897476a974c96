// Common parts of the harnesses: JSON trace lines, seeded inputs, crash marks.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <sys/syscall.h>
#include <time.h>
#include <atomic>
#include <thread>
#include <signal.h>
#include <unistd.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

namespace vh {

inline int gFd = 1;          // trace file
inline std::string gBuf;     // not yet written

inline void Flush() {
  size_t off = 0;
  while (off < gBuf.size()) {
    ssize_t k = ::write(gFd, gBuf.data() + off, gBuf.size() - off);
    if (k <= 0) break;
    off += (size_t)k;
  }
  gBuf.clear();
}

// ---- JSON values -----------------------------------------------------------
// An integer of up to 128 bits is written as little-endian 13-bit limbs (the
// trace specification's representation of a field element).
inline std::string Limbs(const unsigned char *bytes, size_t nbytes) {
  size_t nl = nbytes == 8 ? 5 : 10;
  unsigned __int128 v = 0;
  std::memcpy(&v, bytes, nbytes);
  std::string s = "[";
  for (size_t i = 0; i < nl; i++) {
    if (i) s += ",";
    // the top limb takes all remaining bits, so nothing is lost
    unsigned long limb = (i + 1 == nl) ? (unsigned long)v : (unsigned long)(v & 8191);
    s += std::to_string(limb);
    v >>= 13;
  }
  return s + "]";
}

inline std::string Js(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o + "\"";
}
inline std::string Js(const char *s) { return Js(std::string(s)); }
inline std::string Js(bool b) { return b ? "true" : "false"; }
template <class T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>, int> = 0>
inline std::string Js(T v) { return std::to_string((long long)v); }
// field elements
template <class T, class = decltype(std::declval<const T &>().ToBytes((unsigned char *)nullptr)),
          class = decltype(T::ByteSize())>
inline std::string Js(const T &v) {
  unsigned char b[64] = {0};
  v.ToBytes(b);
  return Limbs(b, T::ByteSize());
}
template <class T> inline std::string Js(const std::vector<T> &v);
template <class A, class B> inline std::string Js(const std::pair<A, B> &v) {
  return "[" + Js(v.first) + "," + Js(v.second) + "]";
}
template <class T> inline std::string Js(const std::vector<T> &v) {
  std::string s = "[";
  bool first = true;
  for (const auto &x : v) { if (!first) s += ","; first = false; s += Js(x); }
  return s + "]";
}
struct Raw { std::string s; };
inline std::string Js(const Raw &r) { return r.s; }

inline std::atomic<long> gEvents{0};
// A thread may keep its events, to be put in order afterwards (recording them
// must not order the threads).
typedef std::vector<std::pair<long, std::string>> Kept;
inline thread_local Kept *tKept = nullptr;
// One trace line, written when it goes out of scope.
class Ev {
 public:
  explicit Ev(const char *name) : s("{\"e\":\"") { s += name; s += "\""; }
  template <class T> Ev &operator()(const char *key, const T &v) {
    s += ",\""; s += key; s += "\":"; s += Js(v);
    return *this;
  }
  ~Ev() {
    const long at = gEvents.fetch_add(1, std::memory_order_relaxed);
    if (tKept) { tKept->push_back({at, s + "}\n"}); return; }
    gBuf += s; gBuf += "}\n";
    if (gBuf.size() > (1 << 16)) Flush();
  }
 private:
  std::string s;
};

// ---- seeded choices -----------------------------------------------------------
struct Rng {
  uint64_t x;
  explicit Rng(uint64_t seed) : x(seed * 0x9E3779B97F4A7C15ULL + 0x1234567) {}
  uint64_t next() {
    uint64_t z = (x += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  bool chance(int percent) { return below(100) < (uint64_t)percent; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

// A size near a multiple of a power of two, at which buffers tend to end.
inline size_t RoundSize(Rng &g, int most) {
  int bits = 3 + (int)g.below((uint64_t)most - 2);
  return ((size_t)1 << bits) * (1 + g.below(bits > 14 ? 2 : 4)) + g.below(4) / 2 - (size_t)g.chance(20);
}

inline void OnCrash(int sig) {
  Flush();
  char b[64];
  int k = snprintf(b, sizeof b, "{\"e\":\"crash\",\"sig\":%d}\n", sig);
  if (::write(gFd, b, (size_t)k) < 0) {}
  _exit(70);
}
// Real threads that make no progress for a long time.
inline void Watch(int seconds) {
  std::thread([seconds] {
    long last = -1;
    for (int still = 0; still < seconds; still++) {
      if (gEvents != last) { last = gEvents; still = 0; }
      struct timespec t = {1, 0};
      syscall(SYS_nanosleep, &t, nullptr);
    }
    OnCrash(1001);
  }).detach();
}
inline void OnTerminate() { OnCrash(1000); }

// argv[1] = trace file; stdout and stderr go to /dev/null unless VH_KEEP is set
inline void Open(const char *path) {
  gFd = ::open(path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (gFd < 0) { perror(path); exit(3); }
  if (!getenv("VH_KEEP")) {
    int n = ::open("/dev/null", O_WRONLY);
    dup2(n, 1);
  }
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(s, OnCrash);
  std::set_terminate(OnTerminate);
}

inline uint64_t Seed() { const char *s = getenv("VERIF_SEED"); return s ? strtoull(s, nullptr, 10) : 1; }
inline bool Thorough() { const char *s = getenv("VERIF_TIER"); return s && std::string(s) == "thorough"; }
// the first of the seeds of this run (the costly cases run once)
inline bool First() { const char *s = getenv("VERIF_FIRST"); return !s || std::string(s) == "1"; }

}  // namespace vh
#endif
