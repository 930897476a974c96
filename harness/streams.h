// Byte streams whose contents identify positions: what was received is written
// to the trace as runs [position, length] of the stream it should come from
// (bytes that do not occur there as [-1, byte]).
#ifndef VERIF_STREAMS_H
#define VERIF_STREAMS_H
#include <map>
#include "common.h"
namespace vh {
struct Streams {
  struct S { std::vector<unsigned char> all; size_t pos = 0; };
  std::map<std::pair<int, int>, S> s;
  // the next k bytes of a stream
  std::vector<unsigned char> Fresh(int a, int b, size_t k) {
    auto &x = s[{a, b}];
    std::vector<unsigned char> r(k);
    for (auto &y : r) { y = Byte(a, b, x.all.size()); x.all.push_back(y); }
    return r;
  }
  // bytes chosen by the caller that become part of a stream
  void Append(int a, int b, const unsigned char *d, size_t k) { auto &x = s[{a, b}]; x.all.insert(x.all.end(), d, d + k); }
  static unsigned char Byte(int a, int b, size_t p) {
    uint64_t z = (uint64_t)p * 0x9E3779B97F4A7C15ULL + (uint64_t)(a * 131 + b) * 0xBF58476D1CE4E5B9ULL + 77;
    z ^= z >> 29; z *= 0x94D049BB133111EBULL; z ^= z >> 32;
    return (unsigned char)z;
  }
  Raw Decode(int a, int b, const unsigned char *d, size_t k) {
    auto &x = s[{a, b}];
    std::string o = "[";
    auto add = [&](long p, long l) { if (o.size() > 1) o += ","; o += "[" + std::to_string(p) + "," + std::to_string(l) + "]"; };
    auto same = [&](size_t p, size_t i) { size_t l = 0; while (i + l < k && p + l < x.all.size() && x.all[p + l] == d[i + l]) l++; return l; };
    size_t i = 0, at = x.pos;
    while (i < k) {
      size_t l = same(at, i), p = at;
      if (l == 0 || (l < k - i && l < 6)) {           // somewhere else?
        size_t best = 0, bp = 0;
        for (size_t c = 0; c < x.all.size() && best < k - i; c++) { size_t m = same(c, i); if (m > best) { best = m; bp = c; } }
        if (best > l && best >= std::min<size_t>(6, k - i)) { l = best; p = bp; }
      }
      if (l == 0) { add(-1, d[i]); i++; continue; }
      add((long)p, (long)l);
      i += l;
      at = p + l;
    }
    x.pos = at;
    return Raw{o + "]"};
  }
};
}  // namespace vh
#endif
