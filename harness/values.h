// Field values used as inputs: boundary values and random ones.
#ifndef VERIF_VALUES_H
#define VERIF_VALUES_H
#include "common.h"
#include "frn/lib/primitives/prg.h"
#include "frn/util.h"
namespace vh {
using frn::Field;
inline Field F(uint64_t v) { return Field((std::uint64_t)v); }
inline const std::vector<uint64_t> &Boundary61() {
  static const uint64_t p = (1ULL << 61) - 1;
  static const std::vector<uint64_t> v = {
      0, 1, 2, 3, 255, 256, 65535, 65536, (1ULL << 31) - 1, 1ULL << 31, (1ULL << 32) - 1,
      1ULL << 32, (1ULL << 32) + 1, (1ULL << 48), (1ULL << 53), (1ULL << 59), (1ULL << 60) - 1,
      1ULL << 60, (1ULL << 60) + 1, p - 1, p - 2, p - 3, (p - 1) / 2, (p + 1) / 2, p - (1ULL << 32)};
  return v;
}
inline Field AnyField(Rng &r) {
  if (r.chance(30)) return F(r.pick(Boundary61()));
  if (r.chance(10)) return F(r.below(1000));
  return F(r.next() & ((1ULL << 61) - 1));
}
inline Field Plain(Rng &r) {      // a value that code may treat in a special way
  Field f = F(r.below(r.chance(50) ? 3 : 40));
  return r.chance(30) ? -f : f;
}
// A sharing of a secret whose components are such values, but for one.
template <class Rep> std::vector<std::vector<Field>> Made(Rng &r, const Rep &rep, const Field &secret) {
  const int K = (int)rep.AdditiveShareSize(), odd = (int)r.below((uint64_t)K), style = (int)r.below(3);
  std::vector<Field> comp(K, F(0));
  Field rest = secret, same = Plain(r);
  for (int i = 0; i < K; i++)
    if (i != odd) { if (style) comp[i] = style == 1 ? same : Plain(r); rest -= comp[i]; }
  comp[odd] = rest;
  std::vector<std::vector<Field>> s(rep.Size());
  for (int p = 0; p < (int)rep.Size(); p++)
    for (int i : rep.IndexSetFor(p)) s[p].push_back(comp[i]);
  return s;
}
inline frn::lib::primitives::PRG MakePrg(uint64_t seed) {
  unsigned char b[16] = {0};
  uint64_t a = seed * 0x9E3779B97F4A7C15ULL + 77, c = ~seed * 0xBF58476D1CE4E5B9ULL + 5;
  std::memcpy(b, &a, 8);
  std::memcpy(b + 8, &c, 8);
  return frn::lib::primitives::PRG(b);
}
}  // namespace vh
#endif
