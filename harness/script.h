// What the parties of a network do.
#ifndef VERIF_SCRIPT_H
#define VERIF_SCRIPT_H
#include "frn/lib/net/builder.h"
#include "frn/lib/net/network.h"
#include "streams.h"
namespace vh {
namespace net = frn::lib::net;

struct Op { char k; int peer; int size; };      // s send, r receive, b broadcast, w wait for the others
typedef std::vector<std::vector<Op>> Script;

static int SizeOf(Rng &g, size_t cap) {
  if (g.chance(8)) return (int)RoundSize(g, cap > 1000 ? 17 : cap > 32 ? 12 : 6);
  switch (g.below(7)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return (int)g.below(4);
    case 3: return (int)cap + (int)g.below(3) - 1;
    case 4: return (int)(cap * (1 + g.below(4)));
    case 5: return 8 * (1 + (int)g.below(8));
    default: return (int)g.below(90);
  }
}

// A sequence of sends and receives of everybody that can be carried out in this
// order; each party does its part of it.
static Script MakeScript(Rng &g, int n, int ops, size_t cap) {
  Script s(n);
  std::vector<std::vector<long>> owed(n, std::vector<long>(n, 0));     // [from][to]
  bool flood = g.chance(30), quiet = g.chance(10);
  for (int i = 0; i < (quiet ? (int)g.below(3) : ops); i++) {
    int a = (int)g.below(n), b = g.chance(15) ? a : (int)g.below(n);
    if (flood || g.chance(55)) {
      int k = SizeOf(g, cap);
      if (g.chance(8)) {
        s[a].push_back({'b', 0, k});
        for (int j = 0; j < n; j++) owed[a][j] += k;
      } else {
        s[a].push_back({'s', b, k});
        owed[a][b] += k;
      }
    } else {
      int k = g.chance(10) ? 0 : (int)g.below((uint64_t)owed[b][a] + 1);
      s[a].push_back({'r', b, k});
      owed[b][a] -= k;
    }
  }
  if (flood) for (auto &x : s) x.push_back({'w', 0, 0});
  for (int a = 0; a < n; a++) {
    std::vector<int> order;
    for (int b = 0; b < n; b++) order.insert(order.begin() + (long)g.below(order.size() + 1), b);
    for (int b : order)
      while (owed[b][a] > 0) {
        int k = g.chance(30) ? (int)owed[b][a] : 1 + (int)g.below((uint64_t)owed[b][a]);
        s[a].push_back({'r', b, k});
        owed[b][a] -= k;
      }
  }
  return s;
}

static net::Network BuildNet(int id, int n, int base) {
  net::Network::Builder b;
  return b.LocalPeerId(id).Size((size_t)n).TransportType(net::Network::TransportType::eTcp).BasePort(base).AllPartiesLocal().Build();
}

}  // namespace vh
#endif
