// The shared queue under real threads, built with the thread sanitizer: the
// specification takes each operation for one step on the queue, which holds
// only if no two threads access it at once.
//   h_race OUT probe|deque
#include <mutex>
#include <thread>
#include <algorithm>
#include "common.h"
#include "races.h"
#include "frn/lib/net/shared_deque.h"
using namespace vh;

// Recorded without a lock, which would order the accesses of the threads.
struct Rec { long at; int t; char k; char op; long v; };
static std::atomic<long> gClock;
struct Op { char k; int v; };

static const char *Name(char k) { return k == 'p' || k == 'm' ? "push" : k == 'f' ? "front" : k == 'x' ? "pop" : "size"; }

static void Round(Rng &g) {
  // at most four threads: a history in which more calls overlap takes very
  // long to explain
  const bool lots = g.chance(6);
  int producers = lots ? 1 : 1 + (int)g.below(3), pushes = 0, v = 1;
  int consumers = lots ? 1 : 1 + (int)g.below(producers == 3 ? 1 : 2);
  std::vector<std::vector<Op>> p;
  for (int i = 0; i < producers; i++) {
    std::vector<Op> o;
    int k = 1 + (int)g.below(lots ? 300 : producers > 1 ? 4 : 6);
    for (int j = 0; j < k; j++) { o.push_back({g.chance(50) ? 'p' : 'm', v++}); pushes++; if (!lots && g.chance(15)) o.push_back({'s', 0}); }
    p.push_back(o);
  }
  std::vector<std::vector<Op>> c(consumers);
  for (int k = 0; k < pushes; k++) {
    auto &o = c[g.below(consumers)];
    if (consumers == 1) o.push_back({'f', 0});
    o.push_back({'x', 0});
    if (!lots && g.chance(15)) o.push_back({'s', 0});
  }
  for (auto &o : c) p.push_back(o);
  if (!lots && p.size() < 4 && g.chance(50)) p.push_back({{'s', 0}, {'s', 0}});
  int n = (int)p.size();
  std::vector<std::vector<Rec>> rec(n);
  gClock = 0;
  {
    frn::lib::net::SharedDeque<std::vector<int>> q;
    std::atomic<int> ready{0};
    std::vector<std::thread> th;
    for (int t = 0; t < n; t++)
      th.emplace_back([&, t] {
        auto now = [] { return gClock.fetch_add(1, std::memory_order_relaxed); };
        ready.fetch_add(1, std::memory_order_relaxed);
        while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield();
        for (auto &o : p[t]) {
          rec[t].push_back({now(), t, 'i', o.k, o.v});
          long r = 0;
          switch (o.k) {
            case 'p': { std::vector<int> a(1, o.v); q.PushBack(a); break; }
            case 'm': { std::vector<int> a(1, o.v); q.PushBack(std::move(a)); break; }
            case 'f': r = q.Front().at(0); break;
            case 'x': q.PopFront(); break;
            case 's': r = (long)q.Size(); break;
          }
          rec[t].push_back({now(), t, 'r', o.k, r});
        }
      });
    for (auto &t : th) t.join();
  }
  std::vector<Rec> all;
  for (auto &r : rec) all.insert(all.end(), r.begin(), r.end());
  std::sort(all.begin(), all.end(), [](const Rec &a, const Rec &b) { return a.at < b.at; });
  Ev("session")("threads", n + 1);
  for (auto &r : all) {
    if (r.k == 'i') Ev("inv")("t", r.t)("op", Name(r.op))("v", r.v);
    else Ev("res")("t", r.t)("v", r.v);
  }
  Races();
  Ev("fin");
}

int main(int argc, char **argv) {
  if (argc < 3) return 3;
  std::string m = argv[2];
  if (m == "probe") return Probe();
  Open(argv[1]);
  Watch(40);
  Rng g(Seed());
  int rounds = Thorough() ? 3000 : 300;
  for (int r = 0; r < rounds; r++) Round(g);
  Ev("end");
  Flush();
  _exit(0);
}
