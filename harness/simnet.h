// Parties as fibers over a simulated network: one stream per ordered pair of
// parties.  Which party moves next is decided at every communication step by a
// schedule (given, or made from a seed), so every interleaving of the parties'
// communication steps can be produced and repeated.
#ifndef VERIF_SIMNET_H
#define VERIF_SIMNET_H
#include <ucontext.h>
#include <algorithm>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <mutex>
#include "common.h"
#include "frn/network.h"
namespace vh {

struct Sim;
inline Sim *gSim = nullptr;

struct Sim {
  typedef std::deque<std::string> Stream;      // JSON of elements (5 limbs) and bytes (1 number)
  int n;
  std::vector<std::vector<Stream>> q;          // [from][to]
  std::vector<ucontext_t> ctx;
  std::vector<std::vector<char>> stacks;
  std::vector<std::function<void()>> prog;
  std::vector<bool> done;
  std::vector<std::function<bool()>> ready;    // what a waiting party waits for
  std::vector<std::string> failed;
  ucontext_t main_ctx;
  int cur = -1;
  std::vector<int> schedule;                   // 0-based parties; used first
  size_t at = 0;
  int policy = 0;                              // 0 random, 1 run to block, 2 first, 3 last, 4 round robin, 5 random priorities
  std::vector<int> prio;
  Rng rng;
  long steps = 0;
  bool silent = false;
  // Parties as real threads: they move as they like, and a stream orders only
  // the two threads that use it.
  bool threads = false;
  struct Lock { std::mutex m; std::condition_variable c; };
  std::vector<std::unique_ptr<Lock>> locks;

  Sim(int n_, uint64_t seed) : n(n_), q(n_, std::vector<Stream>(n_)), ctx(n_), stacks(n_), prog(n_), done(n_, false),
                               ready(n_), failed(n_), prio(n_), rng(seed) {
    for (int i = 0; i < n; i++) prio[i] = (int)rng.below(1000000);
  }

  static void Entry(int id) {
    Sim *s = gSim;
    try { s->prog[id](); }
    catch (const std::exception &e) { s->failed[id] = std::string("exception: ") + e.what(); }
    catch (...) { s->failed[id] = "exception"; }
    s->done[id] = true;
    swapcontext(&s->ctx[id], &s->main_ctx);
  }

  bool RunThreads() {
    for (int i = 0; i < n * n; i++) locks.push_back(std::make_unique<Lock>());
    std::vector<Kept> kept(n);
    std::vector<std::thread> t;
    for (int i = 0; i < n; i++)
      t.emplace_back([this, i, k = &kept[i]] {
        tKept = k;
        try { prog[i](); }
        catch (const std::exception &e) { failed[i] = std::string("exception: ") + e.what(); }
        tKept = nullptr;
      });
    for (auto &x : t) x.join();
    Kept all;
    for (auto &k : kept) all.insert(all.end(), k.begin(), k.end());
    std::sort(all.begin(), all.end());
    for (auto &x : all) gBuf += x.second;
    for (int i = 0; i < n; i++)
      if (!failed[i].empty()) { Ev("failed")("party", i)("what", failed[i]); return false; }
    return true;
  }

  // called by a party before a communication step; returns when it may do it
  void Step(std::function<bool()> can) {
    int me = cur;
    ready[me] = std::move(can);
    swapcontext(&ctx[me], &main_ctx);
    ready[me] = nullptr;
  }

  int Choose(const std::vector<int> &en) {
    while (at < schedule.size()) {
      int want = schedule[at++];
      for (int e : en) if (e == want) return e;
    }
    auto has = [&](int x) { for (int e : en) if (e == x) return true; return false; };
    switch (policy) {
      case 1: if (cur >= 0 && has(cur)) return cur; return rng.pick(en);
      case 2: return en.front();
      case 3: return en.back();
      case 4: for (int k = 1; k <= n; k++) { int c = (cur + k + n) % n; if (has(c)) return c; } return en[0];
      case 5: {
        if (rng.chance(5)) prio[rng.below(n)] = (int)rng.below(1000000);
        int b = en[0];
        for (int e : en) if (prio[e] > prio[b]) b = e;
        return b;
      }
      default: return rng.pick(en);
    }
  }

  // Runs all programs; false if they got stuck or failed (an event says why).
  bool Run() {
    if (threads) return RunThreads();
    gSim = this;
    for (int i = 0; i < n; i++) {
      stacks[i].resize(1 << 20);
      getcontext(&ctx[i]);
      ctx[i].uc_stack.ss_sp = stacks[i].data();
      ctx[i].uc_stack.ss_size = stacks[i].size();
      ctx[i].uc_link = nullptr;
      makecontext(&ctx[i], (void (*)())Entry, 1, i);
      done[i] = false;
      ready[i] = nullptr;
    }
    while (true) {
      std::vector<int> en;
      bool all = true;
      for (int i = 0; i < n; i++)
        if (!done[i]) { all = false; if (!ready[i] || ready[i]()) en.push_back(i); }
      if (all) break;
      if (en.empty()) {
        std::vector<int> stuck;
        for (int i = 0; i < n; i++) if (!done[i]) stuck.push_back(i);
        Ev("deadlock")("parties", stuck);
        return false;
      }
      cur = Choose(en);
      steps++;
      swapcontext(&main_ctx, &ctx[cur]);
    }
    for (int i = 0; i < n; i++)
      if (!failed[i].empty()) { Ev("failed")("party", i)("what", failed[i]); return false; }
    return true;
  }
};

class SimNetwork : public frn::Network {
 public:
  SimNetwork(Sim &s, unsigned id, std::size_t n, std::size_t share) : frn::Network(id, n), s(s), share(share) {}
  void Send(unsigned id, const std::vector<frn::Field> &v) override {
    if (!s.threads) s.Step([] { return true; });
    std::vector<std::string> u;
    for (auto &x : v) u.push_back(Js(x));
    Put(id, u);
  }
  void SendShares(unsigned id, const std::vector<frn::Shr> &v) override {
    for (auto &x : v) Send(id, x);
  }
  void SendBytes(unsigned id, const std::vector<unsigned char> &v) override {
    if (!s.threads) s.Step([] { return true; });
    std::vector<std::string> u;
    for (auto x : v) u.push_back("[" + std::to_string((int)x) + "]");
    Put(id, u);
  }
  std::vector<frn::Field> Recv(unsigned id, std::size_t n) override {
    auto u = Take(id, n);
    std::vector<frn::Field> r;
    for (auto &x : u) r.push_back(Parse(x));
    return r;
  }
  std::vector<frn::Shr> RecvShares(unsigned id, std::size_t n) override {
    std::vector<frn::Shr> r;
    for (std::size_t i = 0; i < n; i++) r.push_back(Recv(id, share));
    return r;
  }
  std::vector<unsigned char> RecvBytes(unsigned id, std::size_t n) override {
    auto u = Take(id, n);
    std::vector<unsigned char> r;
    for (auto &x : u) {
      if (x.find(',') != std::string::npos) throw std::runtime_error("an element where a byte was expected");
      r.push_back((unsigned char)atoi(x.c_str() + 1));
    }
    return r;
  }

 private:
  static frn::Field Parse(const std::string &x) {
    uint64_t v = 0, sh = 0;
    const char *p = x.c_str() + 1;
    for (int i = 0; i < 5; i++) {
      char *e;
      v |= (uint64_t)strtoul(p, &e, 10) << sh;
      if (*e != (i == 4 ? ']' : ',')) throw std::runtime_error("a byte where an element was expected");
      p = e + 1;
      sh += 13;
    }
    return frn::Field((std::uint64_t)v);
  }
  void Put(unsigned id, const std::vector<std::string> &u) {
    if (id >= Size()) throw std::out_of_range("no such party");
    std::unique_lock<std::mutex> l;
    if (s.threads) l = std::unique_lock<std::mutex>(At(Id(), id).m);
    std::string j = "[";
    for (auto &x : u) { if (j.size() > 1) j += ","; j += x; s.q[Id()][id].push_back(x); }
    Ev("send")("i", Id())("j", id)("u", Raw{j + "]"});
    if (s.threads) At(Id(), id).c.notify_one();
  }
  Sim::Lock &At(unsigned i, unsigned j) { return *s.locks[i * s.n + j]; }
  std::vector<std::string> Take(unsigned id, std::size_t n) {
    if (id >= Size()) throw std::out_of_range("no such party");
    auto &q = s.q[id][Id()];
    std::unique_lock<std::mutex> l;
    if (s.threads) {
      auto &k = At(id, Id());
      l = std::unique_lock<std::mutex>(k.m);
      if (!k.c.wait_until(l, std::chrono::system_clock::now() + std::chrono::seconds(60), [&] { return q.size() >= n; }))
        throw std::runtime_error("nothing to receive for a minute");
    } else s.Step([&q, n] { return q.size() >= n; });
    std::vector<std::string> u(q.begin(), q.begin() + n);
    q.erase(q.begin(), q.begin() + n);
    Ev("recv")("i", id)("j", Id())("n", n);
    return u;
  }
  Sim &s;
  std::size_t share;
};

}  // namespace vh
#endif
