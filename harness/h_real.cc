// Networks of several parties (threads) over real sockets of the loopback
// interface.
//   h_real OUT net|threads|probe
// "threads": under the thread sanitizer.
#include <arpa/inet.h>
#include <dirent.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <time.h>
#include <condition_variable>
#include <mutex>
#include <thread>
#include "script.h"
#include "races.h"
using namespace vh;

// waiting between two attempts to connect is shortened
extern "C" int nanosleep(const struct timespec *t, struct timespec *r) {
  struct timespec s = *t;
  if (s.tv_sec || s.tv_nsec > 3000000) { s.tv_sec = 0; s.tv_nsec = 3000000; }
  return (int)syscall(SYS_nanosleep, &s, r);
}
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec *t, struct timespec *r) { return nanosleep(t, r); }

static std::mutex gMutex;
static std::condition_variable gCond;
typedef std::unique_lock<std::mutex> Lock;

static int OpenFds() {
  int k = 0;
  DIR *d = opendir("/proc/self/fd");
  while (readdir(d)) k++;
  closedir(d);
  return k;
}
static bool Free(int port) {
  int s = socket(AF_INET, SOCK_STREAM, 0);
  int one = 1;
  setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
  sockaddr_in a = {};
  a.sin_family = AF_INET;
  a.sin_port = htons((uint16_t)port);
  bool ok = bind(s, (sockaddr *)&a, sizeof a) == 0;
  close(s);
  return ok;
}

static void Session(Rng &g, int n, int cycles, int base) {
  while (true) {
    bool ok = true;
    for (int i = 0; i < n * n && ok; i++) ok = Free(base + i);
    if (ok) break;
    base = 8000 + (int)((base + 377) % 20000);
  }
  size_t cap = g.chance(30) ? 300000 : 200;
  bool same = g.chance(50);
  Streams st;
  std::vector<Script> scripts;
  for (int c = 0; c < cycles; c++) scripts.push_back(MakeScript(g, n, 2 + (int)g.below(6 * n), cap));
  int before = OpenFds();
  Ev("session")("n", n)("os", "real");
  int connected = 0;
  std::vector<int> arrived(cycles, 0);
  std::vector<std::thread> th;
  for (int p = 0; p < n; p++) {
    uint64_t sd = g.next();
    th.emplace_back([&, p, sd] {
      Rng r(sd);
      std::unique_ptr<net::Network> nw;
      for (int c = 0; c < cycles; c++) {
        if (r.chance(50)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(3000)));
        if (!nw || !same) nw = std::make_unique<net::Network>(BuildNet(p, n, base));
        { Lock l(gMutex); Ev("connecting")("p", p); }
        nw->Connect();
        { Lock l(gMutex); Ev("connected")("p", p)("id", nw->LocalPeerId())("size", nw->Size()); connected++; gCond.notify_all(); }
        for (auto &o : scripts[c][p]) {
          if (o.k == 's' || o.k == 'b') {
            std::vector<unsigned char> d;
            {
              Lock l(gMutex);
              if (o.k == 's') d = st.Fresh(p, o.peer, o.size);
              else {
                for (int i = 0; i < o.size; i++) d.push_back((unsigned char)r.next());
                for (int j = 0; j < n; j++) st.Append(p, j, d.data(), d.size());
              }
              Ev("nsend")("p", p)("to", o.k == 's' ? o.peer : -1)("k", o.size);
            }
            if (o.k == 's') nw->SendTo(o.peer, d.data(), d.size());
            else nw->Broadcast(d.data(), d.size());
            std::fill(d.begin(), d.end(), 0x11);
            Lock l(gMutex);
            Ev("nsent")("p", p);
          } else if (o.k == 'r') {
            std::vector<unsigned char> b((size_t)o.size + 1, 0xAA);
            { Lock l(gMutex); Ev("nrecving")("p", p); }
            nw->RecvFrom(o.peer, b.data(), (size_t)o.size);
            Lock l(gMutex);
            Ev("nrecv")("p", p)("from", o.peer)("k", o.size)("u", st.Decode(o.peer, p, b.data(), (size_t)o.size))("past", (int)b[(size_t)o.size]);
          } else {
            Lock l(gMutex);
            arrived[c]++;
            gCond.notify_all();
            gCond.wait(l, [&] { return arrived[c] == n; });
          }
        }
        {
          Lock l(gMutex);
          gCond.wait(l, [&] { return connected >= (c + 1) * n; });
          Ev("closing")("p", p);
        }
        nw->Close();
        Lock l(gMutex);
        Ev("closed")("p", p)("fds", 0);
      }
    });
  }
  for (auto &t : th) t.join();
  Ev("fin")("fds", OpenFds() - before);
}

int main(int argc, char **argv) {
  if (argc < 3) return 3;
  if (std::string(argv[2]) == "probe") return Probe();
  Open(argv[1]);
  Watch(60);
  Rng g(Seed());
  int base = 8000 + (int)(getpid() % 200) * 100;
  int rounds = Thorough() ? 300 : 30;
  for (int r = 0; r < rounds; r++) Session(g, r % 6 == 5 ? 7 : 2 + r % 4, 1 + (int)g.below(4), base), Races();
  Ev("end");
  Flush();
  _exit(0);
}
