// A simulated kernel for stream sockets, under the scheduler of fib.h.  The
// socket calls of the C library are replaced; other descriptors are passed on.
// Transfers may be cut short at any place, buffers are small, and every call is
// a point at which the scheduler decides who continues.
#ifndef VERIF_SIMOS_H
#define VERIF_SIMOS_H
#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <stdarg.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <deque>
#include "fib.h"
namespace vh {

struct SimOs {
  struct Pipe { int a = -1, b = -1; std::deque<unsigned char> data; bool wr_open = true, rd_open = true; size_t cap; };
  struct Sock {
    int kind = 0;                    // 0 new, 1 bound, 2 listening, 3 connected
    int port = 0, backlog = 0, party = -1;
    std::deque<std::pair<std::shared_ptr<Pipe>, std::shared_ptr<Pipe>>> pending;
    std::shared_ptr<Pipe> in, out;
  };
  static constexpr int kBase = 100000;
  std::map<int, std::shared_ptr<Sock>> fds;
  size_t cap = 64;                   // room in a connection
  int cut = 50;                      // percentage of transfers cut short
  std::map<std::pair<int, int>, long> moved;   // bytes from party to party
  bool log = false;                  // write an event for every connection
  static int party() { return gS && gS->cur >= 0 ? gS->f[gS->cur]->tag : -1; }     // who is calling
  int Open(int p) const { int k = 0; for (auto &x : fds) if (x.second->party == p) k++; return k; }

  int New() { int fd = kBase; while (fds.count(fd)) fd++; fds[fd] = std::make_shared<Sock>(); fds[fd]->party = party(); return fd; }
  std::shared_ptr<Sock> Get(int fd) { auto i = fds.find(fd); return i == fds.end() ? nullptr : i->second; }
  std::shared_ptr<Sock> Listener(int port) {
    for (auto &x : fds) if (x.second->kind == 2 && x.second->port == port) return x.second;
    return nullptr;
  }
  std::shared_ptr<Pipe> MakePipe() { auto p = std::make_shared<Pipe>(); p->cap = cap; return p; }
};
inline SimOs *gOs = nullptr;
inline bool Sim(int fd) { return fd >= SimOs::kBase; }
inline int Err(int e) { errno = e; return -1; }

inline ssize_t SimSend(int fd, const unsigned char *b, size_t n, bool nosignal) {
  SchedPoint();
  auto s = gOs ? gOs->Get(fd) : nullptr;
  if (!s) return Err(EBADF);
  if (s->kind != 3) return Err(ENOTCONN);
  auto p = s->out;
  gS->Wait([&] { return p->data.size() < p->cap || !p->rd_open || !p->wr_open || n == 0; }, "send");
  if (!p->rd_open || !p->wr_open) {
    if (!nosignal) { Ev("failed")("what", "SIGPIPE"); OnCrash(13); }
    return Err(EPIPE);
  }
  size_t k = std::min(n, p->cap - p->data.size());
  if (k > 1 && gS->Choose(100) >= 100 - gOs->cut) k = 1 + gS->Choose((int)std::min<size_t>(k, 1000));
  p->data.insert(p->data.end(), b, b + k);
  gOs->moved[{p->a, p->b}] += (long)k;
  return (ssize_t)k;
}
inline ssize_t SimRecv(int fd, unsigned char *b, size_t n, bool all, bool peek) {
  SchedPoint();
  auto s = gOs ? gOs->Get(fd) : nullptr;
  if (!s) return Err(EBADF);
  if (s->kind != 3) return Err(ENOTCONN);
  if (n == 0) return 0;
  auto p = s->in;
  size_t got = 0;
  do {
    gS->Wait([&] { return !p->data.empty() || !p->wr_open; }, "recv");
    if (p->data.empty()) break;
    size_t k = std::min(n - got, p->data.size());
    if (!all && k > 1 && gS->Choose(100) >= 100 - gOs->cut) k = 1 + gS->Choose((int)std::min<size_t>(k, 1000));
    std::copy(p->data.begin(), p->data.begin() + k, b + got);
    if (!peek) p->data.erase(p->data.begin(), p->data.begin() + k);
    got += k;
  } while (all && got < n);
  return (ssize_t)got;
}
}  // namespace vh

extern "C" {
int socket(int d, int t, int pr) {
  if (!vh::gOs) return (int)syscall(SYS_socket, d, t, pr);
  vh::SchedPoint();
  return vh::gOs->New();
}
int setsockopt(int fd, int, int, const void *, socklen_t) noexcept { if (!vh::Sim(fd)) return vh::Err(EBADF); vh::SchedPoint(); return 0; }
int getsockopt(int fd, int, int, void *v, socklen_t *l) noexcept { if (!vh::Sim(fd)) return vh::Err(EBADF); memset(v, 0, *l); return 0; }
int bind(int fd, const struct sockaddr *a, socklen_t) noexcept {
  using namespace vh;
  SchedPoint();
  auto s = gOs ? gOs->Get(fd) : nullptr;
  if (!s) return Err(EBADF);
  int port = ntohs(((const sockaddr_in *)a)->sin_port);
  for (auto &x : gOs->fds) if ((x.second->kind == 1 || x.second->kind == 2) && x.second->port == port) return Err(EADDRINUSE);
  s->kind = 1;
  s->port = port;
  return 0;
}
int listen(int fd, int backlog) noexcept {
  using namespace vh;
  SchedPoint();
  auto s = gOs ? gOs->Get(fd) : nullptr;
  if (!s || s->kind != 1) return Err(EBADF);
  s->kind = 2;
  s->backlog = backlog < 1 ? 1 : backlog;
  return 0;
}
int accept(int fd, struct sockaddr *a, socklen_t *l) {
  using namespace vh;
  SchedPoint();
  auto s = gOs ? gOs->Get(fd) : nullptr;
  if (!s || s->kind != 2) return Err(EINVAL);
  gS->Wait([s] { return !s->pending.empty() || s->kind != 2; }, "accept");
  if (s->kind != 2) return Err(EINVAL);
  int n = gOs->New();
  auto c = gOs->Get(n);
  c->kind = 3;
  c->in = s->pending.front().first;
  c->out = s->pending.front().second;
  s->pending.pop_front();
  if (a && l) memset(a, 0, std::min<socklen_t>(*l, sizeof(sockaddr_in)));
  return n;
}
int accept4(int fd, struct sockaddr *a, socklen_t *l, int) { return accept(fd, a, l); }
int connect(int fd, const struct sockaddr *a, socklen_t) {
  using namespace vh;
  SchedPoint();
  auto s = gOs ? gOs->Get(fd) : nullptr;
  if (!s) return Err(EBADF);
  if (s->kind == 3) return Err(EISCONN);
  int port = ntohs(((const sockaddr_in *)a)->sin_port);
  auto ls = gOs->Listener(port);
  if (!ls) return Err(ECONNREFUSED);
  gS->Wait([&] { auto now = gOs->Listener(port); return now != ls || (int)ls->pending.size() < ls->backlog + 1; }, "connect");
  if (gOs->Listener(port) != ls) return Err(ECONNREFUSED);
  auto up = gOs->MakePipe(), down = gOs->MakePipe();
  ls->pending.push_back({up, down});
  s->kind = 3;
  s->in = down;
  s->out = up;
  up->a = down->b = s->party;
  up->b = down->a = ls->party;
  if (gOs->log) Ev("conn")("a", s->party)("b", ls->party)("port", port);
  return 0;
}
ssize_t send(int fd, const void *b, size_t n, int flags) {
  if (!vh::Sim(fd)) return syscall(SYS_sendto, fd, b, n, flags, nullptr, 0);
  return vh::SimSend(fd, (const unsigned char *)b, n, flags & MSG_NOSIGNAL);
}
ssize_t write(int fd, const void *b, size_t n) {
  if (!vh::Sim(fd)) {
    long r = syscall(SYS_write, fd, b, n);
    return r;
  }
  struct sigaction old;
  sigaction(SIGPIPE, nullptr, &old);
  return vh::SimSend(fd, (const unsigned char *)b, n, old.sa_handler == SIG_IGN);
}
ssize_t recv(int fd, void *b, size_t n, int flags) {
  if (!vh::Sim(fd)) return syscall(SYS_recvfrom, fd, b, n, flags, nullptr, nullptr);
  return vh::SimRecv(fd, (unsigned char *)b, n, flags & MSG_WAITALL, flags & MSG_PEEK);
}
ssize_t read(int fd, void *b, size_t n) {
  if (!vh::Sim(fd)) return syscall(SYS_read, fd, b, n);
  return vh::SimRecv(fd, (unsigned char *)b, n, false, false);
}
ssize_t sendmsg(int fd, const struct msghdr *m, int flags) {
  if (!vh::Sim(fd)) return syscall(SYS_sendmsg, fd, m, flags);
  for (size_t i = 0; i < m->msg_iovlen; i++)
    if (m->msg_iov[i].iov_len) return vh::SimSend(fd, (const unsigned char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, flags & MSG_NOSIGNAL);
  return 0;
}
ssize_t writev(int fd, const struct iovec *v, int k) {
  if (!vh::Sim(fd)) return syscall(SYS_writev, fd, v, k);
  for (int i = 0; i < k; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
int shutdown(int fd, int how) noexcept {
  using namespace vh;
  if (!Sim(fd)) return (int)syscall(SYS_shutdown, fd, how);
  auto s = gOs ? gOs->Get(fd) : nullptr;
  if (!s) return Err(EBADF);
  if (s->kind != 3) { if (s->kind == 2) s->kind = 1; return s->kind == 1 ? 0 : Err(ENOTCONN); }
  if (how != SHUT_RD) s->out->wr_open = false;
  if (how != SHUT_WR) s->in->rd_open = false;
  return 0;
}
int close(int fd) {
  using namespace vh;
  if (!Sim(fd)) return (int)syscall(SYS_close, fd);
  SchedPoint();
  auto s = gOs ? gOs->Get(fd) : nullptr;
  if (!s) return Err(EBADF);
  if (s->kind == 3) { s->out->wr_open = false; s->in->rd_open = false; }
  if (s->kind == 2) for (auto &p : s->pending) { p.second->wr_open = false; p.first->rd_open = false; }
  s->kind = -1;
  gOs->fds.erase(fd);
  return 0;
}
int poll(struct pollfd *p, nfds_t n, int timeout) {
  using namespace vh;
  bool sim = false;
  for (nfds_t i = 0; i < n; i++) sim |= Sim(p[i].fd);
  if (!sim) return (int)syscall(SYS_poll, p, n, timeout);
  auto look = [=] {
    int c = 0;
    for (nfds_t i = 0; i < n; i++) {
      auto s = gOs->Get(p[i].fd);
      short r = 0;
      if (!s) r = POLLNVAL;
      else if (s->kind == 2) { if (!s->pending.empty()) r |= POLLIN; }
      else if (s->kind == 3) {
        if (!s->in->data.empty() || !s->in->wr_open) r |= POLLIN;
        if (s->out->data.size() < s->out->cap || !s->out->rd_open) r |= POLLOUT;
      }
      p[i].revents = r & (p[i].events | POLLNVAL | POLLERR | POLLHUP);
      if (p[i].revents) c++;
    }
    return c;
  };
  if (timeout == 0) { SchedPoint(); return look(); }
  gS->Wait([=] { return timeout > 0 || look() > 0; }, "poll");
  return look();
}
}
#endif
