// Data races found by the thread sanitizer become events that no specification
// allows.
#ifndef VERIF_RACES_H
#define VERIF_RACES_H
#include <atomic>
#include "common.h"
#if defined(__SANITIZE_THREAD__)
static std::atomic<int> gRaces{0};
extern "C" void __tsan_on_report(void *) { gRaces.fetch_add(1, std::memory_order_relaxed); }
extern "C" const char *__tsan_default_options() { return "halt_on_error=0:exitcode=0:report_signal_unsafe=0:handle_segv=0:handle_abort=0"; }
static inline void Races() {
  if (gRaces) { vh::Ev("race")("reports", (int)gRaces); vh::Flush(); _exit(0); }
}
#else
static inline void Races() {}
#endif
// does the sanitizer work here?
static inline int Probe() { int x = 0; std::thread t([&] { x = 1; }); t.join(); return x == 1 ? 0 : 3; }
#endif
