// vsched.h - a deterministic scheduler with a virtual clock for code using pthreads.
//
// The definitions in vsched.cc replace the pthread, futex, sleep and clock functions of the
// process. While vs::run() is active, exactly one of the managed threads (the caller and all
// threads created from it) runs at a time; at every synchronisation operation the next one is
// chosen from the case's choices. Time is virtual: it passes when nothing can run, or by
// choice. So a whole concurrent history, including spurious wake-ups, timeouts and the choice
// of the notified thread, is a generated, shrinkable and replayable input, and a state in
// which no thread can ever continue is recognised immediately.
#ifndef VSCHED_H_
#define VSCHED_H_
#include "pbt.h"
#include <thread>

namespace vs {

#ifdef PBT_SCHED
/// Run body as the first managed thread. Ends the process if it can never finish.
void run(pbt::Ctx& c, const std::function<void()>& body);
/// Let another thread run (if there is one); time passes if there is none.
void yield();
/// A point at which another thread may run.
void point();
/// Whether time may pass while threads can run (off: only when all wait).
void set_jumps(bool b);
std::int64_t now_ns();            ///< virtual time since the start of the case
unsigned live_threads();          ///< managed threads that have not finished
/// Report a violation of the property from any thread; ends the process.
[[noreturn]] void fatal(const std::string& msg);
constexpr bool controlled = true;
#else // the same interface on real threads and clocks
inline void run(pbt::Ctx&, const std::function<void()>& body) { body(); }
inline void yield() { std::this_thread::yield(); }
inline void point() {}
inline void set_jumps(bool) {}
inline std::int64_t now_ns()
{
    return std::chrono::duration_cast<std::chrono::nanoseconds>(
        std::chrono::steady_clock::now().time_since_epoch()).count();
}
inline unsigned live_threads() { return 1; }
[[noreturn]] inline void fatal(const std::string& msg)
{
    const std::string m = msg + "\n";
    if (write(2, m.data(), m.size()) < 0) {}
    _exit(78);
}
constexpr bool controlled = false;
#endif
} // namespace vs
#endif
