// Shared parts of the thread pool harnesses (C05, C06, C07). The same code runs under the
// deterministic scheduler (PBT_SCHED) and on real threads.
#ifndef TP_MACHINE_H_
#define TP_MACHINE_H_
#include "vsched.h"
#include "gul14/ThreadPool.h"
#include <condition_variable>
#include <mutex>
#include <thread>

namespace tp {
using pbt::Ctx;
using gul14::ThreadPool;
using gul14::TaskState;
using Clock = std::chrono::system_clock;
using Handle = ThreadPool::TaskHandle<long>;

#define TP_CHECK(cond, msg)                                                             \
    do {                                                                                \
        if (!(cond)) {                                                                  \
            std::ostringstream pbt_os_;                                                 \
            pbt_os_ << #cond << " failed: " << msg;                                     \
            vs::fatal(pbt_os_.str());                                                   \
        }                                                                               \
    } while (false)

struct TaskError : std::runtime_error
{
    long id;
    explicit TaskError(long i) : std::runtime_error("task error"), id(i) {}
};

struct Gate
{
    std::mutex m;
    std::condition_variable cv;
    bool open = false;
    void wait() { std::unique_lock<std::mutex> l(m); cv.wait(l, [this] { return open; }); }
    void release() { { std::lock_guard<std::mutex> l(m); open = true; } cv.notify_all(); }
};

/// Everything about one task.
struct Rec
{
    long id = 0;
    // what it does
    bool with_pool = false;      // takes a ThreadPool&
    bool throws = false;
    unsigned yields = 0;
    std::int64_t sleep_us = 0;
    Gate* gate = nullptr;
    Gate* gate2 = nullptr;
    std::atomic<int>* rendezvous = nullptr; // wait until this many have arrived
    int rendezvous_n = 0;
    bool until_shutdown = false; // run until the pool is asked to shut down
    Rec* sub = nullptr;          // a task to add from inside
    // how it is submitted
    int when = 0;                // 0 immediate, 1 delay, 2 absolute time point, 3 absolute in the past
    std::int64_t delay_us = 0;
    bool named = false;
    std::string name;
    // what happened
    Clock::time_point not_before{};
    std::int64_t submitted_at = 0, started_at = 0;
    std::atomic<int> started{ 0 }, finished{ 0 }, cancelled{ 0 }, accepted{ 0 };
    std::atomic<int> seq{ 0 };
    std::weak_ptr<int> token;
    Handle handle;
};

struct World
{
    std::vector<std::unique_ptr<Rec>> recs;
    std::vector<std::unique_ptr<Gate>> gates;
    std::atomic<int> seq{ 0 };
    ThreadPool* pool = nullptr;   // for tasks that look at the pool although they do not take it
    const unsigned long uid = next_uid()++;
    static unsigned long& next_uid() { static unsigned long n = 1; return n; }
    std::atomic<int> closed{ 0 }; // set after the pool is gone: nothing may start

    Rec& rec()
    {
        recs.emplace_back(new Rec);
        recs.back()->id = static_cast<long>(recs.size());
        recs.back()->name = "t" + std::to_string(recs.back()->id);
        return *recs.back();
    }
    Gate* gate() { gates.emplace_back(new Gate); return gates.back().get(); }
};

inline long expected(const Rec& r) { return r.id * 7 + 3; }

inline void submit(World& w, ThreadPool& pool, Rec& r);

/// The World in which this thread has finished a task after the shutdown was requested.
inline unsigned long& stopped_in() { static thread_local unsigned long n = 0; return n; }

inline long body(World& w, Rec& r, ThreadPool* pool)
{
    TP_CHECK(stopped_in() != w.uid, "task " << r.id << " was started after the shutdown was requested");
    r.started_at = vs::now_ns();
    const auto now = Clock::now();
    TP_CHECK(r.started.fetch_add(1) == 0, "task " << r.id << " runs more than once");
    TP_CHECK(w.closed == 0, "task " << r.id << " starts after the pool is gone");
    TP_CHECK(now >= r.not_before, "task " << r.id << " starts "
        << std::chrono::duration_cast<std::chrono::nanoseconds>(r.not_before - now).count() << " ns too early");
    TP_CHECK(r.cancelled == 0, "task " << r.id << " runs although it was cancelled");
    r.seq = ++w.seq;
    for (unsigned i = 0; i < r.yields; ++i) vs::point();
    if (r.sleep_us) std::this_thread::sleep_for(std::chrono::microseconds(r.sleep_us));
    if (r.rendezvous)
    {
        ++*r.rendezvous;
        while (*r.rendezvous < r.rendezvous_n) vs::yield();
    }
    if (r.gate) r.gate->wait();
    if (r.gate2) r.gate2->wait();
    if (r.until_shutdown && pool)
        while (!pool->is_shutdown_requested()) { vs::yield(); std::this_thread::sleep_for(std::chrono::microseconds(50)); }
    if (r.sub && pool)
    {
        try { submit(w, *pool, *r.sub); } catch (...) {}
    }
    if (w.pool != nullptr && w.pool->is_shutdown_requested()) stopped_in() = w.uid;
    r.finished = 1;
    if (r.throws) throw TaskError(r.id);
    return expected(r);
}

/// Add the task to the pool; throws what add_task() throws.
inline void submit(World& w, ThreadPool& pool, Rec& r)
{
    auto tok = std::make_shared<int>(1);
    r.token = tok;
    r.submitted_at = vs::now_ns();
    const auto delay = std::chrono::microseconds(r.delay_us);
    Clock::time_point tpt{};
    if (r.when == 1 || r.when == 2) tpt = Clock::now() + delay;
    if (r.when == 3) tpt = Clock::now() - delay;
    if (r.when == 1 || r.when == 2) r.not_before = tpt; // for a delay: a lower bound
    auto f = [&w, &r, tok](ThreadPool& p) { return body(w, r, &p); };
    auto g = [&w, &r, tok]() { return body(w, r, nullptr); };
    tok.reset();
    auto add = [&](auto fn) -> Handle {
        switch (r.when)
        {
        case 0: return r.named ? pool.add_task(std::move(fn), r.name) : pool.add_task(std::move(fn));
        case 1: return r.named ? pool.add_task(std::move(fn), ThreadPool::Duration(delay), r.name)
                               : pool.add_task(std::move(fn), ThreadPool::Duration(delay));
        default: return r.named ? pool.add_task(std::move(fn), tpt, r.name) : pool.add_task(std::move(fn), tpt);
        }
    };
    // The task may start before this function returns, so only the handle is stored here.
    r.handle = r.with_pool ? add(std::move(f)) : add(std::move(g));
    r.accepted = 1;
}

/// Check the result of a finished task through its handle.
inline void check_result(Rec& r)
{
    try
    {
        const long v = r.handle.get_result();
        TP_CHECK(!r.throws, "task " << r.id << " delivered a value, not its exception");
        TP_CHECK(v == expected(r), "task " << r.id << " delivered " << v << " instead of " << expected(r));
    }
    catch (const TaskError& e)
    {
        TP_CHECK(r.throws && e.id == r.id, "task " << r.id << " delivered a foreign exception");
    }
    catch (const std::exception& e)
    {
        TP_CHECK(false, "task " << r.id << ": get_result() threw " << typeid(e).name() << " " << e.what());
    }
    TP_CHECK(r.started == 1 && r.finished == 1, "task " << r.id << " delivered a result without having finished");
    TP_CHECK(r.handle.is_complete(), "task " << r.id << " is not complete after its result was delivered");
}

inline std::int64_t gen_delay(Ctx& c)
{
    if (vs::controlled) return c.pick<std::int64_t>({ 1, 10, 100, 1000, 5000, 1000000 });
    return c.pick<std::int64_t>({ 1, 10, 100, 500, 2000 });
}

inline void gen_submission(Ctx& c, Rec& r, unsigned immediate_weight = 3)
{
    r.with_pool = c.coin();
    r.when = static_cast<int>(c.weighted({ immediate_weight, 1, 1, 1 }));
    if (r.when) r.delay_us = gen_delay(c);
    r.named = c.chance(1, 3);
    // (libstdc++'s exception_ptr is not instrumented: ThreadSanitizer misreads it)
    r.throws = c.chance(1, 5) && vs::controlled;
}

inline void describe(Ctx& c, const Rec& r)
{
    c.note_f([&] {
        std::string s = "task " + std::to_string(r.id) + ":";
        if (r.when == 1) s += " delay " + std::to_string(r.delay_us) + " us";
        if (r.when == 2) s += " at now+" + std::to_string(r.delay_us) + " us";
        if (r.when == 3) s += " at now-" + std::to_string(r.delay_us) + " us";
        if (r.throws) s += " throws";
        if (r.gate) s += " gated";
        if (r.rendezvous) s += " rendezvous";
        if (r.until_shutdown) s += " until shutdown";
        if (r.sleep_us) s += " sleeps " + std::to_string(r.sleep_us) + " us";
        if (r.sub) s += " adds task " + std::to_string(r.sub->id);
        if (r.with_pool) s += " (takes the pool)";
        return s; });
}

/// After the pool and all handles are gone, no task object may remain.
inline void check_released(World& w)
{
    for (auto& r : w.recs)
    {
        r->handle = Handle{};
        TP_CHECK(r->token.expired(), "the function object of task " << r->id << " was never destroyed");
    }
}

} // namespace tp
#endif
