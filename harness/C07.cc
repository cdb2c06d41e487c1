// C07: the thread pool shuts down cleanly and is free of data races.
#include "TP_machine.h"
#include <signal.h>
using namespace tp;
namespace {
const bool cfg = [] {
    pbt::config().rule = "the pool was destroyed while at least one task was running or had run and at "
                         "least one other was still pending";
    pbt::config().assumptions = { "1 to 4 workers, up to 4 other threads, up to 16 tasks",
        "a handle is used by one thread at a time and not from inside a task; the pool is not destroyed from inside a task",
        "data races: those ThreadSanitizer observes on real threads" };
    pbt::config().concurrent = !vs::controlled;
    pbt::config().hang_s = 30;
    return true;
}();

void check_signals()
{
    sigset_t cur;
    pthread_sigmask(SIG_BLOCK, nullptr, &cur);
    for (int s : { SIGALRM, SIGINT, SIGPIPE, SIGTERM, SIGURG, SIGUSR1, SIGUSR2 })
        TP_CHECK(sigismember(&cur, s) == 1, "signal " << s << " is not blocked in a worker thread");
}

struct Op { int kind; Rec* r; std::int64_t us; };
}

PBT_FACET(shutdown, vs::controlled ? 240000 : 16000, vs::controlled ? 7500000 : 300000)
{
    World w;
    const auto workers = static_cast<std::size_t>(c.range(1, 4));
    std::vector<std::vector<Op>> script(static_cast<std::size_t>(c.range(1, 3)));
    std::int64_t busy_us = 0;
    std::vector<Gate*> gates;
    for (std::size_t k = 0; k < script.size(); ++k)
    {
        auto& s = script[k];
        std::vector<Rec*> mine;
        std::size_t n = 0;
        while (c.more(n, 5, 10))
        {
            switch (c.weighted({ 8, 1, 1, 2 }))
            {
            case 0:
            {
                Rec& r = w.rec();
                gen_submission(c, r);
                if (r.when && r.when != 3 && c.coin()) // far in the future
                    r.delay_us = c.pick<std::int64_t>({ 3600LL * 1000000, 86400LL * 365 * 1000000, 30LL * 1000000 });
                r.yields = static_cast<unsigned>(c.below(3));
                switch (c.weighted({ 5, 1, 1, 1, 1 }))
                {
                case 1: r.sleep_us = gen_delay(c); busy_us += r.sleep_us; break;
                case 2: r.with_pool = true; r.until_shutdown = true; break;
                case 3: r.gate = w.gate(); gates.push_back(r.gate); break;
                case 4:
                    r.with_pool = true;
                    r.sub = &w.rec();
                    gen_submission(c, *r.sub);
                    describe(c, *r.sub);
                    break;
                default: break;
                }
                mine.push_back(&r);
                s.push_back({ 0, &r, 0 });
                describe(c, r);
                break;
            }
            case 1: if (!mine.empty()) s.push_back({ 1, mine[c.below(mine.size())], 0 }); break;
            case 2: if (!mine.empty()) s.push_back({ 2, mine[c.below(mine.size())], 0 }); break;
            default: s.push_back({ 3, nullptr, c.pick<std::int64_t>({ 0, 1, 100, 1000 }) }); break;
            }
        }
    }
    const bool keep_ref = c.coin();    // the other threads own the pool as well
    const auto wait_us = c.pick<std::int64_t>({ 0, 0, 1, 50, 1000 });
    const bool no_jumps = c.coin();
    std::size_t ran = 0, discarded = 0;
    c.note_f([&] { return "workers " + std::to_string(workers) + ", threads " + std::to_string(script.size())
        + (keep_ref ? ", shared ownership" : "") + ", destroyed after " + std::to_string(wait_us) + " us"; });
    vs::run(c, [&] {
        if (no_jumps) vs::set_jumps(false);
        std::shared_ptr<ThreadPool> pool = gul14::make_thread_pool(workers);
        std::weak_ptr<ThreadPool> weak = pool;
        w.pool = pool.get();
        // The gated tasks can only end if somebody lets them.
        std::thread opener([&] {
            std::this_thread::sleep_for(std::chrono::microseconds(30));
            for (auto g : gates) { vs::yield(); g->release(); }
        });
        auto work = [&](const std::vector<Op>& s, std::shared_ptr<ThreadPool> own) {
            for (auto& op : s)
            {
                try
                {
                    switch (op.kind)
                    {
                    case 0:
                        if (auto p = own ? own : weak.lock())
                        {
                            TP_CHECK(!p->is_shutdown_requested(), "shutdown is reported but the pool is in use");
                            submit(w, *p, *op.r);
                        }
                        break;
                    case 1: if (op.r->accepted && op.r->handle.cancel()) op.r->cancelled = 1; break;
                    case 2: if (op.r->accepted) (void)op.r->handle.get_state(); break;
                    default:
                        if (op.us) std::this_thread::sleep_for(std::chrono::microseconds(op.us));
                        else vs::yield();
                        break;
                    }
                }
                catch (const std::logic_error&)
                {
                    // "thread pool does not exist anymore"
                    TP_CHECK(!own && weak.expired(), "an operation failed although the pool exists");
                }
            }
        };
        std::vector<std::thread> th;
        for (std::size_t k = 1; k < script.size(); ++k)
            th.emplace_back([&, k](std::shared_ptr<ThreadPool> o) { work(script[k], std::move(o)); },
                keep_ref ? pool : nullptr);
        work(script[0], pool);
        if (wait_us) std::this_thread::sleep_for(std::chrono::microseconds(wait_us));
        const auto t0 = vs::now_ns();
        pool.reset();
        const auto took = vs::now_ns() - t0;
        for (auto& t : th) t.join();
        opener.join();
        w.closed = 1;
        TP_CHECK(weak.expired(), "the pool still exists");
        TP_CHECK(vs::live_threads() == 1, vs::live_threads() - 1 << " worker threads outlive the pool");
        if (vs::controlled && no_jumps && script.size() == 1)
            TP_CHECK(took <= busy_us * 1000 + 20000000, "destruction took " << took / 1000
                << " us although running tasks need at most " << busy_us << " us");
        for (auto& r : w.recs)
        {
            TP_CHECK(r->started == r->finished, "task " << r->id << " was interrupted");
            if (!r->accepted) { TP_CHECK(r->started == 0, "task " << r->id << " was refused but ran"); continue; }
            int thrown = 0;
            try { (void)r->handle.get_state(); } catch (const std::logic_error&) { ++thrown; }
            try { (void)r->handle.cancel(); } catch (const std::logic_error&) { ++thrown; }
            TP_CHECK(thrown == 2, "the handle of task " << r->id << " claims that the pool still exists");
            if (r->started)
            {
                ++ran;
                TP_CHECK(r->handle.is_complete(), "task " << r->id << " finished but is not complete");
                check_result(*r);
            }
            else
            {
                ++discarded;
                TP_CHECK(!r->handle.is_complete(), "task " << r->id << " never ran but is reported complete");
                bool t = false;
                try { (void)r->handle.get_result(); }
                catch (const TaskError&) {}
                catch (const std::logic_error&) { t = true; }
                TP_CHECK(t, "task " << r->id << " never ran but has a result");
            }
        }
    });
    check_released(w);
    if (ran && discarded) c.nontrivial();
    c.label_if(ran > 0, "tasks ran");
    c.label_if(discarded > 0, "tasks were discarded or cancelled");
}

// Tasks that add further tasks (as the documentation of add_task() suggests) exactly while the
// last owner gives up the pool: this must not destroy the pool from one of its own threads.
PBT_FACET(adding_at_shutdown, vs::controlled ? 12000 : 8000, vs::controlled ? 600000 : 200000)
{
    const auto workers = static_cast<std::size_t>(c.range(1, 4));
    const auto adders = static_cast<std::size_t>(c.range(1, 4));
    const auto children = static_cast<std::size_t>(c.range(1, vs::controlled ? 8 : 60));
    const auto wait_us = c.pick<std::int64_t>({ 0, 1, 5, 20, 60 });
    const auto owners = static_cast<std::size_t>(c.range(1, 2));
    struct State
    {
        std::atomic<int> started{ 0 }, finished{ 0 }, sub_started{ 0 }, sub_finished{ 0 }, gone{ 0 };
    } st;
    std::weak_ptr<int> token;
    std::atomic<std::size_t> added{ 0 };
    c.note_f([&] { return "workers " + std::to_string(workers) + ", adding tasks " + std::to_string(adders) + " x "
        + std::to_string(children) + ", owners " + std::to_string(owners) + ", destroyed after " + std::to_string(wait_us) + " us"; });
    vs::run(c, [&] {
        auto tok = std::make_shared<int>(1);
        token = tok;
        std::shared_ptr<ThreadPool> pool = gul14::make_thread_pool(workers, 10000);
        std::weak_ptr<ThreadPool> weak = pool;
        for (std::size_t i = 0; i < adders; ++i)
            pool->add_task([&st, &added, children, tok](ThreadPool& p) {
                TP_CHECK(st.gone == 0, "a task starts after the pool is gone");
                ++st.started;
                for (std::size_t k = 0; k < children; ++k)
                {
                    try
                    {
                        auto h = p.add_task([&st, tok] {
                            TP_CHECK(st.gone == 0, "a task starts after the pool is gone");
                            ++st.sub_started;
                            vs::point();
                            ++st.sub_finished;
                        });
                        ++added;
                        (void)h.is_complete();
                    }
                    catch (const std::exception&) {} // may be refused, e.g. because the pool is on its way out
                }
                ++st.finished;
            });
        tok.reset();
        if (wait_us) std::this_thread::sleep_for(std::chrono::microseconds(wait_us));
        std::thread other;
        if (owners == 2) other = std::thread([](std::shared_ptr<ThreadPool> o) { vs::yield(); o.reset(); }, pool);
        pool.reset();
        if (other.joinable()) other.join();
        st.gone = 1;
        TP_CHECK(weak.expired(), "the pool still exists");
        TP_CHECK(vs::live_threads() == 1, vs::live_threads() - 1 << " worker threads outlive the pool");
        TP_CHECK(st.started == st.finished && st.sub_started == st.sub_finished, "a task was interrupted");
        TP_CHECK(st.started <= static_cast<int>(adders) && st.sub_started <= static_cast<int>(added.load()), "a task ran twice");
    });
    TP_CHECK(token.expired(), "a function object was never destroyed");
    if (st.started && st.sub_started < static_cast<int>(adders * children)) c.nontrivial();
    c.label_if(added > 0, "tasks added from inside");
}

// Every public function at the same time from several threads.
PBT_FACET(hammer, vs::controlled ? 60000 : 15000, vs::controlled ? 1800000 : 300000)
{
    World w;
    const auto workers = static_cast<std::size_t>(c.range(1, 4));
    const auto cap = static_cast<std::size_t>(c.pick({ 2, 4, 200 }));
    std::vector<std::vector<Op>> script(static_cast<std::size_t>(c.range(2, 4)));
    std::size_t adds = 0;
    for (auto& s : script)
    {
        std::vector<Rec*> mine;
        std::size_t n = 0;
        while (c.more(n, 10, 24))
        {
            const int k = static_cast<int>(c.below(16));
            if (k <= 5)
            {
                Rec& r = w.rec();
                gen_submission(c, r);
                r.yields = static_cast<unsigned>(c.below(2));
                mine.push_back(&r);
                s.push_back({ 0, &r, 0 });
                ++adds;
            }
            else if (k <= 8) { if (!mine.empty()) s.push_back({ k, mine[c.below(mine.size())], 0 }); }
            else s.push_back({ k, nullptr, 0 });
        }
    }
    std::atomic<int> signals_ok{ 0 };
    vs::run(c, [&] {
        auto pool = gul14::make_thread_pool(workers, cap);
        auto work = [&](const std::vector<Op>& s, std::shared_ptr<ThreadPool> p) {
            std::size_t sink = 0;
            for (auto& op : s)
            {
                switch (op.kind)
                {
                case 0: try { submit(w, *p, *op.r); } catch (const std::runtime_error&) {} break;
                case 6: if (op.r->accepted) (void)op.r->handle.cancel(); break;
                case 7: if (op.r->accepted) (void)op.r->handle.get_state(); break;
                case 8: if (op.r->accepted) (void)op.r->handle.is_complete(); break;
                case 9: { const auto n = p->count_pending(); TP_CHECK(n <= cap, n << " of " << cap); break; }
                case 10: for (auto& x : p->get_pending_task_names()) sink += x.size(); break;
                case 11: for (auto& x : p->get_running_task_names()) sink += x.size(); break;
                case 12: sink += p->is_full(); break;
                case 13: sink += p->is_idle(); break;
                case 14: TP_CHECK(!p->is_shutdown_requested(), "no shutdown requested"); break;
                case 15: sink += p->count_threads() + p->capacity();
                    TP_CHECK(p->count_threads() == workers && p->capacity() == cap, "constants"); break;
                default: break;
                }
            }
        };
        std::vector<std::thread> th;
        for (std::size_t k = 0; k < script.size(); ++k) th.emplace_back(work, std::cref(script[k]), pool);
        auto sig = pool;
        for (int i = 0; i < 1000; ++i)
        {
            try { sig->add_task([&] { check_signals(); ++signals_ok; }); break; }
            catch (const std::runtime_error&) { vs::yield(); }
        }
        sig.reset();
        pool.reset();
        for (auto& t : th) t.join();
        w.closed = 1;
        TP_CHECK(vs::live_threads() == 1, vs::live_threads() - 1 << " worker threads outlive the pool");
    });
    for (auto& r : w.recs) PBT_CHECK(c, r->started <= 1 && r->started == r->finished, "task " << r->id);
    check_released(w);
    if (adds >= 4 && script.size() >= 2) c.nontrivial();
    c.label_if(signals_ok > 0, "signal mask checked");
}
