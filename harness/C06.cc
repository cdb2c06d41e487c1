// C06: handles and counters of the thread pool tell the truth, cancellation is exact.
#include "TP_machine.h"
using namespace tp;
namespace {
const bool cfg = [] {
    pbt::config().rule = "at least one cancellation succeeded and at least one task ran in the same history";
    pbt::config().assumptions = { "1 to 4 workers, up to 3 threads using the pool, up to 16 tasks; some histories with up to 20 workers and 700 tasks",
        "a handle is used by one thread at a time", "the system clock does not jump" };
    pbt::config().concurrent = !vs::controlled;
    pbt::config().hang_s = 30;
    return true;
}();

bool throws_logic(Rec& r)
{
    try { (void)r.handle.get_result(); }
    catch (const TaskError&) { return false; }
    catch (const std::logic_error&) { return true; } // includes std::future_error
    return false;
}

const char* name(TaskState s)
{
    switch (s)
    {
    case TaskState::pending: return "pending";
    case TaskState::running: return "running";
    case TaskState::complete: return "complete";
    case TaskState::canceled: return "canceled";
    }
    return "?";
}
}

// All workers are held by gated tasks, so the queue is known exactly at every moment.
PBT_FACET(at_rest, vs::controlled ? 180000 : 6000, vs::controlled ? 4500000 : 120000)
{
    World w;
    const bool large = c.chance(1, 400);
    const auto workers = static_cast<std::size_t>(c.range(1, large ? 20 : 4));
    const bool deflt = c.chance(1, large ? 2 : 8);
    const auto cap = deflt ? std::size_t{ ThreadPool::default_capacity }
        : static_cast<std::size_t>(c.range(1, large ? 700 : 6));
    std::size_t ncancel = 0, nran = 0, refused = 0;
    vs::run(c, [&] {
        auto pool = deflt ? gul14::make_thread_pool(workers) : gul14::make_thread_pool(workers, cap);
        TP_CHECK(pool->count_threads() == workers, pool->count_threads() << " != " << workers);
        TP_CHECK(pool->capacity() == cap, pool->capacity() << " != " << cap);
        std::vector<Rec*> running, queue, gone, over;
        for (std::size_t i = 0; i < workers; ++i)
        {
            Rec& r = w.rec();
            r.gate = w.gate();
            r.named = c.coin();
            r.with_pool = c.coin();
            submit(w, *pool, r);
            running.push_back(&r);
            while (!r.started) vs::yield();
        }
        auto names = [](const std::vector<Rec*>& v) {
            std::vector<std::string> n;
            for (auto r : v) n.push_back(r->named ? r->name : std::string{});
            std::sort(n.begin(), n.end());
            return n;
        };
        auto check = [&] {
            TP_CHECK(pool->count_pending() == queue.size(), pool->count_pending() << " != " << queue.size());
            TP_CHECK(pool->is_full() == (queue.size() >= cap), queue.size() << " of " << cap);
            TP_CHECK(pool->is_idle() == (queue.empty() && running.empty()),
                queue.size() << " pending, " << running.size() << " running");
            auto p = pool->get_pending_task_names();
            std::sort(p.begin(), p.end());
            TP_CHECK(p == names(queue), "names of pending tasks");
            auto q = pool->get_running_task_names();
            std::sort(q.begin(), q.end());
            TP_CHECK(q == names(running), "names of running tasks");
            TP_CHECK(!pool->is_shutdown_requested(), "nobody asked for a shutdown");
            auto is = [&](const std::vector<Rec*>& v, TaskState s) {
                for (auto r : v)
                {
                    const auto got = r->handle.get_state();
                    TP_CHECK(got == s, "task " << r->id << " is reported " << name(got) << " but is " << name(s));
                    TP_CHECK(r->handle.is_complete() == (s == TaskState::complete), "task " << r->id
                        << " is_complete() while " << name(s));
                }
            };
            is(running, TaskState::running);
            is(queue, TaskState::pending);
            is(gone, TaskState::canceled);
            is(over, TaskState::complete);
        };
        check();
        if (large)
        {
            const auto many = std::min<std::size_t>(cap, cap - std::min<std::size_t>(cap, c.below(5)));
            for (std::size_t i = 0; i < many; ++i)
            {
                Rec& r = w.rec();
                if (c.chance(1, 10)) gen_submission(c, r);
                r.named = i % 3 != 0;
                submit(w, *pool, r);
                queue.push_back(&r);
            }
            check();
            c.note_f([&] { return "with " + std::to_string(many) + " of " + std::to_string(cap) + " tasks in the queue and " + std::to_string(workers) + " workers"; });
            c.label("large pool");
        }
        std::size_t n = 0;
        while (c.more(n, 12, 40))
        {
            switch (c.weighted({ 10, 5, 1, 2, 2, 2 }))
            {
            case 0: // add
            {
                Rec& r = w.rec();
                gen_submission(c, r);
                if (c.chance(1, 6)) r.name = c.pick<const char*>({ "", "same", "same" });
                r.named = c.coin();
                bool full = false;
                try { submit(w, *pool, r); }
                catch (const std::runtime_error&) { full = true; }
                TP_CHECK(full == (queue.size() >= cap), "add_task() with " << queue.size() << " of " << cap
                    << " tasks pending " << (full ? "was refused" : "was accepted"));
                c.note_f([&] { return std::string(full ? "refused add " : "add ") + std::to_string(r.id); });
                if (full) ++refused;
                else queue.push_back(&r);
                break;
            }
            case 1: // cancel one
            {
                if (w.recs.empty()) break;
                Rec& r = *w.recs[c.below(w.recs.size())];
                if (!r.accepted) break;
                const auto it = std::find(queue.begin(), queue.end(), &r);
                if (it != queue.end()) r.cancelled = 1;
                const bool ok = r.handle.cancel();
                TP_CHECK(ok == (it != queue.end()), "cancel() of task " << r.id << " returned " << ok);
                if (ok) { queue.erase(it); gone.push_back(&r); ++ncancel; }
                c.note_f([&] { return "cancel " + std::to_string(r.id) + (ok ? "" : " (no effect)"); });
                break;
            }
            case 2: // cancel all
            {
                for (auto r : queue) r->cancelled = 1;
                const auto k = pool->cancel_pending_tasks();
                TP_CHECK(k == queue.size(), "cancel_pending_tasks() returned " << k << ", pending were " << queue.size());
                ncancel += k;
                gone.insert(gone.end(), queue.begin(), queue.end());
                queue.clear();
                c.note("cancel all");
                break;
            }
            case 3: // a cancelled task has no result
                if (gone.empty()) break;
                {
                    Rec& r = *gone[c.below(gone.size())];
                    TP_CHECK(throws_logic(r), "the cancelled task " << r.id << " has a result");
                }
                break;
            case 4: // let one running task finish while nothing can take its place
            {
                if (!queue.empty() || running.empty()) break;
                const auto i = c.below(running.size());
                Rec& r = *running[i];
                r.gate->release();
                check_result(r);
                // being complete is known before the pool has tidied up
                while (r.handle.get_state() == TaskState::running) vs::yield();
                running.erase(running.begin() + static_cast<std::ptrdiff_t>(i));
                over.push_back(&r);
                ++nran;
                c.note("finish " + std::to_string(r.id));
                // and occupy the worker again
                Rec& s = w.rec();
                s.gate = w.gate();
                s.named = c.coin();
                submit(w, *pool, s);
                while (!s.started) vs::yield();
                running.push_back(&s);
                break;
            }
            default: // time passes: delayed tasks become due but no worker is free
                std::this_thread::sleep_for(std::chrono::microseconds(c.pick({ 1, 100, 1000 })));
                break;
            }
            check();
        }
        // release everything: all that is left in the queue runs, in order if there is one worker
        for (auto r : running) r->gate->release();
        for (auto r : running) check_result(*r);
        for (auto r : queue) check_result(*r);
        nran += queue.size() + running.size();
        while (!pool->is_idle()) vs::yield();
        TP_CHECK(pool->count_pending() == 0 && pool->get_running_task_names().empty(), "not at rest");
        over.insert(over.end(), running.begin(), running.end());
        over.insert(over.end(), queue.begin(), queue.end());
        if (workers == 1)
        {
            int last = 0;
            for (auto r : queue)
            {
                if (r->when == 1 || r->when == 2) continue;
                TP_CHECK(r->seq > last, "task " << r->id << " started out of order");
                last = r->seq;
            }
        }
        running.clear();
        queue.clear();
        check();
        pool.reset();
        w.closed = 1;
        for (auto r : over) TP_CHECK(r->handle.is_complete(), "task " << r->id << " finished, but not for its handle");
        for (auto r : gone)
        {
            TP_CHECK(!r->handle.is_complete(), "the cancelled task " << r->id << " is reported complete");
            TP_CHECK(r->started == 0, "the cancelled task " << r->id << " ran");
        }
    });
    for (auto& r : w.recs)
        if (!r->accepted) PBT_CHECK(c, r->started == 0, "the refused task " << r->id << " ran");
    check_released(w);
    if (ncancel && nran) c.nontrivial();
    c.label_if(refused > 0, "a submission was refused");
    c.label_if(ncancel > 0, "a task was cancelled");
}

// Several threads submit, cancel and query while the workers run.
PBT_FACET(concurrent, vs::controlled ? 180000 : 10000, vs::controlled ? 6000000 : 200000)
{
    struct Op { int kind; Rec* r; std::int64_t us; };
    World w;
    const auto workers = static_cast<std::size_t>(c.range(1, 3));
    const auto cap = static_cast<std::size_t>(c.pick({ 1, 2, 3, 200, 200 }));
    std::vector<std::vector<Op>> script(static_cast<std::size_t>(c.range(1, 3)));
    for (auto& s : script)
    {
        std::vector<Rec*> mine;
        std::size_t n = 0;
        while (c.more(n, 6, 14))
        {
            switch (c.weighted({ 8, 4, 4, 1, 2, 1 }))
            {
            case 0:
            {
                Rec& r = w.rec();
                gen_submission(c, r);
                r.yields = static_cast<unsigned>(c.below(3));
                if (c.chance(1, 5)) r.sleep_us = gen_delay(c);
                mine.push_back(&r);
                s.push_back({ 0, &r, 0 });
                describe(c, r);
                break;
            }
            case 1: if (!mine.empty()) s.push_back({ 1, mine[c.below(mine.size())], 0 }); break;
            case 2: if (!mine.empty()) s.push_back({ 2, mine[c.below(mine.size())], 0 }); break;
            case 3: s.push_back({ 3, nullptr, 0 }); break;
            case 4: s.push_back({ 4, nullptr, c.pick<std::int64_t>({ 0, 1, 100, 1000 }) }); break;
            default: if (!mine.empty()) s.push_back({ 5, mine[c.below(mine.size())], 0 }); break;
            }
        }
    }
    std::atomic<std::size_t> ncancel{ 0 }, bulk{ 0 };
    std::size_t nran = 0, lost = 0;
    vs::run(c, [&] {
        auto pool = gul14::make_thread_pool(workers, cap);
        std::atomic<int> bulk_used{ 0 };
        std::vector<Rec*> known_cancelled;
        auto look = [&](Rec& r) { // query a handle and compare with what the task itself recorded
            const bool started_before = r.started != 0;
            const bool finished_before = r.finished != 0;
            const auto s = r.handle.get_state();
            const bool started_after = r.started != 0, finished_after = r.finished != 0;
            switch (s)
            {
            case TaskState::pending:
                TP_CHECK(!started_before, "task " << r.id << " has started but is reported pending");
                TP_CHECK(r.cancelled == 0, "the cancelled task " << r.id << " is reported pending");
                break;
            case TaskState::running:
                TP_CHECK(r.cancelled == 0, "the cancelled task " << r.id << " is reported running");
                break;
            case TaskState::complete:
                TP_CHECK(started_after && finished_after, "task " << r.id << " is reported complete but has not finished");
                break;
            case TaskState::canceled:
                TP_CHECK(!started_after, "task " << r.id << " has started but is reported cancelled");
                TP_CHECK(r.cancelled || bulk_used, "task " << r.id << " is reported cancelled but nobody cancelled it");
                r.cancelled = 1; // must never run
                break;
            }
            const bool done = r.handle.is_complete();
            if (done) TP_CHECK(r.finished, "task " << r.id << " is complete but has not finished");
            (void)finished_before;
        };
        auto work = [&](const std::vector<Op>& s) {
            for (auto& op : s)
            {
                switch (op.kind)
                {
                case 0:
                    try { submit(w, *pool, *op.r); }
                    catch (const std::runtime_error&)
                    { TP_CHECK(cap < 100, "add_task() was refused far below the capacity"); }
                    break;
                case 1:
                    if (!op.r->accepted) break;
                    {
                        const bool was = op.r->cancelled != 0, started_before = op.r->started != 0;
                        if (op.r->handle.cancel())
                        {
                            TP_CHECK(!was, "task " << op.r->id << " was cancelled twice");
                            TP_CHECK(!op.r->started, "task " << op.r->id << " was cancelled but had started");
                            TP_CHECK(!started_before, "task " << op.r->id << " was cancelled but had started");
                            op.r->cancelled = 1;
                            ++ncancel;
                            TP_CHECK(op.r->handle.get_state() == TaskState::canceled, "task " << op.r->id);
                            TP_CHECK(!op.r->handle.is_complete(), "task " << op.r->id);
                        }
                    }
                    break;
                case 2: if (op.r->accepted) look(*op.r); break;
                case 3: bulk_used = 1; bulk += pool->cancel_pending_tasks(); break;
                case 4:
                    if (op.us) std::this_thread::sleep_for(std::chrono::microseconds(op.us));
                    else vs::yield();
                    break;
                default: // wait for it (a cancelled task has no result)
                {
                    Rec& r = *op.r;
                    if (!r.accepted) break;
                    if (r.cancelled) { TP_CHECK(throws_logic(r), "the cancelled task " << r.id << " has a result"); break; }
                    try
                    {
                        const long v = r.handle.get_result();
                        TP_CHECK(v == expected(r) && !r.throws && r.finished, "result of task " << r.id);
                    }
                    catch (const TaskError& e)
                    { TP_CHECK(r.throws && e.id == r.id, "exception of task " << r.id); }
                    catch (const std::logic_error&)
                    {
                        // either removed by cancel_pending_tasks() or the result is already taken
                        if (!r.finished)
                        {
                            TP_CHECK(bulk_used, "task " << r.id << " lost its result");
                            TP_CHECK(r.handle.get_state() == TaskState::canceled, "task " << r.id);
                            r.cancelled = 1;
                        }
                    }
                    break;
                }
                }
            }
        };
        std::vector<std::thread> th;
        for (std::size_t k = 1; k < script.size(); ++k) th.emplace_back([&, k] { work(script[k]); });
        work(script[0]);
        for (auto& t : th) t.join();
        while (!pool->is_idle()) vs::yield();
        TP_CHECK(pool->count_pending() == 0, "idle with pending tasks");
        for (auto& r : w.recs)
        {
            if (!r->accepted) { TP_CHECK(r->started == 0, "the refused task " << r->id << " ran"); continue; }
            const auto s = r->handle.get_state();
            const bool ran = r->started == 1;
            TP_CHECK(r->started <= 1, "task " << r->id << " ran " << r->started << " times");
            TP_CHECK(s == (ran ? TaskState::complete : TaskState::canceled),
                "task " << r->id << " is reported " << name(s) << (ran ? " but it ran" : " but it never ran"));
            TP_CHECK(r->handle.is_complete() == ran, "task " << r->id);
            if (ran) { ++nran; TP_CHECK(!r->cancelled, "the cancelled task " << r->id << " ran"); }
            else ++lost;
        }
        TP_CHECK(lost == ncancel + bulk, lost << " tasks never ran, but " << ncancel + bulk << " were cancelled");
        pool.reset();
        w.closed = 1;
    });
    check_released(w);
    if (ncancel + bulk > 0 && nran) c.nontrivial();
    c.label_if(ncancel > 0, "a task was cancelled by its handle");
    c.label_if(bulk > 0, "tasks were cancelled by cancel_pending_tasks");
}

// Arguments that must be refused; default handles.
PBT_FACET(limits, 300, 3000)
{
    const std::size_t huge[] = { ThreadPool::max_threads + 1, ThreadPool::max_threads + 7, ~std::size_t{ 0 } };
    const std::size_t hugec[] = { ThreadPool::max_capacity + 1, ThreadPool::max_capacity + 9, ~std::size_t{ 0 } };
    std::size_t n = static_cast<std::size_t>(c.range(1, 2)), cap = static_cast<std::size_t>(c.range(1, 3));
    const auto bad = c.below(5);
    if (bad == 1) n = 0;
    if (bad == 2) n = huge[c.below(3)];
    if (bad == 3) cap = 0;
    if (bad == 4) cap = hugec[c.below(3)];
    if (bad == 0 && c.coin()) cap = ThreadPool::max_capacity;
    vs::run(c, [&] {
        bool refused = false;
        try { auto p = gul14::make_thread_pool(n, cap); }
        catch (const std::invalid_argument&) { refused = true; }
        TP_CHECK(refused == (bad != 0), "make_thread_pool(" << n << ", " << cap << ")" << (refused ? " refused" : " accepted"));
        Handle h;
        TP_CHECK(!h.is_complete(), "an invalid handle is complete");
        int t = 0;
        try { h.get_state(); } catch (const std::logic_error&) { ++t; }
        try { h.cancel(); } catch (const std::logic_error&) { ++t; }
        try { h.get_result(); } catch (const std::logic_error&) { ++t; }
        TP_CHECK(t == 3, "an invalid handle must not be usable");
    });
}
