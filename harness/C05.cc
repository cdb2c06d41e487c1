// C05: the thread pool runs each accepted task exactly once, in order, and never gets stuck.
#include "TP_machine.h"
using namespace tp;
namespace {
const bool cfg = [] {
    pbt::config().rule = "at least four tasks, among them a delayed one and (progress) a blocking one, "
                         "went through a pool; threads were switched while both were queued";
    pbt::config().assumptions = { "1 to 4 workers, up to 3 submitting threads, up to 16 tasks; some histories with up to 24 workers and 600 tasks",
        "schedules are switched at synchronisation operations in the controlled build",
        "the system clock does not jump" };
    pbt::config().concurrent = !vs::controlled;
    pbt::config().hang_s = 30;
    return true;
}();

struct Plan
{
    unsigned workers = 1;
    std::vector<std::vector<Rec*>> clients; // what each submitting thread adds
    std::vector<std::int64_t> pauses;
};

void submit_all(World& w, ThreadPool& pool, const Plan& p)
{
    std::vector<std::thread> th;
    auto work = [&](std::size_t k) {
        for (std::size_t i = 0; i < p.clients[k].size(); ++i)
        {
            submit(w, pool, *p.clients[k][i]);
            const auto us = p.pauses[(k * 5 + i) % p.pauses.size()];
            if (us == 1) vs::yield();
            else if (us > 1) std::this_thread::sleep_for(std::chrono::microseconds(us));
        }
    };
    for (std::size_t k = 1; k < p.clients.size(); ++k) th.emplace_back(work, k);
    work(0);
    for (auto& t : th) t.join();
}

void gen_plan(Ctx& c, World&, Plan& p)
{
    for (int i = 0; i < 6; ++i) p.pauses.push_back(c.pick<std::int64_t>({ 0, 0, 1, 3, 150, 2000 }));
    c.note_f([&] { return "workers " + std::to_string(p.workers) + ", submitting threads "
        + std::to_string(p.clients.size()) + ", pauses " + pbt::show(p.pauses); });
}

void wait_result(Ctx& c, Rec& r, unsigned how)
{
    (void)c;
    switch (how)
    {
    case 1: while (!r.handle.is_complete()) vs::yield(); break;
    case 2: while (r.handle.get_state() != TaskState::complete) vs::yield(); break;
    default: break; // block
    }
    check_result(r);
}
}

// Blocking tasks occupy all workers but one; everything else must still get through.
PBT_FACET(progress, vs::controlled ? 120000 : 8000, vs::controlled ? 4500000 : 120000)
{
    World w;
    Plan p;
    p.workers = static_cast<unsigned>(c.range(1, vs::controlled ? 3 : 4));
    p.clients.resize(static_cast<std::size_t>(c.range(1, 3)));
    const auto blockers = c.below(p.workers);
    std::vector<Rec*> blocked, plain;
    std::size_t n = 0;
    bool delayed = false;
    while (c.more(n, 5, 12))
    {
        Rec& r = w.rec();
        gen_submission(c, r);
        if (blocked.size() < blockers && c.chance(1, 3)) { r.gate = w.gate(); blocked.push_back(&r); }
        else
        {
            r.yields = static_cast<unsigned>(c.below(3));
            if (c.chance(1, 6)) r.sleep_us = gen_delay(c);
            plain.push_back(&r);
            if (r.with_pool && c.chance(1, 5))
            {
                Rec& s = w.rec();
                gen_submission(c, s);
                r.sub = &s;
                describe(c, s);
            }
        }
        delayed |= r.when == 1 || r.when == 2;
        p.clients[c.below(p.clients.size())].push_back(&r);
        describe(c, r);
    }
    gen_plan(c, w, p);
    const auto how = static_cast<unsigned>(c.below(3));
    vs::run(c, [&] {
        auto pool = gul14::make_thread_pool(p.workers);
        submit_all(w, *pool, p);
        for (auto r : plain) wait_result(c, *r, how);
        for (auto r : plain) // the tasks that were added from within tasks
            if (r->sub)
            {
                while (!r->sub->accepted) vs::yield();
                wait_result(c, *r->sub, how);
            }
        for (auto r : blocked)
            TP_CHECK(r->finished == 0, "task " << r->id << " finished although it is blocked");
        for (auto r : blocked) r->gate->release();
        for (auto r : blocked) wait_result(c, *r, how);
        while (!pool->is_idle()) vs::yield();
        TP_CHECK(pool->count_pending() == 0, "tasks are left in the queue");
        pool.reset();
        w.closed = 1;
    });
    for (auto& r : w.recs)
        PBT_CHECK(c, r->accepted == 0 || (r->started == 1 && r->finished == 1), "task " << r->id << " ran "
            << r->started << " times");
    check_released(w);
    if (w.recs.size() >= 4 && delayed && !blocked.empty()) c.nontrivial();
    c.label_if(!blocked.empty(), "with blocking tasks");
    c.label_if(delayed, "with delayed tasks");
}

// One worker: a serial queue.
PBT_FACET(order, vs::controlled ? 90000 : 6000, vs::controlled ? 3000000 : 80000)
{
    World w;
    Plan p;
    p.clients.resize(static_cast<std::size_t>(c.range(1, 3)));
    std::size_t n = 0;
    bool delayed = false;
    while (c.more(n, 7, 16))
    {
        Rec& r = w.rec();
        gen_submission(c, r, 6);
        if (c.chance(1, 8)) { r.when = static_cast<int>(c.range(1, 3)); r.delay_us = 0; } // right now
        r.yields = static_cast<unsigned>(c.below(2));
        if (c.chance(1, 6)) r.sleep_us = gen_delay(c);
        delayed |= (r.when == 1 || r.when == 2) && r.delay_us > 0;
        p.clients[c.below(p.clients.size())].push_back(&r);
        describe(c, r);
    }
    gen_plan(c, w, p);
    Rec& first = w.rec(); // holds the worker, so that a queue can build up
    first.gate = w.gate();
    const bool hold = c.coin();
    vs::run(c, [&] {
        auto pool = gul14::make_thread_pool(1);
        if (hold) submit(w, *pool, first);
        submit_all(w, *pool, p);
        if (hold) { first.gate->release(); wait_result(c, first, 0); }
        for (auto& cl : p.clients) for (auto r : cl) wait_result(c, *r, 0);
        pool.reset();
        w.closed = 1;
    });
    for (auto& cl : p.clients)
    {
        int last = 0;
        long last_id = 0;
        for (auto r : cl)
        {
            PBT_CHECK(c, r->started == 1, "task " << r->id << " ran " << r->started << " times");
            if ((r->when == 1 || r->when == 2) && r->delay_us > 0) continue; // not startable at once
            PBT_CHECK(c, r->seq > last, "task " << r->id << " started before task " << last_id
                << ", which was submitted earlier");
            last = r->seq;
            last_id = r->id;
        }
    }
    check_released(w);
    if (w.recs.size() >= 5 && delayed) c.nontrivial();
    c.label_if(hold, "queue built up while the worker was busy");
}

// As many tasks as there are workers wait for each other: all workers must pick one up.
PBT_FACET(parallel, vs::controlled ? 60000 : 4000, vs::controlled ? 1800000 : 60000)
{
    World w;
    Plan p;
    p.workers = static_cast<unsigned>(c.range(2, 4));
    p.clients.resize(static_cast<std::size_t>(c.range(1, 3)));
    std::vector<std::unique_ptr<std::atomic<int>>> counters;
    const auto rounds = c.range(1, 3);
    std::vector<Rec*> all;
    bool delayed = false;
    for (int k = 0; k < rounds; ++k)
    {
        counters.emplace_back(new std::atomic<int>(0));
        const int m = static_cast<int>(c.range(2, static_cast<int>(p.workers)));
        for (int i = 0; i < m; ++i)
        {
            Rec& r = w.rec();
            gen_submission(c, r);
            if (rounds > 1 && r.when) r.when = 0; // groups must not interleave for lack of workers
            r.rendezvous = counters.back().get();
            r.rendezvous_n = m;
            delayed |= r.when == 1 || r.when == 2;
            all.push_back(&r);
            describe(c, r);
        }
    }
    gen_plan(c, w, p);
    vs::run(c, [&] {
        auto pool = gul14::make_thread_pool(p.workers);
        std::size_t i = 0;
        for (int k = 0; k < rounds; ++k) // one group after the other
        {
            const auto m = static_cast<std::size_t>(all[i]->rendezvous_n);
            p.clients.assign(p.clients.size(), {});
            for (std::size_t j = 0; j < m; ++j) p.clients[j % p.clients.size()].push_back(all[i + j]);
            submit_all(w, *pool, p);
            for (std::size_t j = 0; j < m; ++j) wait_result(c, *all[i + j], 0);
            i += m;
        }
        pool.reset();
        w.closed = 1;
    });
    for (auto r : all) PBT_CHECK(c, r->started == 1, "task " << r->id << " ran " << r->started << " times");
    check_released(w);
    if (all.size() >= 4 && (delayed || rounds > 1)) c.nontrivial();
}

// Many tasks, sometimes many workers.
PBT_FACET(many, vs::controlled ? 400 : 60, vs::controlled ? 12000 : 1000)
{
    World w;
    Plan p;
    p.workers = static_cast<unsigned>(c.coin() ? 1 : c.range(2, 24));
    p.clients.resize(static_cast<std::size_t>(c.range(1, 3)));
    const std::size_t n = c.pick<std::size_t>({ 20, 60, 120, 190, 260, 300, 600 }) + c.below(9);
    bool delayed = false;
    for (std::size_t i = 0; i < n; ++i)
    {
        Rec& r = w.rec();
        if (c.chance(1, 4)) gen_submission(c, r);
        delayed |= (r.when == 1 || r.when == 2) && r.delay_us > 0;
        p.clients[i % p.clients.size()].push_back(&r);
    }
    gen_plan(c, w, p);
    c.note_f([&] { return std::to_string(n) + " tasks"; });
    const auto cap = n + c.below(3);
    Rec& first = w.rec();
    first.gate = w.gate();
    vs::run(c, [&] {
        auto pool = gul14::make_thread_pool(p.workers, cap);
        if (p.workers == 1) submit(w, *pool, first);
        submit_all(w, *pool, p);
        if (p.workers == 1) { first.gate->release(); wait_result(c, first, 0); }
        for (auto& cl : p.clients) for (auto r : cl) wait_result(c, *r, 0);
        while (!pool->is_idle()) vs::yield();
        pool.reset();
        w.closed = 1;
    });
    for (auto& cl : p.clients)
    {
        int last = 0;
        for (auto r : cl)
        {
            PBT_CHECK(c, r->started == 1 && r->finished == 1, "task " << r->id << " ran " << r->started << " times");
            if (p.workers > 1 || ((r->when == 1 || r->when == 2) && r->delay_us > 0)) continue;
            PBT_CHECK(c, r->seq > last, "task " << r->id << " started before an earlier one");
            last = r->seq;
        }
    }
    check_released(w);
    if (n > 100) c.nontrivial();
}

#ifdef PBT_SCHED
// With a worker free at all times, a task starts as soon as its time has come.
PBT_FACET(timely, 40000, 1500000)
{
    World w;
    Plan p;
    p.workers = static_cast<unsigned>(c.range(1, 3));
    p.clients.resize(static_cast<std::size_t>(c.range(1, 2)));
    std::size_t n = 0, delayed = 0;
    while (c.more(n, 6, 14))
    {
        Rec& r = w.rec();
        gen_submission(c, r, 1);
        if (r.when) r.delay_us = c.range(1, 40) * 5000;
        delayed += r.when == 1 || r.when == 2;
        p.clients[c.below(p.clients.size())].push_back(&r);
        describe(c, r);
    }
    gen_plan(c, w, p);
    const auto blockers = c.below(p.workers);
    std::vector<Rec*> blocked;
    for (std::size_t i = 0; i < blockers; ++i)
    {
        Rec& r = w.rec();
        r.gate = w.gate();
        blocked.push_back(&r);
    }
    const auto split = c.size(8);
    vs::run(c, [&] {
        vs::set_jumps(false); // time passes only when nothing can run
        auto pool = gul14::make_thread_pool(p.workers);
        if (split < 4) for (auto r : blocked) submit(w, *pool, *r);
        submit_all(w, *pool, p);
        if (split >= 4) for (auto r : blocked) submit(w, *pool, *r);
        for (auto& cl : p.clients) for (auto r : cl) wait_result(c, *r, 0);
        for (auto r : blocked) r->gate->release();
        pool.reset();
        w.closed = 1;
    });
    for (auto& cl : p.clients)
        for (auto r : cl)
        {
            auto due = r->submitted_at;
            if (r->when == 1 || r->when == 2) due += r->delay_us * 1000;
            PBT_CHECK(c, r->started_at - due < 2000000, "task " << r->id << " started "
                << (r->started_at - due) / 1000 << " us after it could have been, with a free worker");
        }
    check_released(w);
    if (w.recs.size() >= 4 && delayed >= 2) c.nontrivial();
}
#endif
