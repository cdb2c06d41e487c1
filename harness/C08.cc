// C08: Trigger and interruptible sleep never lose a wake-up and never wake early.
#include "vsched.h"
#include "gul14/Trigger.h"
#include "gul14/time_util.h"
#include <mutex>
#include <new>
#include <thread>
using pbt::Ctx;
using gul14::Trigger;
using std::chrono::microseconds;

namespace {
const bool cfg = [] {
    pbt::config().rule = "at least two waits overlapped with at least one firing of the trigger; for sleeps "
                         "and time measurement: a non-zero duration";
    pbt::config().assumptions = { "up to 3 waiting threads, up to 2 firing threads",
        "the storage of a trigger outlives the threads waiting on it", "clocks do not jump" };
    pbt::config().concurrent = !vs::controlled;
    pbt::config().hang_s = 30;
    return true;
}();

#define TR_CHECK(cond, msg)                                                             \
    do {                                                                                \
        if (!(cond)) {                                                                  \
            std::ostringstream pbt_os_;                                                 \
            pbt_os_ << #cond << " failed: " << msg;                                     \
            vs::fatal(pbt_os_.str());                                                   \
        }                                                                               \
    } while (false)

struct Wait { int kind; std::int64_t us; std::int64_t before_us; };
struct Fire { bool set; bool assign; std::int64_t before_us; };
struct Done { int begin, end; bool fired; std::int64_t t_begin, t_end, us; int kind; };
struct Change { bool set; int begin, end; std::int64_t t_end; };

void pause(std::int64_t us)
{
    if (us == 1) vs::yield();
    else if (us > 1) std::this_thread::sleep_for(microseconds(us));
}

std::int64_t gen_us(Ctx& c)
{
    if (vs::controlled) return c.pick<std::int64_t>({ 0, 1, 10, 1000, 20000, 3000000 });
    return c.pick<std::int64_t>({ 0, 1, 10, 200, 1500 });
}

// The ways to wait; returns true if the trigger fired. Timed ones (kind > 0) may time out.
bool do_wait(const Trigger& t, int kind, std::int64_t us)
{
    const auto d = microseconds(us);
    switch (kind)
    {
    case 0: t.wait(); return true;
    case 1: return t.wait_for(d);
    case 2: return t.wait_until(std::chrono::steady_clock::now() + d);
    case 3: return t.wait_until(std::chrono::system_clock::now() + d);
    case 4: return !gul14::sleep(d, t);
    case 5: return !gul14::sleep(static_cast<double>(us) * 1e-6, t);
    case 6: return t.wait_for(std::chrono::duration<double, std::milli>(static_cast<double>(us) * 1e-3));
    case 7: return t.wait_for(std::chrono::nanoseconds(us * 1000));
    default: return t.wait_until(std::chrono::time_point_cast<std::chrono::seconds>(
        std::chrono::steady_clock::now() + d) + std::chrono::seconds(1)); // coarse time point: at least d
    }
}
const char* wait_name(int k)
{
    static const char* n[] = { "wait()", "wait_for(us)", "wait_until(steady)", "wait_until(system)",
        "sleep(us, trigger)", "sleep(double, trigger)", "wait_for(double ms)", "wait_for(ns)", "wait_until(s)" };
    return n[k];
}
}

// Waiters against one thread that raises and lowers the trigger (and finally leaves it high).
PBT_FACET(history, vs::controlled ? 600000 : 10000, vs::controlled ? 9000000 : 200000)
{
    std::vector<std::vector<Wait>> waiters(static_cast<std::size_t>(c.range(1, 3)));
    for (auto& w : waiters)
    {
        std::size_t n = 0;
        do w.push_back({ static_cast<int>(c.below(vs::controlled ? 9 : 8)), gen_us(c),
            c.pick<std::int64_t>({ 0, 0, 1, 10, 1000 }) });
        while (c.more(n, 2, 5));
    }
    std::vector<Fire> fires;
    const bool initially = c.chance(1, 4);
    std::size_t n = 0;
    while (c.more(n, 3, 8))
        fires.push_back({ c.coin(), c.coin(), c.pick<std::int64_t>({ 0, 1, 10, 1000, 5000 }) });
    fires.push_back({ true, c.coin(), c.pick<std::int64_t>({ 0, 1, 10, 1000, 5000 }) });
    const bool no_jumps = c.coin();
    const bool query = c.coin();
    c.note_f([&] {
        std::string s = initially ? "initially high\n" : "initially low\n";
        for (std::size_t i = 0; i < waiters.size(); ++i)
            for (auto& w : waiters[i]) s += "waiter " + std::to_string(i) + ": " + wait_name(w.kind) + " "
                + std::to_string(w.us) + " us after a pause of " + std::to_string(w.before_us) + " us\n";
        for (auto& f : fires) s += std::string(f.set ? "raise" : "lower") + (f.assign ? " (assignment)" : "")
            + " after a pause of " + std::to_string(f.before_us) + " us\n";
        return s; });
    std::atomic<int> seq{ 1 };
    std::vector<Change> changes;
    std::vector<std::vector<Done>> done(waiters.size());
    vs::run(c, [&] {
        if (no_jumps) vs::set_jumps(false);
        Trigger trg(initially);
        TR_CHECK(static_cast<bool>(trg) == initially, "initial state");
        std::vector<std::thread> th;
        for (std::size_t i = 0; i < waiters.size(); ++i)
            th.emplace_back([&, i] {
                for (auto& w : waiters[i])
                {
                    pause(w.before_us);
                    Done d{};
                    d.kind = w.kind;
                    d.us = w.us;
                    d.t_begin = vs::now_ns();
                    d.begin = ++seq;
                    d.fired = do_wait(trg, w.kind, w.us);
                    d.end = ++seq;
                    d.t_end = vs::now_ns();
                    done[i].push_back(d);
                }
            });
        for (auto& f : fires)
        {
            pause(f.before_us);
            Change ch{};
            ch.set = f.set;
            ch.begin = ++seq;
            if (f.assign) trg = f.set;
            else if (f.set) trg.trigger();
            else trg.reset();
            ch.end = ++seq;
            ch.t_end = vs::now_ns();
            changes.push_back(ch);
            if (query) TR_CHECK(static_cast<bool>(trg) == f.set, "the trigger does not have the state it was given");
        }
        for (auto& t : th) t.join(); // a lost wake-up is a deadlock here
        TR_CHECK(static_cast<bool>(trg), "final state");
    });
    // When could the trigger have been high, when was it definitely high? Positions in seq.
    const int inf = std::numeric_limits<int>::max();
    struct Iv { int lo, hi; };
    std::vector<Iv> maybe, definitely;
    bool high = initially;
    Iv m{ 0, inf }, d{ 0, inf };
    for (auto& ch : changes)
    {
        if (ch.set && !high) { high = true; m = { ch.begin, inf }; d = { ch.end, inf }; }
        else if (!ch.set && high)
        {
            high = false;
            m.hi = ch.end;
            d.hi = ch.begin;
            maybe.push_back(m);
            definitely.push_back(d);
        }
    }
    if (high) { maybe.push_back(m); definitely.push_back(d); }
    const auto final_t = [&] { // since when it has been high for good
        std::int64_t t = -1;
        for (auto it = changes.rbegin(); it != changes.rend() && it->set; ++it) t = it->t_end;
        return t;
    }();
    int overlaps = 0;
    for (auto& v : done)
        for (auto& w : v)
        {
            bool could = false, must = false;
            for (auto& i : maybe) could |= i.lo < w.end && i.hi > w.begin;
            for (auto& i : definitely) must |= i.lo < w.begin && i.hi > w.end;
            if (w.fired) PBT_CHECK(c, could, wait_name(w.kind) << " reported a trigger while it was low throughout");
            else
            {
                PBT_CHECK(c, !must, wait_name(w.kind) << " timed out although the trigger was high throughout");
                PBT_CHECK(c, w.t_end - w.t_begin >= w.us * 1000, wait_name(w.kind) << " timed out after "
                    << w.t_end - w.t_begin << " ns instead of " << w.us << " us");
            }
            if (vs::controlled && no_jumps)
            {
                if (must) PBT_CHECK(c, w.t_end - w.t_begin < 1000000, wait_name(w.kind) << " blocked for "
                    << w.t_end - w.t_begin << " ns although the trigger was high");
                if (w.t_end > final_t) PBT_CHECK(c, w.t_end - std::max(final_t, w.t_begin) < 1000000,
                    wait_name(w.kind) << " returned " << w.t_end - std::max(final_t, w.t_begin)
                    << " ns after the trigger became high for good");
                if (w.kind > 0) PBT_CHECK(c, w.t_end - w.t_begin < w.us * 1000 + (w.kind == 8 ? 1001 : 1) * 1000000LL,
                    wait_name(w.kind) << " took " << w.t_end - w.t_begin << " ns instead of " << w.us << " us");
            }
            for (auto& ch : changes) overlaps += ch.set && ch.begin > w.begin && ch.end < w.end;
        }
    if (overlaps >= 2) c.nontrivial();
    c.label_if(overlaps >= 2, "waits overlapping with a firing");
}

// Several threads fire, many wait without a timeout.
PBT_FACET(broadcast, vs::controlled ? 200000 : 8000, vs::controlled ? 3000000 : 120000)
{
    const auto nw = static_cast<std::size_t>(c.range(1, 4)), nf = static_cast<std::size_t>(c.range(1, 2));
    std::vector<std::int64_t> pw, pf;
    for (std::size_t i = 0; i < nw; ++i) pw.push_back(c.pick<std::int64_t>({ 0, 1, 10, 1000 }));
    for (std::size_t i = 0; i < nf; ++i) pf.push_back(c.pick<std::int64_t>({ 0, 1, 10, 1000 }));
    std::vector<int> kinds;
    for (std::size_t i = 0; i < nw; ++i) kinds.push_back(static_cast<int>(c.below(8)));
    c.note_f([&] { return "waiters pause " + pbt::show(pw) + " kinds " + pbt::show(kinds) + ", firing after " + pbt::show(pf); });
    vs::run(c, [&] {
        vs::set_jumps(false);
        Trigger trg;
        std::atomic<int> fired{ 0 }, back{ 0 };
        std::vector<std::thread> th;
        for (std::size_t i = 0; i < nw; ++i)
            th.emplace_back([&, i] {
                pause(pw[i]);
                // a day: only the trigger can end it
                const bool f = do_wait(trg, kinds[i], 86400LL * 1000000);
                TR_CHECK(f, wait_name(kinds[i]) << " timed out");
                TR_CHECK(fired > 0, wait_name(kinds[i]) << " returned before the trigger fired");
                ++back;
            });
        for (std::size_t i = 0; i < nf; ++i)
            th.emplace_back([&, i] {
                pause(pf[i]);
                ++fired;
                if (i % 2) trg = true; else trg.trigger();
            });
        for (auto& t : th) t.join();
        TR_CHECK(back == static_cast<int>(nw), "waiters");
    });
    if (nw >= 2) c.nontrivial();
}

// Destroying a trigger releases the threads that are blocked on it. The storage outlives the object, and all
// threads are known to be blocked by then: virtual time only advances when nobody can run.
PBT_FACET(destruction, vs::controlled ? 100000 : 1, vs::controlled ? 1500000 : 1)
{
    const auto nw = static_cast<std::size_t>(c.range(1, 4));
    std::vector<std::int64_t> pw;
    std::vector<int> kinds;
    for (std::size_t i = 0; i < nw; ++i)
    {
        pw.push_back(c.pick<std::int64_t>({ 0, 1, 10, 1000 }));
        kinds.push_back(static_cast<int>(c.below(8)));
    }
    const bool cycle = c.coin(); // raised and lowered before anyone waits
    if (!vs::controlled) return;
    c.note_f([&] { return "waiters pause " + pbt::show(pw) + " kinds " + pbt::show(kinds) + ", then destruction"; });
    vs::run(c, [&] {
        vs::set_jumps(false);
        alignas(Trigger) static unsigned char storage[sizeof(Trigger)];
        Trigger* trg = new (storage) Trigger(cycle);
        if (cycle) trg->reset();
        std::atomic<int> back{ 0 };
        std::vector<std::thread> th;
        const auto t0 = vs::now_ns();
        for (std::size_t i = 0; i < nw; ++i)
            th.emplace_back([&, i] {
                pause(pw[i]);
                do_wait(*trg, kinds[i], 86400LL * 1000000);
                ++back;
            });
        std::this_thread::sleep_for(std::chrono::seconds(1));
        TR_CHECK(back == 0, "a thread returned from waiting on a trigger that never fired");
        trg->~Trigger();
        for (auto& t : th) t.join();
        TR_CHECK(back == static_cast<int>(nw), "waiters");
        TR_CHECK(vs::now_ns() - t0 < 10LL * 1000000000, "destroying the trigger did not release the threads waiting on it");
    });
    if (nw >= 2) c.nontrivial();
}

// Sleeps and time measurement.
PBT_FACET(sleeping, vs::controlled ? 300000 : 3000, vs::controlled ? 4500000 : 40000)
{
    const auto us = vs::controlled ? static_cast<std::int64_t>(c.below(c.coin() ? 5000 : 90000000))
                                   : static_cast<std::int64_t>(c.below(700));
    const auto neg = c.chance(1, 20);
    const auto kind = c.below(6);
    const auto work = static_cast<std::int64_t>(c.below(vs::controlled ? 3000000 : 300));
    c.note_f([&] { return "sleep kind " + std::to_string(kind) + " " + (neg ? "-" : "") + std::to_string(us) + " us, then work "
        + std::to_string(work) + " us"; });
    vs::run(c, [&] {
        vs::set_jumps(false);
        const auto t0 = gul14::tic();
        const auto v0 = vs::now_ns();
        const std::int64_t d = neg ? -us : us;
        bool r = false;
        Trigger trg;
        switch (kind)
        {
        case 0: r = gul14::sleep(microseconds(d)); break;
        case 1: r = gul14::sleep(static_cast<double>(d) * 1e-6); break;
        case 2: r = gul14::sleep(microseconds(d), trg); break;
        case 3: r = gul14::sleep(static_cast<double>(d) * 1e-6, trg); break;
        case 4: r = gul14::sleep(std::chrono::duration<float, std::milli>(static_cast<float>(d) / 1000)); break;
        default: r = gul14::sleep(std::chrono::nanoseconds(d * 1000), trg); break;
        }
        TR_CHECK(r, "an uninterrupted sleep reports an interruption");
        const auto el = vs::now_ns() - v0;
        // a float holds 24 bits, a double is rounded to nanoseconds
        const std::int64_t tol = kind == 4 ? us / 1000 + 1000 : kind == 1 || kind == 3 ? 1 : 0;
        if (!neg) TR_CHECK(el + tol >= us * 1000, "sleep kind " << kind << " of " << us << " us lasted " << el << " ns");
        if (vs::controlled) TR_CHECK(el <= (neg ? 0 : us * 1000) + tol + 1000000, "sleep of " << d << " us lasted " << el << " ns");
        pause(work);
        const auto a = vs::now_ns() - v0;
        const auto ns = gul14::toc<std::chrono::nanoseconds>(t0);
        const auto s = gul14::toc(t0);
        const auto ms = gul14::toc<std::chrono::milliseconds>(t0);
        const auto b = vs::now_ns() - v0;
        const std::int64_t slack = 1000; // reading the virtual clock takes a moment
        TR_CHECK(ns >= a - (vs::controlled ? slack : 0), "elapsed " << ns << " ns, really " << a);
        TR_CHECK(s * 1e9 >= static_cast<double>(ns) - 1000, "elapsed " << s << " s");
        TR_CHECK(ms >= ns / 1000000 && ms <= static_cast<std::int64_t>(s * 1e3) + (vs::controlled ? 1 : 100000), "elapsed " << ms << " ms");
        if (vs::controlled)
        {
            TR_CHECK(ns <= b + slack, "elapsed " << ns << " ns, really " << b);
            TR_CHECK(s * 1e9 <= static_cast<double>(b + slack), "elapsed " << s << " s, really " << b << " ns");
        }
    });
    if (us > 0) c.nontrivial();
}
