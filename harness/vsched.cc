// vsched.cc - see vsched.h. Only active in builds with PBT_SCHED.
#ifdef PBT_SCHED
#include "vsched.h"
#include <algorithm>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace {

long raw6(long n, long a, long b, long c, long d, long e, long f)
{
#if defined(__x86_64__)
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
#else
    static auto real = reinterpret_cast<long (*)(long, ...)>(dlsym(RTLD_NEXT, "syscall"));
    long r = real(n, a, b, c, d, e, f);
    return r == -1 ? -errno : r;
#endif
}

template <typename F> F next_fn(const char* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
#define REAL(name) ([]() { static auto f = next_fn<decltype(&name)>(#name); return f; }())

enum class St { runnable, mutex, cond, futex, sleep, join, done };
const char* st_name(St s)
{
    switch (s)
    {
    case St::runnable: return "runnable";
    case St::mutex: return "waiting for a mutex";
    case St::cond: return "waiting on a condition variable";
    case St::futex: return "waiting for a result (futex)";
    case St::sleep: return "sleeping";
    case St::join: return "joining a thread";
    default: return "finished";
    }
}

struct Thread
{
    int id = 0;
    St st = St::runnable;
    void* obj = nullptr;         // mutex, condition variable, futex word or Thread*
    pthread_mutex_t* mtx = nullptr; // the mutex to re-acquire after a condition wait
    std::int64_t deadline = -1;  // -1: none
    bool timed_out = false, woken = false;
    bool shared = false;         // waiting for a shared (reader) lock
    std::atomic<int> go{ 0 };
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    void* ret = nullptr;
    pthread_t real{};
    struct Os* os = nullptr;
    bool registered = false;
    unsigned yields = 0;
};

/// An operating system thread. They are recycled: creating and destroying tens of thousands of
/// them per second makes the kernel run out of memory for their stacks.
struct Os
{
    pthread_t real{};
    std::atomic<int> start{ 0 };
    Thread* t = nullptr;
    sigset_t mask{};
};
std::vector<Os*> all_threads, idle_threads; // (all: so that they are not taken for leaks)
pid_t idle_pid = 0;

struct Lock { Thread* owner = nullptr; int depth = 0; int readers = 0; bool recursive = false; };

struct Sched
{
    pbt::Ctx* c = nullptr;
    bool active = false;
    std::vector<std::unique_ptr<Thread>> threads;
    std::map<void*, Lock> locks;
    std::int64_t now = 0;
    std::uint64_t steps = 0;
    unsigned pre_num = 1, pre_den = 4;
    bool spurious = false, jumps = false;
    unsigned same = 0;
} S;

__thread Thread* self = nullptr;
bool managed() { return self != nullptr && S.active; }

constexpr std::int64_t real_epoch = 1700000000LL * 1000000000LL;
constexpr std::int64_t mono_epoch = 5000LL * 1000000000LL;

void wait_go(Thread* t)
{
    while (t->go.load() == 0)
        raw6(SYS_futex, reinterpret_cast<long>(&t->go), FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    t->go.store(0);
}
void give(Thread* t)
{
    t->go.store(1);
    raw6(SYS_futex, reinterpret_cast<long>(&t->go), FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

bool lock_free(Thread* t, void* m)
{
    auto it = S.locks.find(m);
    if (it == S.locks.end()) return true;
    Lock& l = it->second;
    if (t->shared) return l.owner == nullptr;
    return l.owner == nullptr && l.readers == 0;
}

bool enabled(Thread* t)
{
    switch (t->st)
    {
    case St::runnable: return true;
    case St::mutex: return lock_free(t, t->obj) || (t->deadline >= 0 && t->deadline <= S.now);
    case St::cond: // a timed-out waiter can continue once it gets its mutex
        return t->deadline >= 0 && t->deadline <= S.now && lock_free(t, t->mtx);
    case St::futex:
    case St::sleep: return t->deadline >= 0 && t->deadline <= S.now;
    case St::join: return static_cast<Thread*>(t->obj)->st == St::done;
    case St::done: return false;
    }
    return false;
}

void acquire(Thread* t, void* m)
{
    Lock& l = S.locks[m];
    if (t->shared) ++l.readers;
    else { l.owner = t; l.depth = 1; }
}

/// Make t, which is enabled, runnable.
void resume(Thread* t)
{
    switch (t->st)
    {
    case St::mutex:
        if (lock_free(t, t->obj)) acquire(t, t->obj);
        else t->timed_out = true;
        break;
    case St::cond: t->timed_out = true; acquire(t, t->mtx); break;
    case St::futex: t->timed_out = true; break;
    default: break;
    }
    t->st = St::runnable;
    t->deadline = -1;
}

[[noreturn]] void die(const std::string& msg)
{
    std::string m = msg + "\n";
    raw6(SYS_write, 2, reinterpret_cast<long>(m.data()), static_cast<long>(m.size()), 0, 0, 0);
    raw6(SYS_exit_group, 78, 0, 0, 0, 0, 0);
    for (;;) {}
}

std::string dump()
{
    std::string s;
    for (auto& t : S.threads)
        s += " | thread " + std::to_string(t->id) + ": " + st_name(t->st);
    return s;
}

std::int64_t earliest()
{
    std::int64_t d = -1;
    for (auto& t : S.threads)
        if (t->st != St::done && t->st != St::runnable && t->deadline >= 0 && t->deadline > S.now
            && (d < 0 || t->deadline < d)) d = t->deadline;
    return d;
}

void advance_to(std::int64_t d)
{
    S.now = d;
    if (S.jumps) switch (S.c->below(4)) // and a bit later than that
    {
    case 1: S.now += 1; break;
    case 2: S.now += 3000000; break;
    default: break;
    }
}

/// The current thread gives up control in its present state; returns when it runs again.
void resched()
{
    Thread* me = self;
    pbt::Ctx& c = *S.c;
    if (++S.steps > 300000) die("no progress: the threads keep running without getting anywhere" + dump());
    if (S.spurious && c.chance(1, 24))
    {
        std::vector<Thread*> w;
        for (auto& t : S.threads) if (t->st == St::cond) w.push_back(t.get());
        if (!w.empty())
        {
            Thread* t = w[c.below(w.size())];
            t->st = St::mutex; t->obj = t->mtx; t->deadline = -1; // spurious wake-up
        }
    }
    if (S.jumps && c.chance(1, 12))
    {
        const auto d = earliest();
        if (d >= 0) advance_to(d);
    }
    Thread* next = nullptr;
    for (;;)
    {
        const bool me_ok = enabled(me);
        if (me_ok && S.same < 400 && !c.chance(S.pre_num, S.pre_den)) { next = me; ++S.same; break; }
        Thread* cand[64];
        unsigned n = 0;
        // the others first, in the order of their ids after mine
        for (auto& t : S.threads) if (t->id > me->id && enabled(t.get()) && n < 64) cand[n++] = t.get();
        for (auto& t : S.threads) if (t->id < me->id && enabled(t.get()) && n < 64) cand[n++] = t.get();
        if (me_ok && !(S.same >= 400 && n > 0) && n < 64) cand[n++] = me;
        if (n > 0) { next = cand[c.below(n)]; S.same = 0; break; }
        const auto d = earliest();
        if (d < 0) die("deadlock: no thread can ever continue" + dump());
        advance_to(d);
    }
    if (next->st != St::runnable) resume(next);
    if (next == me) return;
    const bool done = me->st == St::done;
    give(next); // if we are done, the Thread object may cease to exist from here on
    if (!done) wait_go(me);
}

void pass() { resched(); }

void* os_main(void* p)
{
    Os* o = static_cast<Os*>(p);
    for (;;)
    {
        while (o->start.load() == 0)
            raw6(SYS_futex, reinterpret_cast<long>(&o->start), FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
        o->start.store(0);
        Thread* t = o->t;
        pthread_sigmask(SIG_SETMASK, &o->mask, nullptr); // like a new thread
        self = t;
        wait_go(t);
        t->ret = t->fn(t->arg);
        t->st = St::done;
        resched();
        self = nullptr;
    }
    return nullptr;
}

/// The thread object is not needed any more, its operating system thread can be used again.
void recycle(Thread& t)
{
    if (t.os != nullptr && t.st == St::done) idle_threads.push_back(t.os);
    t.os = nullptr;
}

bool block_mutex(void* m, bool shared = false, std::int64_t deadline = -1)
{
    self->st = St::mutex;
    self->obj = m;
    self->shared = shared;
    self->deadline = deadline;
    self->timed_out = false;
    resched();
    self->shared = false;
    return !self->timed_out;
}

/// Lock m, waiting for it at most until the given moment (< 0: forever, 0: not at all).
int lock_until(void* m, bool shared, std::int64_t deadline)
{
    pass();
    Lock& l = S.locks[m];
    if (l.owner == nullptr && (shared || l.readers == 0))
    {
        if (shared) ++l.readers;
        else { l.owner = self; l.depth = 1; }
        return 0;
    }
    if (deadline == 0) return EBUSY;
    return block_mutex(m, shared, deadline) ? 0 : ETIMEDOUT;
}

int unlock(void* m)
{
    Lock& l = S.locks[m];
    if (l.owner != self) die("a mutex is unlocked by a thread that does not own it");
    if (--l.depth == 0) l.owner = nullptr;
    return 0;
}

std::int64_t to_virtual(int clock, const timespec* ts)
{
    std::int64_t s = ts->tv_sec;
    if (s > 9000000000LL) s = 9000000000LL;
    const std::int64_t v = s * 1000000000LL + ts->tv_nsec
        - (clock == CLOCK_REALTIME ? real_epoch : mono_epoch);
    return v < 0 ? 0 : v;
}

int cond_wait(pthread_cond_t* cv, pthread_mutex_t* m, std::int64_t deadline)
{
    pass(); // the moment between deciding to wait and waiting
    if (S.locks[m].owner != self) die("waiting on a condition variable without holding the mutex");
    S.locks[m].owner = nullptr;
    S.locks[m].depth = 0;
    self->st = St::cond;
    self->obj = cv;
    self->mtx = m;
    self->deadline = deadline;
    self->timed_out = false;
    self->shared = false;
    resched();
    return self->timed_out ? ETIMEDOUT : 0;
}

int cond_wake(pthread_cond_t* cv, bool all)
{
    pass();
    std::vector<Thread*> w;
    for (auto& t : S.threads) if (t->st == St::cond && t->obj == cv) w.push_back(t.get());
    if (w.empty()) return 0;
    if (!all)
    {
        Thread* one = w[S.c->below(w.size())];
        w.assign(1, one);
    }
    for (Thread* t : w)
    {
        t->st = St::mutex;
        t->obj = t->mtx;
        t->deadline = -1;
    }
    pass();
    return 0;
}

void do_sleep(std::int64_t until)
{
    self->st = St::sleep;
    self->obj = nullptr;
    self->deadline = until;
    resched();
}

std::int64_t rel(const timespec* ts)
{
    std::int64_t s = ts->tv_sec;
    if (s > 4000000000LL) s = 4000000000LL;
    return s * 1000000000LL + ts->tv_nsec;
}

} // namespace

namespace vs {

void run(pbt::Ctx& c, const std::function<void()>& body)
{
    static bool pinned = false;
    if (!pinned) // hand-over between threads is much cheaper on one processor
    {
        pinned = true;
        cpu_set_t all, one;
        if (sched_getaffinity(0, sizeof all, &all) == 0)
        {
            std::vector<int> cpus;
            for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &all)) cpus.push_back(i);
            CPU_ZERO(&one);
            if (!cpus.empty())
            {
                CPU_SET(cpus[static_cast<std::size_t>(getpid()) % cpus.size()], &one);
                sched_setaffinity(0, sizeof one, &one);
            }
        }
    }
    S.c = &c;
    if (idle_pid != getpid()) { idle_threads.clear(); S.threads.clear(); idle_pid = getpid(); }
    for (auto& t : S.threads) recycle(*t);
    S.threads.clear();
    S.locks.clear();
    S.now = 0;
    S.steps = 0;
    S.same = 0;
    switch (c.below(5))
    {
    case 0: S.pre_num = 1; S.pre_den = 4; break;
    case 1: S.pre_num = 1; S.pre_den = 12; break;
    case 2: S.pre_num = 1; S.pre_den = 2; break;
    case 3: S.pre_num = 1; S.pre_den = 40; break;
    default: S.pre_num = 3; S.pre_den = 4; break;
    }
    S.spurious = c.chance(1, 5);
    S.jumps = c.chance(1, 2);
    S.threads.emplace_back(new Thread);
    self = S.threads[0].get();
    S.active = true;
    try
    {
        body();
    }
    catch (const pbt::Failure& f)
    {
        die(f.msg); // other threads may be in any state
    }
    catch (const std::exception& e)
    {
        die(std::string("unexpected exception ") + typeid(e).name() + ": " + e.what());
    }
    if (live_threads() != 1) die("threads are left behind at the end of the case" + dump());
    S.active = false;
    self = nullptr;
}

// A thread that polls sleeps for a while, longer and longer, so that time passes.
void yield()
{
    if (!managed()) return;
    const unsigned k = std::min(self->yields++ / 8, 17u);
    do_sleep(S.now + (1000LL << k));
}
void point() { if (managed()) resched(); }
std::int64_t now_ns() { return S.now; }
unsigned live_threads()
{
    unsigned n = 0;
    for (auto& t : S.threads) n += t->st != St::done;
    return n;
}
void set_jumps(bool b) { S.jumps = b; }
void fatal(const std::string& msg) { die(msg); }

} // namespace vs

// ------------------------------------------------------------------------------------
// Replacements

extern "C" {

int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
    if (!managed()) return REAL(pthread_create)(out, attr, fn, arg);
    std::unique_ptr<Thread> t(new Thread);
    t->id = static_cast<int>(S.threads.size());
    t->fn = fn;
    t->arg = arg;
    Thread* p = t.get();
    Os* o = nullptr;
    if (!idle_threads.empty()) { o = idle_threads.back(); idle_threads.pop_back(); }
    else
    {
        o = new Os;
        const int r = REAL(pthread_create)(&o->real, nullptr, os_main, o);
        if (r != 0) { delete o; return r; }
        all_threads.push_back(o);
    }
    (void)attr;
    p->os = o;
    p->real = *out = o->real;
    pthread_sigmask(SIG_SETMASK, nullptr, &o->mask);
    o->t = p;
    o->start.store(1);
    raw6(SYS_futex, reinterpret_cast<long>(&o->start), FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
    S.threads.push_back(std::move(t));
    pass();
    return 0;
}

int pthread_join(pthread_t th, void** ret)
{
    if (managed())
    {
        for (auto& t : S.threads)
            if (t->id != 0 && pthread_equal(t->real, th) && !t->registered)
            {
                Thread* p = t.get(); // (the vector may grow meanwhile)
                if (p == self) return EDEADLK;
                pass();
                self->st = St::join;
                self->obj = p;
                self->deadline = -1;
                resched();
                p->registered = true; // joined; the id may be reused
                if (ret != nullptr) *ret = p->ret;
                recycle(*p);
                return 0;
            }
        return ESRCH;
    }
    return REAL(pthread_join)(th, ret);
}

int pthread_detach(pthread_t th)
{
    if (managed())
    {
        for (auto& t : S.threads)
            if (t->id != 0 && pthread_equal(t->real, th) && !t->registered)
            {
                t->registered = true; // (recycled at the end of the case)
                return 0;
            }
        return ESRCH;
    }
    return REAL(pthread_detach)(th);
}

int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!managed()) return REAL(pthread_mutex_lock)(m);
    pass();
    Lock& l = S.locks[m];
    if (l.owner == self)
    {
        if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { ++l.depth; return 0; }
        die("deadlock: a thread locks a mutex that it already holds");
    }
    if (l.owner == nullptr && l.readers == 0) { l.owner = self; l.depth = 1; return 0; }
    block_mutex(m);
    return 0;
}

int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!managed()) return REAL(pthread_mutex_trylock)(m);
    pass();
    Lock& l = S.locks[m];
    if (l.owner == self && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { ++l.depth; return 0; }
    if (l.owner != nullptr || l.readers) return EBUSY;
    l.owner = self;
    l.depth = 1;
    return 0;
}

int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!managed()) return REAL(pthread_mutex_unlock)(m);
    unlock(m);
    pass();
    return 0;
}

int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (!managed()) return REAL(pthread_rwlock_rdlock)(m);
    pass();
    Lock& l = S.locks[m];
    if (l.owner == self) return EDEADLK;
    if (l.owner == nullptr) { ++l.readers; return 0; }
    block_mutex(m, true);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if (!managed()) return REAL(pthread_rwlock_wrlock)(m);
    pass();
    Lock& l = S.locks[m];
    if (l.owner == self) return EDEADLK;
    if (l.owner == nullptr && l.readers == 0) { l.owner = self; l.depth = 1; return 0; }
    block_mutex(m);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    if (!managed()) return REAL(pthread_rwlock_unlock)(m);
    Lock& l = S.locks[m];
    if (l.owner == self) { l.owner = nullptr; l.depth = 0; }
    else if (l.readers > 0) --l.readers;
    pass();
    return 0;
}

int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t clk, const struct timespec* ts)
{
    if (!managed()) return REAL(pthread_mutex_clocklock)(m, clk, ts);
    Lock& l = S.locks[m];
    if (l.owner == self)
    {
        if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { ++l.depth; return 0; }
        return EDEADLK;
    }
    return lock_until(m, false, std::max<std::int64_t>(1, to_virtual(clk, ts)));
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts)
{
    if (!managed()) return REAL(pthread_mutex_timedlock)(m, ts);
    return pthread_mutex_clocklock(m, CLOCK_REALTIME, ts);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m)
{
    if (!managed()) return REAL(pthread_rwlock_tryrdlock)(m);
    return lock_until(m, true, 0);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m)
{
    if (!managed()) return REAL(pthread_rwlock_trywrlock)(m);
    return lock_until(m, false, 0);
}
int pthread_rwlock_clockrdlock(pthread_rwlock_t* m, clockid_t clk, const struct timespec* ts)
{
    if (!managed()) return REAL(pthread_rwlock_clockrdlock)(m, clk, ts);
    if (S.locks[m].owner == self) return EDEADLK;
    return lock_until(m, true, std::max<std::int64_t>(1, to_virtual(clk, ts)));
}
int pthread_rwlock_clockwrlock(pthread_rwlock_t* m, clockid_t clk, const struct timespec* ts)
{
    if (!managed()) return REAL(pthread_rwlock_clockwrlock)(m, clk, ts);
    if (S.locks[m].owner == self) return EDEADLK;
    return lock_until(m, false, std::max<std::int64_t>(1, to_virtual(clk, ts)));
}
int pthread_rwlock_timedrdlock(pthread_rwlock_t* m, const struct timespec* ts)
{
    if (!managed()) return REAL(pthread_rwlock_timedrdlock)(m, ts);
    return pthread_rwlock_clockrdlock(m, CLOCK_REALTIME, ts);
}
int pthread_rwlock_timedwrlock(pthread_rwlock_t* m, const struct timespec* ts)
{
    if (!managed()) return REAL(pthread_rwlock_timedwrlock)(m, ts);
    return pthread_rwlock_clockwrlock(m, CLOCK_REALTIME, ts);
}

int pthread_once(pthread_once_t* once, void (*fn)(void))
{
    if (!managed()) return REAL(pthread_once)(once, fn);
    auto* word = reinterpret_cast<std::atomic<int>*>(once);
    pass();
    if (word->load() & 2) return 0; // glibc's mark for "done"
    if (S.locks[once].owner == self) die("deadlock: a thread waits for its own call_once");
    lock_until(once, false, -1);
    struct Guard { void* o; ~Guard() { S.locks[o].owner = nullptr; S.locks[o].depth = 0; } } g{ once };
    if (!(word->load() & 2)) { fn(); word->store(2); }
    return 0;
}

int sem_wait(sem_t* s)
{
    if (!managed()) return REAL(sem_wait)(s);
    for (;;)
    {
        pass();
        if (sem_trywait(s) == 0) return 0;
        self->st = St::futex;
        self->obj = s;
        self->deadline = -1;
        self->timed_out = false;
        resched();
    }
}
int sem_clockwait(sem_t* s, clockid_t clk, const struct timespec* ts)
{
    if (!managed()) return REAL(sem_clockwait)(s, clk, ts);
    for (;;)
    {
        pass();
        if (sem_trywait(s) == 0) return 0;
        self->st = St::futex;
        self->obj = s;
        self->deadline = to_virtual(clk, ts);
        self->timed_out = false;
        resched();
        if (self->timed_out && sem_trywait(s) != 0) { errno = ETIMEDOUT; return -1; }
        if (self->timed_out) return 0;
    }
}
int sem_timedwait(sem_t* s, const struct timespec* ts)
{
    if (!managed()) return REAL(sem_timedwait)(s, ts);
    return sem_clockwait(s, CLOCK_REALTIME, ts);
}
int sem_post(sem_t* s)
{
    const int r = REAL(sem_post)(s);
    if (!managed()) return r;
    for (auto& t : S.threads)
        if (t->st == St::futex && t->obj == s) { t->st = St::runnable; t->deadline = -1; }
    pass();
    return r;
}

int pthread_cond_wait(pthread_cond_t* cv, pthread_mutex_t* m)
{
    if (!managed()) return REAL(pthread_cond_wait)(cv, m);
    return cond_wait(cv, m, -1);
}
int pthread_cond_timedwait(pthread_cond_t* cv, pthread_mutex_t* m, const struct timespec* ts)
{
    if (!managed()) return REAL(pthread_cond_timedwait)(cv, m, ts);
    return cond_wait(cv, m, to_virtual(CLOCK_REALTIME, ts));
}
int pthread_cond_clockwait(pthread_cond_t* cv, pthread_mutex_t* m, clockid_t clk, const struct timespec* ts)
{
    if (!managed()) return REAL(pthread_cond_clockwait)(cv, m, clk, ts);
    return cond_wait(cv, m, to_virtual(clk, ts));
}
int pthread_cond_signal(pthread_cond_t* cv)
{
    if (!managed()) return REAL(pthread_cond_signal)(cv);
    return cond_wake(cv, false);
}
int pthread_cond_broadcast(pthread_cond_t* cv)
{
    if (!managed()) return REAL(pthread_cond_broadcast)(cv);
    return cond_wake(cv, true);
}

int nanosleep(const struct timespec* req, struct timespec* rem)
{
    if (!managed()) return REAL(nanosleep)(req, rem);
    do_sleep(S.now + rel(req));
    return 0;
}
int clock_nanosleep(clockid_t clk, int flags, const struct timespec* req, struct timespec* rem)
{
    if (!managed()) return REAL(clock_nanosleep)(clk, flags, req, rem);
    do_sleep(flags & TIMER_ABSTIME ? to_virtual(clk, req) : S.now + rel(req));
    return 0;
}
int usleep(useconds_t us)
{
    if (!managed()) return REAL(usleep)(us);
    do_sleep(S.now + static_cast<std::int64_t>(us) * 1000);
    return 0;
}
int sched_yield()
{
    if (!managed()) return REAL(sched_yield)();
    vs::yield();
    return 0;
}
int clock_gettime(clockid_t clk, struct timespec* ts)
{
    if (!managed()) return static_cast<int>(raw6(SYS_clock_gettime, clk, reinterpret_cast<long>(ts), 0, 0, 0, 0));
    S.now += 100; // looking at the clock takes time
    const std::int64_t v = S.now + (clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE ? real_epoch : mono_epoch);
    ts->tv_sec = v / 1000000000LL;
    ts->tv_nsec = v % 1000000000LL;
    return 0;
}
int gettimeofday(struct timeval* tv, void* tz)
{
    if (!managed()) return static_cast<int>(raw6(SYS_gettimeofday, reinterpret_cast<long>(tv), reinterpret_cast<long>(tz), 0, 0, 0, 0));
    const std::int64_t v = S.now + real_epoch;
    tv->tv_sec = v / 1000000000LL;
    tv->tv_usec = v % 1000000000LL / 1000;
    return 0;
}

long syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (long& x : a) x = va_arg(ap, long);
    va_end(ap);
    if (managed() && n == SYS_futex)
    {
        auto* word = reinterpret_cast<std::atomic<int>*>(a[0]);
        const int op = static_cast<int>(a[1]);
        switch (op & FUTEX_CMD_MASK)
        {
        case FUTEX_WAIT:
        case FUTEX_WAIT_BITSET:
        {
            pass();
            if (word->load() != static_cast<int>(a[2])) { errno = EAGAIN; return -1; }
            const auto* ts = reinterpret_cast<const timespec*>(a[3]);
            std::int64_t dl = -1;
            if (ts != nullptr)
                dl = (op & FUTEX_CMD_MASK) == FUTEX_WAIT ? S.now + rel(ts)
                    : to_virtual(op & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
            self->st = St::futex;
            self->obj = word;
            self->deadline = dl;
            self->timed_out = false;
            resched();
            if (self->timed_out) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        case FUTEX_WAKE:
        case FUTEX_WAKE_BITSET:
        {
            long woken = 0;
            for (auto& t : S.threads)
                if (woken < static_cast<int>(a[2]) && t->st == St::futex && t->obj == word)
                {
                    t->st = St::runnable;
                    t->deadline = -1;
                    ++woken;
                }
            pass();
            return woken;
        }
        default: break;
        }
    }
    const long r = raw6(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (r < 0 && r > -4096) { errno = static_cast<int>(-r); return -1; }
    return r;
}

} // extern "C"
#endif
