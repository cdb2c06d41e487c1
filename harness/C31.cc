// C31: a finalizer runs its action exactly once at the end of its scope.
#include "pbt.h"
#include "gul14/finalizer.h"
using pbt::Ctx;
namespace {
const bool cfg = [] {
    pbt::config().rule = "histories: an action was transferred at least once; scopes: at least three finalizers in at least two nested scopes";
    pbt::config().assumptions = { "actions do not throw (FinalAction's destructor is noexcept)", "callables have non-throwing move constructors" };
    return true;
}();

/// What ran, in order. Instances of callables are counted.
struct Log { std::vector<int> ran; int alive = 0; std::string error; };
Log* lg = nullptr;

template <bool Copyable>
struct Act
{
    int id; bool valid = true; const Act* self;
    explicit Act(int i) : id(i), self(this) { ++lg->alive; }
    Act(const Act& o) : id(o.id), valid(o.valid), self(this) { static_assert(Copyable, "not copyable"); o.check("copied"); ++lg->alive; }
    Act(Act&& o) noexcept : id(o.id), valid(o.valid), self(this) { o.check("moved"); o.valid = false; ++lg->alive; }
    Act& operator=(Act&& o) noexcept { check("assigned to"); o.check("moved"); if (this != &o) { id = o.id; valid = o.valid; o.valid = false; } return *this; }
    Act& operator=(const Act& o) { static_assert(Copyable, "not copyable"); id = o.id; valid = o.valid; return *this; }
    ~Act() { check("destroyed"); --lg->alive; self = nullptr; }
    void check(const char* what) const { if (self != this) lg->error = std::string("dead callable ") + what; }
    void operator()() { check("called"); if (!valid) lg->error = "called an action that was moved from"; lg->ran.push_back(id); }
};
template <> inline Act<false>::Act(const Act&) = delete;
template <> inline Act<false>& Act<false>::operator=(const Act&) = delete;

int fn_id = 0;
void free_function() { lg->ran.push_back(fn_id); }

// How to make a callable of each kind for an id.
struct KAct { using F = Act<true>; static constexpr bool copyable = true; static F make(int id) { return F(id); } };
struct KMove { using F = Act<false>; static constexpr bool copyable = false; static F make(int id) { return F(id); } };
struct KStdFunction { using F = std::function<void()>; static constexpr bool copyable = true; static F make(int id) { return Act<true>(id); } };
struct KPointer { using F = void (*)(); static constexpr bool copyable = true; static F make(int) { return &free_function; } };

/// A history on several owners: creation, transfer, replacement, destruction.
template <typename K>
struct Machine
{
    using F = typename K::F;
    using FA = gul14::FinalAction<F>;
    static constexpr bool ptr = std::is_same<K, KPointer>::value;
    Ctx& c; Log log;
    struct Owner { alignas(FA) unsigned char mem[sizeof(FA)]; bool exists = false; int act = -1; FA& get() { return *reinterpret_cast<FA*>(mem); } };
    std::vector<Owner> o; int next = 1; std::vector<int> want; bool moved = false;
    explicit Machine(Ctx& ctx) : c(ctx), o(4) { lg = &log; fn_id = 0; }
    int fresh() { return ptr ? 0 : next++; }

    template <bool B = K::copyable> std::enable_if_t<B> create_lvalue(Owner& x, int id)
    {
        F f = K::make(id);
        const F& cf = f;
        switch (c.below(4))
        {
        case 0: c.note("  from an lvalue with finally()"); ::new (x.mem) FA(gul14::finally(f)); break;
        case 1: c.note("  from a constant lvalue with finally()"); ::new (x.mem) FA(gul14::finally(cf)); break;
        case 2: c.note("  from an lvalue"); ::new (x.mem) FA(f); break;
        default: c.note("  from a constant lvalue"); ::new (x.mem) FA(cf); break;
        }
        x.exists = true; x.act = id;
        const std::size_t n = log.ran.size();
        f(); // the callable itself stays usable
        PBT_CHECK(c, log.error.empty() && log.ran.size() == n + 1 && log.ran.back() == id, "the callable passed as lvalue was moved from: " << log.error);
        log.ran.pop_back();
    }
    template <bool B = K::copyable> std::enable_if_t<!B> create_lvalue(Owner& x, int id) { create(x, id); }
    void create(Owner& x, int id)
    {
        if (c.coin()) ::new (x.mem) FA(gul14::finally(K::make(id)));
        else ::new (x.mem) FA(K::make(id));
        x.exists = true; x.act = id;
    }
    void destroy(Owner& x)
    {
        x.get().~FA();
        if (x.act >= 0) want.push_back(x.act);
        x.exists = false; x.act = -1;
    }
    void verify(const char* what)
    {
        PBT_CHECK(c, log.error.empty(), what << ": " << log.error);
        PBT_CHECK(c, log.ran == want, what << ": actions that ran: " << pbt::show(log.ran) << ", expected " << pbt::show(want));
        int n = 0, all = 0;
        for (auto& x : o) { n += x.act >= 0; all += x.exists; }
        if (std::is_same<K, KAct>::value || std::is_same<K, KMove>::value)
            PBT_CHECK(c, log.alive >= n && (all > 0 || log.alive == 0), what << ": " << log.alive << " callables alive for " << n << " pending actions");
    }
    void run()
    {
        std::size_t k = 0;
        while (c.more(k, 10, 40))
        {
            const std::size_t i = c.below(o.size());
            Owner& x = o[i];
            if (!x.exists)
            {
                if (c.coin())
                {
                    const int id = fresh();
                    c.note("create finalizer " + std::to_string(i) + " with action " + std::to_string(id));
                    if (c.chance(1, 3)) create_lvalue<>(x, id); else create(x, id);
                }
                else
                {
                    const std::size_t j = c.below(o.size());
                    if (j == i || !o[j].exists) continue;
                    c.note("move-construct finalizer " + std::to_string(i) + " from " + std::to_string(j));
                    ::new (x.mem) FA(std::move(o[j].get()));
                    x.exists = true; x.act = o[j].act; o[j].act = -1; moved = moved || x.act >= 0;
                }
            }
            else switch (c.below(3))
            {
            case 0: c.note("destroy finalizer " + std::to_string(i)); destroy(x); break;
            default:
            {
                const std::size_t j = c.below(o.size());
                if (!o[j].exists) continue;
                c.note("move-assign finalizer " + std::to_string(j) + " to " + std::to_string(i));
                FA& r = (x.get() = std::move(o[j].get()));
                PBT_CHECK(c, &r == &x.get(), "result of assignment");
                if (i != j) { x.act = o[j].act; o[j].act = -1; moved = moved || x.act >= 0; }
                break;
            }
            }
            verify("after the operation");
        }
        for (auto& x : o) if (x.exists) destroy(x);
        verify("at the end");
        if (moved) c.nontrivial();
    }
};
PBT_FACET(histories, 150000, 1500000) { Machine<KAct>(c).run(); }
PBT_FACET(histories_move_only, 150000, 1500000) { Machine<KMove>(c).run(); }
PBT_FACET(histories_std_function, 100000, 1000000) { Machine<KStdFunction>(c).run(); }
PBT_FACET(histories_function_pointer, 100000, 1000000) { Machine<KPointer>(c).run(); }

// ---- real scopes that are left in different ways
struct Exit {};
struct Scopes
{
    Ctx& c; Log log; std::vector<int> want; int next = 1; unsigned made = 0, depth_max = 0;
    explicit Scopes(Ctx& ctx) : c(ctx) { lg = &log; }
    // Runs the rest of the scope below one finalizer; leaves by return or exception. True: an early return is under way.
    bool body(unsigned depth)
    {
        depth_max = std::max(depth_max, depth);
        switch (made > 30 ? 0 : c.below(7))
        {
        case 0: return false;                                   // normal end of the scope
        case 1: c.note(pad(depth) + "return"); return true;     // early return
        case 2: c.note(pad(depth) + "throw"); throw Exit{};
        case 3: // an inner scope that catches
        {
            c.note(pad(depth) + "{ try");
            try { body(depth + 1); } catch (const Exit&) {}
            c.note(pad(depth) + "}");
            check("after an inner scope");
            return body(depth);
        }
        case 4:
        {
            const int id = next++; ++made;
            c.note(pad(depth) + "lambda finalizer " + std::to_string(id));
            std::unique_ptr<int> p(new int(id));
            Expect e(*this, id);
            auto f = gul14::finally([&log = log, q = std::move(p)] { log.ran.push_back(*q); });
            check("after registration");
            return body(depth + 1);
        }
        case 5: // the action is handed out of the inner scope by a function
        {
            const int id = next++; ++made;
            c.note(pad(depth) + "returned finalizer " + std::to_string(id));
            Expect e(*this, id);
            auto f = make(id);
            check("after registration by a function");
            return body(depth + 1);
        }
        default: // transfer into an inner scope: runs at the end of that one
        {
            const int id = next++; ++made;
            c.note(pad(depth) + "finalizer " + std::to_string(id) + " transferred to an inner scope");
            auto f = gul14::finally(Act<true>(id));
            bool r = false;
            {
                Expect e(*this, id);
                auto g = std::move(f);
                r = body(depth + 1);
            }
            check("after the scope of the new owner");
            return r ? r : body(depth);
        }
        }
    }
    gul14::FinalAction<Act<false>> make(int id)
    {
        auto f = gul14::finally(Act<false>(id));
        if (c.coin()) return f;
        auto g = std::move(f);
        return g;
    }
    // Declared before the finalizer, hence destroyed right after it: the expected order.
    struct Expect
    {
        Scopes& s; int id;
        Expect(Scopes& sc, int i) : s(sc), id(i) {}
        ~Expect() { s.want.push_back(id); if (s.log.ran != s.want && s.log.error.empty()) s.log.error = "finalizer " + std::to_string(id) + " did not run exactly once at the end of its scope: " + pbt::show(s.log.ran) + " ran, expected " + pbt::show(s.want); }
    };
    void check(const char* what)
    {
        PBT_CHECK(c, log.error.empty(), what << ": " << log.error);
        PBT_CHECK(c, log.ran == want, what << ": actions that ran: " << pbt::show(log.ran) << ", expected " << pbt::show(want));
    }
    static std::string pad(unsigned d) { return std::string(2 * d, ' '); }
};
PBT_FACET(scopes, 300000, 3000000)
{
    Scopes s(c);
    try { s.body(0); } catch (const Exit&) {}
    s.check("at the end");
    PBT_CHECK(c, static_cast<int>(s.log.ran.size()) == s.next - 1, s.log.ran.size() << " actions ran of " << s.next - 1);
    PBT_CHECK(c, s.log.alive == 0, s.log.alive << " callables left");
    if (s.made >= 3 && s.depth_max >= 2) c.nontrivial();
}
static_assert(!std::is_copy_constructible<gul14::FinalAction<Act<true>>>::value && !std::is_copy_assignable<gul14::FinalAction<Act<true>>>::value
    && !std::is_default_constructible<gul14::FinalAction<Act<true>>>::value, "a finalizer is not copyable");
} // namespace
PBT_MAIN
