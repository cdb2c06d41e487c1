// C02: SmallVector element lifetimes, memory balance and exception guarantees.
#include "tracked.h"
#include "gul14/SmallVector.h"
#include <list>
#include <new>

using pbt::Ctx;

// ---- allocation balance and injected allocation failure ----------------------------
static long g_blocks = 0;
#define g_count trk::counting() // only allocations made while the library runs are counted
static std::set<void*>* g_mine = nullptr;

static void* counted_alloc(std::size_t n)
{
    if (g_count && trk::reg().due(trk::op_alloc)) throw std::bad_alloc{};
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc{};
    if (g_count)
    {
        g_count = false;
        g_mine->insert(p);
        g_count = true;
        ++g_blocks;
    }
    return p;
}
static void counted_free(void* p)
{
    if (!p) return;
    if (g_mine && g_blocks > 0)
    {
        const bool was = g_count;
        g_count = false;
        auto it = g_mine->find(p);
        if (it != g_mine->end())
        {
            // erasing recurses into operator delete with another pointer, which is not ours
            g_mine->erase(it);
            --g_blocks;
        }
        g_count = was;
    }
    std::free(p);
}
void* operator new(std::size_t n) { return counted_alloc(n); }
void* operator new[](std::size_t n) { return counted_alloc(n); }
void operator delete(void* p) noexcept { counted_free(p); }
void operator delete[](void* p) noexcept { counted_free(p); }
void operator delete(void* p, std::size_t) noexcept { counted_free(p); }
void operator delete[](void* p, std::size_t) noexcept { counted_free(p); }

namespace {

template <typename T, std::size_t N, bool Copyable, bool NothrowMove>
struct Machine
{
    using SV = gul14::SmallVector<T, N>;
    using S = typename SV::SizeType;
    static constexpr bool strong = Copyable || NothrowMove;
    Ctx& c;
    // Aligned raw slots: construction and destruction are explicit operations.
    std::vector<std::unique_ptr<SV>> v;
    std::vector<std::vector<int>> m;
    int counter = 0;
    unsigned faults = 0, grown = 0;

    explicit Machine(Ctx& ctx) : c(ctx) {}
    ~Machine()
    {
        g_count = false;
        trk::reg().disarm();
    }

    void protocol(const char* when)
    {
        const std::string e = trk::reg().error;
        PBT_CHECK(c, e.empty(), when << ": " << e);
    }

    std::vector<int> read(const SV& x)
    {
        std::vector<int> r;
        for (const auto& e : x) r.push_back(e.get());
        return r;
    }

    void verify()
    {
        std::size_t sum = 0;
        protocol("after the operation");
        for (std::size_t i = 0; i < v.size(); ++i)
        {
            PBT_CHECK(c, v[i]->size() <= v[i]->capacity(), "vector " << i);
            auto r = read(*v[i]);
            protocol("reading the elements");
            PBT_CHECK(c, r == m[i], "vector " << i << " holds " << pbt::show(r) << ", expected " << pbt::show(m[i]));
            sum += r.size();
            if (v[i]->capacity() > N) ++grown;
        }
        PBT_CHECK(c, trk::reg().alive.size() == sum, trk::reg().alive.size()
            << " element objects are alive, but the vectors hold " << sum);
        std::size_t heap = 0;
        for (auto& p : v) heap += p->capacity() > p->inner_capacity();
        if (heap == 0)
            PBT_CHECK(c, g_blocks == 0, g_blocks << " heap blocks are in use, but no vector has "
                "more than its inner capacity");
    }

    /// Run one library operation with the armed fault. Returns true if it threw.
    template <typename F>
    bool run(F f)
    {
        bool threw = false;
        g_count = true;
        try { f(); }
        catch (const trk::Fault&) { threw = true; }
        catch (const std::bad_alloc&) { threw = true; if (!trk::reg().fired) { g_count = false; throw; } }
        catch (...) { g_count = false; trk::reg().disarm(); throw; }
        g_count = false;
        const bool fired = trk::reg().fired;
        trk::reg().disarm();
        trk::reg().fired = false;
        PBT_CHECK(c, threw == fired, "an exception thrown by an element operation must reach the caller");
        if (threw) { ++faults; c.note("   -> threw"); }
        return threw;
    }

    void arm(unsigned mask = trk::op_all)
    {
        if (c.chance(1, 2))
        {
            long n = static_cast<long>(c.below(c.coin() ? 4 : 14));
            trk::reg().arm(n, mask);
            c.note_f([&] { return "   (fault armed at element operation " + std::to_string(n) + ")"; });
        }
        else trk::reg().arm(-1);
    }

    int val() { return ++counter; }

    void resync(std::size_t i)
    {
        protocol("after the exception");
        m[i] = read(*v[i]);
        protocol("reading the elements after the exception");
    }

    template <typename F, typename G>
    void op(std::size_t i, bool strong_guarantee, F f, G model, unsigned mask = trk::op_all)
    {
        arm(mask);
        if (run(f))
        {
            if (!strong_guarantee) resync(i);
            else c.label("strong guarantee exercised");
        }
        else model();
    }

    template <typename U = T>
    std::enable_if_t<std::is_copy_constructible<U>::value, bool> copy_op(std::size_t i)
    {
        SV& x = *v[i];
        auto& y = m[i];
        const std::size_t n = y.size();
        switch (c.below(11))
        {
        case 0:
        {
            int a = val();
            T t(a);
            c.note_f([&] { return "push_back(const&)"; });
            const bool own = n > 0 && c.chance(1, 3);
            const std::size_t k = own ? c.below(n) : 0;
            if (own) { a = y[k]; op(i, true, [&] { x.push_back(static_cast<const T&>(x[static_cast<S>(k)])); }, [&] { y.push_back(a); }); }
            else op(i, true, [&] { x.push_back(static_cast<const T&>(t)); }, [&] { y.push_back(a); });
            return true;
        }
        case 1:
        {
            int a = val();
            T t(a);
            std::size_t p = c.size(n);
            c.note_f([&] { return "insert(" + std::to_string(p) + ", const&)"; });
            op(i, p == n, [&] { x.insert(x.cbegin() + p, static_cast<const T&>(t)); },
                [&] { y.insert(y.begin() + static_cast<long>(p), a); });
            return true;
        }
        case 2:
        {
            int a = val();
            T t(a);
            std::size_t p = c.size(n), cnt = c.size(N + 3);
            c.note_f([&] { return "insert(" + std::to_string(p) + ", " + std::to_string(cnt) + " copies)"; });
            op(i, false, [&] { x.insert(x.cbegin() + p, static_cast<S>(cnt), t); },
                [&] { y.insert(y.begin() + static_cast<long>(p), cnt, a); });
            return true;
        }
        case 3:
        {
            std::size_t p = c.size(n), cnt = c.size(N + 3);
            std::list<T> l;
            std::vector<int> r;
            for (std::size_t k = 0; k < cnt; ++k) { r.push_back(val()); l.emplace_back(r.back()); }
            const bool fwd = c.coin();
            std::vector<T> lv(l.begin(), l.end());
            c.note_f([&] { return "insert(" + std::to_string(p) + ", range of " + std::to_string(cnt) + ")"; });
            if (fwd) op(i, false, [&] { x.insert(x.cbegin() + p, l.begin(), l.end()); },
                [&] { y.insert(y.begin() + static_cast<long>(p), r.begin(), r.end()); });
            else op(i, false, [&] { x.insert(x.cbegin() + p, lv.data(), lv.data() + lv.size()); },
                [&] { y.insert(y.begin() + static_cast<long>(p), r.begin(), r.end()); });
            return true;
        }
        case 4:
        {
            int a = val();
            T t(a);
            std::size_t cnt = c.size(2 * N + 2);
            c.note_f([&] { return "resize(" + std::to_string(cnt) + ", value)"; });
            op(i, true, [&] { x.resize(static_cast<S>(cnt), t); }, [&] { y.resize(cnt, a); });
            return true;
        }
        case 5:
        {
            int a = val();
            T t(a);
            std::size_t cnt = c.size(2 * N + 2);
            c.note_f([&] { return "assign(" + std::to_string(cnt) + ", value)"; });
            op(i, false, [&] { x.assign(static_cast<S>(cnt), t); }, [&] { y.assign(cnt, a); });
            return true;
        }
        case 6:
        {
            std::size_t cnt = c.size(2 * N + 2);
            std::vector<T> l;
            l.reserve(cnt);
            std::vector<int> r;
            for (std::size_t k = 0; k < cnt; ++k) { r.push_back(val()); l.emplace_back(r.back()); }
            const auto kind = c.below(2);
            c.note_f([&] { return "assign(range of " + std::to_string(cnt) + ")"; });
            if (kind == 0) op(i, false, [&] { x.assign(l.begin(), l.end()); }, [&] { y = r; });
            else
            {
                std::initializer_list<T> il{ T(1), T(2), T(3), T(4) };
                op(i, false, [&] { x = il; }, [&] { y = { 1, 2, 3, 4 }; });
            }
            return true;
        }
        case 7: // copy assignment: the source never changes
        {
            std::size_t j = c.below(v.size());
            c.note_f([&] { return "v" + std::to_string(i) + " = v" + std::to_string(j); });
            op(i, i == j, [&] { x = static_cast<const SV&>(*v[j]); }, [&] { y = std::vector<int>(m[j]); });
            return true;
        }
        case 8: // constructors
        case 9:
        case 10:
        {
            if (v.size() >= 3) drop(c.below(3));
            std::size_t j = c.below(v.size());
            std::size_t cnt = c.size(2 * N + 2);
            int a = val();
            T t(a);
            std::vector<T> l;
            l.reserve(cnt);
            std::vector<int> r;
            for (std::size_t k = 0; k < cnt; ++k) { r.push_back(val()); l.emplace_back(r.back()); }
            const auto kind = c.below(4);
            c.note_f([&] { return "construct kind " + std::to_string(kind) + " with " + std::to_string(cnt) + " elements"; });
            // The vector object itself lives in preallocated memory, so that only the
            // blocks allocated by the library are counted.
            std::unique_ptr<SV> fresh;
            void* mem = ::operator new(sizeof(SV));
            arm();
            bool threw = false;
            try
            {
                threw = run([&] {
                    SV* p = nullptr;
                    if (kind == 0) p = new (mem) SV(static_cast<const SV&>(*v[j]));
                    else if (kind == 1) p = new (mem) SV(static_cast<S>(cnt), t);
                    else if (kind == 2) p = new (mem) SV(l.begin(), l.end());
                    else p = new (mem) SV({ t, t, t, t, t });
                    fresh.reset(p);
                });
            }
            catch (...) { if (!fresh) ::operator delete(mem); throw; }
            if (threw) { ::operator delete(mem); return true; }
            v.push_back(std::move(fresh));
            if (kind == 0) m.push_back(std::vector<int>(m[j]));
            else if (kind == 1) m.push_back(std::vector<int>(cnt, a));
            else if (kind == 2) m.push_back(r);
            else m.push_back({ a, a, a, a, a });
            return true;
        }
        default: return false;
        }
    }
    template <typename U = T>
    std::enable_if_t<!std::is_copy_constructible<U>::value, bool> copy_op(std::size_t) { return false; }

    void drop(std::size_t i)
    {
        c.note_f([&] { return "destroy v" + std::to_string(i); });
        v.erase(v.begin() + static_cast<long>(i));
        m.erase(m.begin() + static_cast<long>(i));
    }

    void add_empty() { v.emplace_back(new SV); m.emplace_back(); }

    void step()
    {
        if (v.empty() || (v.size() < 3 && c.chance(1, 8))) { add_empty(); }
        const std::size_t i = c.below(v.size());
        c.note_f([&] { return "on v" + std::to_string(i) + ":"; });
        if (c.chance(1, 2) && copy_op(i)) return;
        SV& x = *v[i];
        auto& y = m[i];
        const std::size_t n = y.size();
        switch (c.weighted({ 5, 4, 3, 3, 3, 2, 1, 2, 2, 2, 2, 3, 3, 2, 1 }))
        {
        case 0:
        {
            int a = val();
            T t(a);
            c.note("push_back(&&)");
            op(i, strong, [&] { x.push_back(std::move(t)); }, [&] { y.push_back(a); });
            break;
        }
        case 1:
        {
            int a = val();
            c.note("emplace_back");
            op(i, strong, [&] { x.emplace_back(a); }, [&] { y.push_back(a); });
            break;
        }
        case 2: // documented: a throwing element constructor changes nothing
        {
            int a = val();
            std::size_t p = c.size(n);
            const bool only_ctor = c.coin();
            c.note_f([&] { return "emplace(" + std::to_string(p) + ")"; });
            op(i, only_ctor || (p == n && strong), [&] { x.emplace(x.cbegin() + p, a); },
                [&] { y.insert(y.begin() + static_cast<long>(p), a); },
                only_ctor ? trk::op_value : trk::op_all);
            break;
        }
        case 3:
        {
            int a = val();
            T t(a);
            std::size_t p = c.size(n);
            c.note_f([&] { return "insert(" + std::to_string(p) + ", &&)"; });
            op(i, p == n && strong, [&] { x.insert(x.cbegin() + p, std::move(t)); },
                [&] { y.insert(y.begin() + static_cast<long>(p), a); });
            break;
        }
        case 4:
        {
            std::size_t p = c.size(n), q = p + c.size(n - p);
            c.note_f([&] { return "erase(" + std::to_string(p) + ", " + std::to_string(q) + ")"; });
            op(i, p == q, [&] { x.erase(x.cbegin() + p, x.cbegin() + q); },
                [&] { y.erase(y.begin() + static_cast<long>(p), y.begin() + static_cast<long>(q)); });
            break;
        }
        case 5:
            if (n == 0) return;
            c.note("pop_back");
            op(i, true, [&] { x.pop_back(); }, [&] { y.pop_back(); });
            break;
        case 6:
            c.note("clear");
            op(i, true, [&] { x.clear(); }, [&] { y.clear(); });
            break;
        case 7:
        {
            std::size_t r = c.size(3 * N + 4);
            c.note_f([&] { return "reserve(" + std::to_string(r) + ")"; });
            op(i, strong, [&] { x.reserve(static_cast<S>(r)); }, [] {});
            break;
        }
        case 8:
        {
            std::size_t r = c.size(2 * N + 2);
            c.note_f([&] { return "resize(" + std::to_string(r) + ")"; });
            op(i, strong, [&] { x.resize(static_cast<S>(r)); }, [&] { y.resize(r, 0); });
            break;
        }
        case 9:
            c.note("shrink_to_fit");
            op(i, strong, [&] { x.shrink_to_fit(); }, [] {});
            break;
        case 10:
        {
            std::size_t j = c.below(v.size());
            c.note_f([&] { return "swap with v" + std::to_string(j); });
            arm();
            if (run([&] { x.swap(*v[j]); })) { resync(i); resync(j); }
            else if (i != j) std::swap(m[i], m[j]);
            break;
        }
        case 11: // move assignment
        {
            std::size_t j = c.below(v.size());
            c.note_f([&] { return "v" + std::to_string(i) + " = move v" + std::to_string(j); });
            arm();
            if (run([&] { x = std::move(*v[j]); }))
            {
                if (i != j) { resync(i); if (!strong) resync(j); else c.label("move source unchanged after exception"); }
            }
            else if (i != j)
            {
                PBT_CHECK(c, v[j]->empty(), "the source of a successful move must be empty");
                m[i] = m[j];
                m[j].clear();
            }
            break;
        }
        case 12: // move construction
        {
            if (v.size() >= 3) return;
            c.note_f([&] { return "construct by moving v" + std::to_string(i); });
            std::unique_ptr<SV> fresh;
            void* mem = ::operator new(sizeof(SV));
            arm();
            if (run([&] { fresh.reset(new (mem) SV(std::move(*v[i]))); }))
            {
                ::operator delete(mem);
                if (!strong) resync(i); else c.label("move source unchanged after exception");
                break;
            }
            PBT_CHECK(c, v[i]->empty(), "the source of a successful move must be empty");
            v.push_back(std::move(fresh));
            auto t = m[i];
            m[i].clear();
            m.push_back(t);
            break;
        }
        case 13: // SmallVector(n)
        {
            if (v.size() >= 3) return;
            std::size_t r = c.size(2 * N + 2);
            c.note_f([&] { return "construct(" + std::to_string(r) + ")"; });
            std::unique_ptr<SV> fresh;
            void* mem = ::operator new(sizeof(SV));
            arm();
            if (run([&] { fresh.reset(new (mem) SV(static_cast<S>(r))); })) { ::operator delete(mem); break; }
            v.push_back(std::move(fresh));
            m.push_back(std::vector<int>(r, 0));
            break;
        }
        default:
            drop(i);
            break;
        }
    }

    void go()
    {
        trk::reg().reset();
        static std::set<void*> mine;
        g_mine = &mine;
        mine.clear();
        g_blocks = 0;
        std::size_t n = 0, max = c.chance(1, 4) ? 40 : 10;
        while (c.more(n, max, max))
        {
            step();
            verify();
        }
        while (!v.empty()) drop(c.below(v.size()));
        protocol("at the end");
        PBT_CHECK(c, trk::reg().alive.empty(), trk::reg().alive.size() << " elements are still alive at the end");
        PBT_CHECK(c, g_blocks == 0, g_blocks << " heap blocks were not released");
        if (faults > 0 && grown > 0) c.nontrivial();
        c.label_if(faults > 0, "at least one injected exception");
    }
};

const bool cfg = [] {
    pbt::config().rule = "at least one injected exception fired and at least one vector used external storage";
    pbt::config().assumptions = { "element destructors do not throw", "sizes below about 40 elements" };
    return true;
}();

using CopyNothrow = trk::Tracked<true, true>;
using CopyThrowMove = trk::Tracked<true, false>;
using MoveOnlyThrow = trk::Tracked<false, false>;
using MoveOnlyNothrow = trk::Tracked<false, true>;

} // namespace

PBT_FACET(copyable_nothrow_move, 300000, 3000000) { Machine<CopyNothrow, 3, true, true>(c).go(); }
PBT_FACET(copyable_throwing_move, 400000, 4000000) { Machine<CopyThrowMove, 2, true, false>(c).go(); }
PBT_FACET(move_only_throwing, 250000, 2500000) { Machine<MoveOnlyThrow, 2, false, false>(c).go(); }
PBT_FACET(move_only_nothrow, 150000, 1500000) { Machine<MoveOnlyNothrow, 1, false, true>(c).go(); }

PBT_MAIN
