// C29: expected holds exactly a value or an error and monadic chains preserve it.
#include "tracked.h"
#include "gul14/expected.h"
namespace {
using pbt::Ctx;
constexpr int unknown = trk::moved_from;

template <bool C, bool N, int Tag> struct TrackedK
{
    using T = trk::Tracked<C, N, Tag>;
    static constexpr bool copyable = C, tracked = true, nothrow_move = N;
    static T make(int v) { return T(v); }
    static int get(const T& t) { return t.get(); }
    static int moved(int) { return unknown; }
};
struct IntK
{
    using T = int;
    static constexpr bool copyable = true, tracked = false, nothrow_move = true;
    static T make(int v) { return v; }
    static int get(const T& t) { return t; }
    static int moved(int v) { return v; }
};
struct DoubleK
{
    using T = double;
    static constexpr bool copyable = true, tracked = false, nothrow_move = true;
    static T make(int v) { return v; }
    static int get(const T& t) { return static_cast<int>(t); }
    static int moved(int v) { return v; }
};
struct StringK
{
    using T = std::string;
    static constexpr bool copyable = true, tracked = false, nothrow_move = true;
    static T make(int v) { char b[16]; std::snprintf(b, sizeof b, "%06d", v); return b + std::string(v % 3 ? 0 : 40, '.'); }
    static int get(const T& t) { return t.empty() ? unknown : std::atoi(t.c_str()); }
    static int moved(int) { return unknown; }
};

struct Boom { int x; }; // thrown by a chained function

template <typename VK, typename EK>
struct Machine
{
    using T = typename VK::T;
    using E = typename EK::T;
    using X = gul14::expected<T, E>;
    using U = gul14::unexpected<E>;
    static constexpr bool copyable = VK::copyable && EK::copyable;
    struct Model { bool ok = true; int v = 0; };
    Ctx& c;
    std::vector<std::unique_ptr<X>> o;
    std::vector<Model> m;
    unsigned changes = 0;

    explicit Machine(Ctx& ctx) : c(ctx) {}
    ~Machine() { trk::reg().disarm(); }
    std::string show(std::size_t i) const { return std::string(m[i].ok ? "value " : "error ") + std::to_string(m[i].v); }
    void protocol(const char* when) { const std::string e = trk::reg().error; PBT_CHECK(c, e.empty(), when << ": " << e); }
    template <typename F> bool run(F f)
    {
        try { f(); trk::reg().disarm(); return false; }
        catch (const trk::Fault&) { trk::reg().disarm(); return true; }
    }
    struct Prepared { long n = trk::reg().countdown; Prepared() { trk::reg().countdown = -1; } void done() { trk::reg().countdown = n; } };
    int moved(const Model& a) const { return a.ok ? VK::moved(a.v) : EK::moved(a.v); }
    Model read(const X& x) { Model r; r.ok = x.has_value(); r.v = r.ok ? VK::get(*x) : EK::get(x.error()); return r; }

    template <bool B = VK::copyable> std::enable_if_t<B> value_or(std::size_t i)
    {
        const X& x = *o[i];
        const T t = x.value_or(VK::make(91));
        PBT_CHECK(c, VK::get(t) == (m[i].ok ? m[i].v : 91), "value_or on " << show(i) << " gives " << VK::get(t));
    }
    template <bool B = VK::copyable> std::enable_if_t<!B> value_or(std::size_t) {}
    template <bool B = EK::copyable> std::enable_if_t<B> checked_access(std::size_t i)
    {
        X& x = *o[i];
        const X& cx = x;
        unsigned n = 0;
        try { (void)x.value(); }
        catch (const gul14::bad_expected_access<E>& e) { ++n; PBT_CHECK(c, EK::get(e.error()) == m[i].v, "the exception holds error " << EK::get(e.error()) << " instead of " << m[i].v);
            auto& f = const_cast<gul14::bad_expected_access<E>&>(e);
            E& r1 = f.error(); E&& r2 = std::move(f).error(); const E&& r3 = std::move(e).error();
            PBT_CHECK(c, &r1 == &e.error() && &r2 == &r1 && &r3 == &r1 && e.what() && *e.what(), "access paths to the error in the exception differ"); }
        try { (void)cx.value(); } catch (gul14::bad_expected_access<void>& e) { ++n; }
        if (c.chance(1, 4)) { ++n; try { (void)cx.value(); } catch (std::exception& e) { PBT_CHECK(c, dynamic_cast<gul14::bad_expected_access<E>*>(&e), "type of the exception"); --n; ++n; } }
        PBT_CHECK(c, n >= 2, "checked access to an absent value must throw");
    }
    template <bool B = EK::copyable> std::enable_if_t<!B> checked_access(std::size_t) {}

    void verify()
    {
        protocol("after the operation");
        std::size_t alive = 0;
        for (std::size_t i = 0; i < o.size(); ++i)
        {
            X& x = *o[i];
            const X& cx = x;
            PBT_CHECK(c, x.has_value() == m[i].ok && static_cast<bool>(x) == m[i].ok, "expected " << i << " must hold " << show(i));
            if (m[i].ok)
            {
                const int v = VK::get(*cx);
                if (m[i].v == unknown) m[i].v = v;
                PBT_CHECK(c, v == m[i].v, "expected " << i << " holds value " << v << ", expected " << show(i));
                PBT_CHECK(c, &*x == &*cx && x.operator->() == &*x && cx.operator->() == &*x && &x.value() == &*x && &cx.value() == &*x, "access paths differ");
                T&& r1 = *std::move(x); T&& r2 = std::move(x).value(); const T&& r3 = *std::move(cx); const T&& r4 = std::move(cx).value();
                PBT_CHECK(c, &r1 == &*x && &r2 == &*x && &r3 == &*x && &r4 == &*x, "rvalue access paths differ");
                alive += VK::tracked;
            }
            else
            {
                const int v = EK::get(cx.error());
                if (m[i].v == unknown) m[i].v = v;
                PBT_CHECK(c, v == m[i].v, "expected " << i << " holds error " << v << ", expected " << show(i));
                E&& r1 = std::move(x).error(); const E&& r2 = std::move(cx).error();
                PBT_CHECK(c, &x.error() == &cx.error() && &r1 == &x.error() && &r2 == &x.error(), "access paths to the error differ");
                alive += EK::tracked;
                if (c.chance(1, 3)) checked_access<>(i);
            }
            value_or<>(i);
            const int w = static_cast<int>(c.below(3));
            const T tv = VK::make(w);
            const U ue(EK::make(w));
            const bool ve = m[i].ok && m[i].v == w, ee = !m[i].ok && m[i].v == w;
            PBT_CHECK(c, (cx == tv) == ve && (tv == cx) == ve && (cx != tv) == !ve && (tv != cx) == !ve, "comparison of " << show(i) << " with the value " << w);
            PBT_CHECK(c, (cx == ue) == ee && (ue == cx) == ee && (cx != ue) == !ee && (ue != cx) == !ee, "comparison of " << show(i) << " with the error " << w);
        }
        for (std::size_t i = 0; i < o.size(); ++i)
            for (std::size_t j = 0; j < o.size(); ++j)
            {
                const X &a = *o[i], &b = *o[j];
                const bool eq = m[i].ok == m[j].ok && m[i].v == m[j].v;
                PBT_CHECK(c, (a == b) == eq && (a != b) == !eq, "comparison of " << show(i) << " and " << show(j) << ": == " << (a == b) << ", != " << (a != b));
            }
        protocol("while observing");
        if (VK::tracked || EK::tracked)
            PBT_CHECK(c, trk::reg().alive.size() == alive, trk::reg().alive.size() << " objects are alive, but the expecteds hold " << alive);
    }

    // ---- chains
    using R = gul14::expected<int, E>;
    /// Result of a chain on i: either of the function or the error passed through.
    void expect_result(std::size_t i, const R& r, bool ran, bool fail, int base, const char* what)
    {
        PBT_CHECK(c, ran == m[i].ok, what << " on " << show(i) << (ran ? " called the function" : " did not call the function"));
        if (ran && !fail) PBT_CHECK(c, r.has_value() && *r == base + m[i].v, what << " on " << show(i) << " lost the result");
        else if (ran) PBT_CHECK(c, !r.has_value() && EK::get(r.error()) == 17, what << " on " << show(i) << " lost the new error");
        else PBT_CHECK(c, !r.has_value() && EK::get(r.error()) == m[i].v, what << " on " << show(i) << " changed the error");
    }
    void chain(std::size_t i)
    {
        const bool fail = c.coin(), boom = c.chance(1, 5), rvalue = c.coin();
        const std::size_t kind = c.below(rvalue || copyable ? 4 : 0);
        unsigned calls = 0;
        X& x = *o[i];
        bool thrown = false;
        c.note_f([&] { return std::string("chain ") + std::to_string(kind) + (rvalue ? " on rvalue " : " on lvalue ") + std::to_string(i) + " (" + show(i) + ")" + (boom ? ", function throws" : ""); });
        try
        {
            switch (kind)
            {
            case 0: // and_then
            {
                auto f = [&](auto&& t) -> R { ++calls; if (boom) throw Boom{ 1 }; PBT_CHECK(c, VK::get(t) == m[i].v, "and_then called with another value");
                    if (fail) return R(gul14::unexpect, EK::make(17)); return R(VK::get(t) + 100); };
                if (rvalue)
                {
                    R r = std::move(x).and_then([&](T&& t) { const R z = f(t); T sink(std::move(t)); return fail ? R(gul14::unexpect, EK::make(17)) : R(VK::get(sink) + 100); });
                    expect_result(i, r, calls == 1, fail, 100, "and_then");
                    m[i].v = moved(m[i]);
                }
                else lvalue_and_then<>(i, f, calls, fail);
                break;
            }
            case 1: // map / transform
            {
                auto f = [&](auto&& t) { ++calls; if (boom) throw Boom{ 1 }; PBT_CHECK(c, VK::get(t) == m[i].v, "map called with another value"); return VK::get(t) + 200; };
                if (rvalue)
                {
                    auto g = [&](T&& t) { const int z = f(t); T sink(std::move(t)); return z; };
                    const R r = c.coin() ? std::move(x).map(g) : std::move(x).transform(g);
                    expect_result(i, r, calls == 1, false, 200, "map");
                    m[i].v = moved(m[i]);
                }
                else lvalue_map<>(i, f, calls);
                break;
            }
            case 2: // map_error / transform_error
            {
                auto f = [&](auto&& e) { ++calls; if (boom) throw Boom{ 1 }; PBT_CHECK(c, EK::get(e) == m[i].v, "map_error called with another error"); return EK::get(e) + 300; };
                if (rvalue)
                {
                    auto g = [&](E&& e) { const int z = f(e); E sink(std::move(e)); return z; };
                    const gul14::expected<T, int> r = c.coin() ? std::move(x).map_error(g) : std::move(x).transform_error(g);
                    check_map_error(i, r, calls);
                    m[i].v = moved(m[i]);
                }
                else lvalue_map_error<>(i, f, calls);
                break;
            }
            default: // or_else
            {
                auto f = [&](auto&& e) { ++calls; if (boom) throw Boom{ 1 }; PBT_CHECK(c, EK::get(e) == m[i].v, "or_else called with another error");
                    return fail ? X(gul14::unexpect, EK::make(17)) : X(gul14::in_place, VK::make(18)); };
                if (rvalue)
                {
                    const X r = std::move(x).or_else([&](E&& e) { X y = f(e); E sink(std::move(e)); return y; });
                    check_or_else(i, r, calls, fail);
                    m[i].v = moved(m[i]);
                }
                else lvalue_or_else<>(i, f, calls, fail);
                break;
            }
            }
        }
        catch (const Boom&) { thrown = true; }
        PBT_CHECK(c, thrown == (boom && calls > 0), "an exception of the chained function must be passed on");
    }
    template <typename Y> void check_map_error(std::size_t i, const Y& r, unsigned calls)
    {
        PBT_CHECK(c, calls == (m[i].ok ? 0u : 1u), "map_error on " << show(i) << " made " << calls << " calls");
        if (m[i].ok) PBT_CHECK(c, r.has_value() && VK::get(*r) == m[i].v, "map_error on " << show(i) << " changed the value");
        else PBT_CHECK(c, !r.has_value() && r.error() == m[i].v + 300, "map_error on " << show(i) << " lost the new error");
    }
    void check_or_else(std::size_t i, const X& r, unsigned calls, bool fail)
    {
        PBT_CHECK(c, calls == (m[i].ok ? 0u : 1u), "or_else on " << show(i) << " made " << calls << " calls");
        if (m[i].ok) PBT_CHECK(c, r.has_value() && VK::get(*r) == m[i].v, "or_else on " << show(i) << " changed the value");
        else if (fail) PBT_CHECK(c, !r.has_value() && EK::get(r.error()) == 17, "or_else on " << show(i) << " lost the new error");
        else PBT_CHECK(c, r.has_value() && VK::get(*r) == 18, "or_else on " << show(i) << " lost the new value");
    }
    template <bool B = copyable, typename F> std::enable_if_t<B> lvalue_and_then(std::size_t i, F& f, unsigned& calls, bool fail)
    {
        const X& cx = *o[i];
        const R r = c.coin() ? o[i]->and_then(f) : cx.and_then(f);
        expect_result(i, r, calls == 1, fail, 100, "and_then");
    }
    template <bool B = copyable, typename F> std::enable_if_t<B> lvalue_map(std::size_t i, F& f, unsigned& calls)
    {
        const X& cx = *o[i];
        const R r = c.coin() ? (c.coin() ? o[i]->map(f) : cx.map(f)) : (c.coin() ? o[i]->transform(f) : cx.transform(f));
        expect_result(i, r, calls == 1, false, 200, "map");
        unsigned n = 0; // a function without result gives expected<void>
        const auto v = cx.map([&](const T& t) { n += (&t == &*cx ? 1 : 100); });
        static_assert(std::is_same<std::decay_t<decltype(v)>, gul14::expected<void, E>>::value, "map with void function");
        PBT_CHECK(c, n == (m[i].ok ? 1u : 0u) && v.has_value() == m[i].ok && (m[i].ok || EK::get(v.error()) == m[i].v), "map with a void function on " << show(i));
    }
    template <bool B = copyable, typename F> std::enable_if_t<B> lvalue_map_error(std::size_t i, F& f, unsigned& calls)
    {
        const X& cx = *o[i];
        const auto r = c.coin() ? (c.coin() ? o[i]->map_error(f) : cx.map_error(f)) : (c.coin() ? o[i]->transform_error(f) : cx.transform_error(f));
        check_map_error(i, r, calls);
        unsigned n = 0;
        const auto v = cx.map_error([&](const E& e) { n += (&e == &cx.error() ? 1 : 100); });
        PBT_CHECK(c, n == (m[i].ok ? 0u : 1u) && v.has_value() == m[i].ok && (!m[i].ok || VK::get(*v) == m[i].v), "map_error with a void function on " << show(i));
    }
    template <bool B = copyable, typename F> std::enable_if_t<B> lvalue_or_else(std::size_t i, F& f, unsigned& calls, bool fail)
    {
        const X& cx = *o[i];
        const X r = c.coin() ? o[i]->or_else(f) : cx.or_else(f);
        check_or_else(i, r, calls, fail);
        unsigned n = 0;
        const X v = c.coin() ? cx.or_else([&](const E& e) { n += (&e == &cx.error() ? 1 : 100); }) : o[i]->or_else([&](E& e) { n += (&e == &cx.error() ? 1 : 100); });
        PBT_CHECK(c, n == (m[i].ok ? 0u : 1u) && v.has_value() == m[i].ok && (m[i].ok ? VK::get(*v) : EK::get(v.error())) == m[i].v, "or_else with a void function on " << show(i));
    }
    template <bool B = copyable, typename F> std::enable_if_t<!B> lvalue_and_then(std::size_t, F&, unsigned&, bool) {}
    template <bool B = copyable, typename F> std::enable_if_t<!B> lvalue_map(std::size_t, F&, unsigned&) {}
    template <bool B = copyable, typename F> std::enable_if_t<!B> lvalue_map_error(std::size_t, F&, unsigned&) {}
    template <bool B = copyable, typename F> std::enable_if_t<!B> lvalue_or_else(std::size_t, F&, unsigned&, bool) {}

    // ---- operations that copy
    template <bool B = copyable> std::enable_if_t<B> copy_op(std::size_t i, std::size_t j, int v)
    {
        std::unique_ptr<X> n;
        switch (c.below(5))
        {
        case 0: case 1:
            c.note_f([&] { return "copy-assign " + std::to_string(j) + " (" + show(j) + ") to " + std::to_string(i) + " (" + show(i) + ")"; });
            if (m[i].ok && !m[j].ok) trk::reg().disarm(); // see assumptions: copying an error over a value
            if (!run([&] { X& r = (*o[i] = static_cast<const X&>(*o[j])); PBT_CHECK(c, &r == o[i].get(), "result of assignment"); })) m[i] = m[j];
            break;
        case 2:
            trk::reg().disarm(); // see assumptions
            c.note_f([&] { return "replace " + std::to_string(i) + " by a copy of " + std::to_string(j) + " (" + show(j) + ")"; });
            n.reset(new X(static_cast<const X&>(*o[j])));
            o[i] = std::move(n); m[i] = m[j];
            break;
        case 3:
        {
            c.note_f([&] { return "assign the lvalue " + std::to_string(v) + " to " + std::to_string(i) + " (" + show(i) + ")"; });
            Prepared p; const T t = VK::make(v); p.done();
            if (!run([&] { *o[i] = t; })) m[i] = { true, v };
            PBT_CHECK(c, VK::get(t) == v, "the assigned value was modified");
            break;
        }
        default:
        {
            Prepared p; const U u(EK::make(v)); p.done();
            if (!EK::nothrow_move) trk::reg().mask = trk::op_copy;
            if (c.coin())
            {
                c.note_f([&] { return "assign the error " + std::to_string(v) + " to " + std::to_string(i) + " (" + show(i) + ")"; });
                if (!run([&] { *o[i] = u; })) m[i] = { false, v };
            }
            else
            {
                c.note_f([&] { return "construct " + std::to_string(i) + " from the error " + std::to_string(v); });
                if (!run([&] { n.reset(new X(u)); })) { o[i] = std::move(n); m[i] = { false, v }; }
            }
            PBT_CHECK(c, EK::get(u.value()) == v, "the assigned error was modified");
        }
        }
    }
    template <bool B = copyable> std::enable_if_t<!B> copy_op(std::size_t, std::size_t, int) { trk::reg().disarm(); }

    void step()
    {
        const std::size_t i = c.below(o.size()), j = c.below(o.size());
        const int v = static_cast<int>(c.below(c.coin() ? 3 : 200));
        const bool fault = (VK::tracked || EK::tracked) && c.chance(1, 3);
        const bool was = m[i].ok;
        trk::reg().disarm();
        trk::reg().fired = false;
        if (fault) trk::reg().arm(static_cast<long>(c.below(3)));
        std::unique_ptr<X> n;
        switch (c.below(14))
        {
        case 0: c.note("replace " + std::to_string(i) + " by a default one"); if (!run([&] { n.reset(new X()); })) { o[i] = std::move(n); m[i] = { true, VK::get(T()) }; } break;
        case 1:
        {
            Prepared p; T t = VK::make(v); p.done();
            c.note("construct " + std::to_string(i) + " in place from value " + std::to_string(v));
            if (!run([&] { if (v % 2) n.reset(new X(gul14::in_place, std::move(t))); else n.reset(new X(std::move(t))); })) { o[i] = std::move(n); m[i] = { true, v }; }
            break;
        }
        case 2:
        {
            Prepared p; E t = EK::make(v); p.done();
            c.note("construct " + std::to_string(i) + " in place from error " + std::to_string(v));
            if (!run([&] { if (v % 2) n.reset(new X(gul14::unexpect, std::move(t))); else n.reset(new X(gul14::make_unexpected(std::move(t)))); })) { o[i] = std::move(n); m[i] = { false, v }; }
            break;
        }
        case 3:
        {
            c.note_f([&] { return "assign the rvalue " + std::to_string(v) + " to " + std::to_string(i) + " (" + show(i) + ")"; });
            Prepared p; T t = VK::make(v); p.done();
            if (!run([&] { *o[i] = std::move(t); })) m[i] = { true, v };
            break;
        }
        case 4:
        {
            c.note_f([&] { return "assign the rvalue error " + std::to_string(v) + " to " + std::to_string(i) + " (" + show(i) + ")"; });
            trk::reg().disarm();
            U u(EK::make(v));
            *o[i] = std::move(u);
            m[i] = { false, v };
            break;
        }
        case 5: case 6:
        {
            c.note_f([&] { return "emplace " + std::to_string(v) + " in " + std::to_string(i) + " (" + show(i) + ")"; });
            if (m[i].ok && !VK::nothrow_move) trk::reg().disarm(); // see assumptions
            Prepared p; T t = VK::make(v); p.done();
            if (c.coin() && VK::tracked) emplace_value<>(i, v); // the constructor from int may throw, too
            else if (!run([&] { o[i]->emplace(std::move(t)); })) m[i] = { true, v };
            break;
        }
        case 7:
        {
            if (i == j) break;
            c.note_f([&] { return "move-assign " + std::to_string(j) + " (" + show(j) + ") to " + std::to_string(i) + " (" + show(i) + ")"; });
            if (!m[j].ok) trk::reg().disarm();
            if (!run([&] { *o[i] = std::move(*o[j]); })) { m[i] = m[j]; m[j].v = moved(m[j]); }
            break;
        }
        case 8:
        {
            trk::reg().disarm();
            c.note_f([&] { return "move-construct " + std::to_string(i) + " from " + std::to_string(j) + " (" + show(j) + ")"; });
            n.reset(new X(std::move(*o[j])));
            const Model t = m[j];
            m[j].v = moved(m[j]);
            o[i] = std::move(n); m[i] = t;
            break;
        }
        case 9:
        {
            c.note_f([&] { return "swap " + std::to_string(i) + " (" + show(i) + ") and " + std::to_string(j) + " (" + show(j) + ")"; });
            if (!run([&] { if (v % 2) o[i]->swap(*o[j]); else { using std::swap; swap(*o[i], *o[j]); } })) std::swap(m[i], m[j]);
            else if (m[i].ok == m[j].ok) { m[i].v = read(*o[i]).v; m[j].v = read(*o[j]).v; } // swapping two values failed half-way; states must remain
            break;
        }
        case 10:
        {
            trk::reg().disarm();
            c.note_f([&] { return "modify " + std::to_string(i) + " (" + show(i) + ") in place"; });
            if (!m[i].ok) o[i]->error() = EK::make(v);
            else if (v % 3 == 0) **o[i] = VK::make(v);
            else if (v % 3 == 1) o[i]->value() = VK::make(v);
            else *(o[i]->operator->()) = VK::make(v);
            m[i].v = v;
            break;
        }
        case 11: trk::reg().disarm(); chain(i); break;
        case 12:
        {
            trk::reg().disarm();
            c.note_f([&] { return "value_or on the rvalue " + std::to_string(i) + " (" + show(i) + ")"; });
            const T t = std::move(*o[i]).value_or(VK::make(v));
            PBT_CHECK(c, VK::get(t) == (m[i].ok ? m[i].v : v), "value_or on an rvalue " << show(i) << " gives " << VK::get(t));
            if (m[i].ok) m[i].v = moved(m[i]);
            break;
        }
        default: copy_op<>(i, j, v); break;
        }
        trk::reg().disarm();
        if (m[i].ok != was) ++changes;
        c.label_if(fault && trk::reg().fired, "exception injected");
        verify();
    }
    template <bool B = VK::tracked> std::enable_if_t<B> emplace_value(std::size_t i, int v) { if (!run([&] { o[i]->emplace(v); })) m[i] = { true, v }; }
    template <bool B = VK::tracked> std::enable_if_t<!B> emplace_value(std::size_t, int) {}

    void go()
    {
        trk::reg().reset();
        const std::size_t k = 1 + c.below(3);
        for (std::size_t i = 0; i < k; ++i) { o.emplace_back(new X()); m.push_back({ true, VK::get(T()) }); }
        verify();
        std::size_t n = 0;
        while (c.more(n, 12, 80)) step();
        o.clear();
        protocol("at the end");
        PBT_CHECK(c, trk::reg().alive.empty(), trk::reg().alive.size() << " objects are alive after all expecteds are gone");
        if (changes >= 3) c.nontrivial();
    }
};
} // namespace
