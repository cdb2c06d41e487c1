// C27: optional behaves like a value that may be absent, for every history.
#include "tracked.h"
#include "gul14/optional.h"
namespace {
using pbt::Ctx;
constexpr int unknown = trk::moved_from;

template <bool C, bool N> struct TrackedTraits
{
    using T = trk::Tracked<C, N>;
    static constexpr bool copyable = C, tracked = true, moves_out = true;
    static T make(int v) { return T(v); }
    static int get(const T& t) { return t.get(); }
    static const char* name() { return C ? (N ? "copyable, nothrow-movable" : "copyable, throwing move") : "move-only"; }
};
struct IntTraits
{
    using T = int;
    static constexpr bool copyable = true, tracked = false, moves_out = false;
    static T make(int v) { return v; }
    static int get(const T& t) { return t; }
    static const char* name() { return "int"; }
};
struct BoolTraits
{
    using T = bool;
    static constexpr bool copyable = true, tracked = false, moves_out = false;
    static T make(int v) { return v % 2 != 0; }
    static int get(const T& t) { return t; }
    static const char* name() { return "bool"; }
};
struct StringTraits
{
    using T = std::string;
    static constexpr bool copyable = true, tracked = false, moves_out = true;
    static T make(int v) { return std::string(v % 3 ? 2 : 40, '.') + std::to_string(v + 1000); }
    static int get(const T& t)
    {
        const auto p = t.find_first_not_of('.');
        return p == std::string::npos ? unknown : std::atoi(t.c_str() + p) - 1000;
    }
    static const char* name() { return "std::string"; }
};

template <typename Tr>
struct Machine
{
    using T = typename Tr::T;
    using O = gul14::optional<T>;
    struct Model { bool on = false; int v = 0; };
    Ctx& c;
    std::vector<std::unique_ptr<O>> o;
    std::vector<Model> m;
    unsigned faults = 0, engaged_ops = 0;

    explicit Machine(Ctx& ctx) : c(ctx) {}
    ~Machine() { trk::reg().disarm(); }

    static int norm(int v) { return std::is_same<T, bool>::value ? v % 2 : v; }
    std::string show(std::size_t i) const { return m[i].on ? std::to_string(m[i].v) : "nothing"; }
    void protocol(const char* when) { const std::string e = trk::reg().error; PBT_CHECK(c, e.empty(), when << ": " << e); }
    /// What a value is after something was moved out of it.
    int gone(int v) const { return Tr::moves_out ? unknown : v; }

    template <typename F> bool run(F f)
    {
        try { f(); trk::reg().disarm(); return false; }
        catch (const trk::Fault&) { trk::reg().disarm(); ++faults; return true; }
    }

    template <typename Q = Tr> std::enable_if_t<Q::copyable> verify_value_or(std::size_t i)
    {
        const O& x = *o[i];
        const int alt = 55;
        const T r = x.value_or(Tr::make(alt));
        if (m[i].v != unknown || !m[i].on) PBT_CHECK(c, Tr::get(r) == (m[i].on ? m[i].v : norm(alt)), "value_or on " << show(i));
    }
    template <typename Q = Tr> std::enable_if_t<!Q::copyable> verify_value_or(std::size_t) {}

    void verify()
    {
        protocol("after the operation");
        std::size_t alive = 0;
        for (std::size_t i = 0; i < o.size(); ++i)
        {
            O& x = *o[i];
            const O& cx = x;
            PBT_CHECK(c, x.has_value() == m[i].on && static_cast<bool>(x) == m[i].on, "optional " << i << (m[i].on ? " must hold a value" : " must be empty"));
            PBT_CHECK(c, (cx == gul14::nullopt) == !m[i].on && (gul14::nullopt == cx) == !m[i].on && (cx != gul14::nullopt) == m[i].on
                && (gul14::nullopt != cx) == m[i].on && !(cx < gul14::nullopt) && (gul14::nullopt < cx) == m[i].on && (cx <= gul14::nullopt) == !m[i].on
                && (gul14::nullopt <= cx) && (cx > gul14::nullopt) == m[i].on && !(gul14::nullopt > cx) && (cx >= gul14::nullopt)
                && (gul14::nullopt >= cx) == !m[i].on, "comparison of optional " << i << " with nullopt");
            if (m[i].on)
            {
                ++alive;
                const int v = Tr::get(*x);
                if (m[i].v == unknown) m[i].v = Tr::moves_out ? v : m[i].v;
                PBT_CHECK(c, v == m[i].v, "optional " << i << " holds " << v << ", expected " << m[i].v);
                PBT_CHECK(c, &*x == &*cx && x.operator->() == &*x && cx.operator->() == &*x && &x.value() == &*x && &cx.value() == &*x, "access paths of optional " << i << " differ");
            }
            else
            {
                bool t1 = false, t2 = false, t3 = false;
                try { (void)x.value(); } catch (const gul14::bad_optional_access&) { t1 = true; }
                try { (void)cx.value(); } catch (const std::logic_error&) { t2 = true; }
                try { (void)std::move(x).value(); } catch (const gul14::bad_optional_access&) { t3 = true; }
                PBT_CHECK(c, t1 && t2 && t3, "checked access to an absent value must throw");
            }
            verify_value_or(i);
        }
        for (std::size_t i = 0; i < o.size(); ++i)
        {
            for (std::size_t j = 0; j < o.size(); ++j)
            {
                const O &a = *o[i], &b = *o[j];
                const bool eq = m[i].on == m[j].on && (!m[i].on || m[i].v == m[j].v);
                const bool lt = m[j].on && (!m[i].on || m[i].v < m[j].v), gt = m[i].on && (!m[j].on || m[j].v < m[i].v);
                if (std::is_same<T, std::string>::value && m[i].on && m[j].on)
                {
                    PBT_CHECK(c, (a == b) == eq && (a != b) == !eq && (a < b) == (*a < *b) && (a > b) == (*a > *b) && (a <= b) == (*a <= *b) && (a >= b) == (*a >= *b), "comparison of " << show(i) << " and " << show(j));
                    continue;
                }
                PBT_CHECK(c, (a == b) == eq && (a != b) == !eq && (a < b) == lt && (a > b) == gt && (a <= b) == !gt && (a >= b) == !lt, "comparison of " << show(i) << " and " << show(j));
            }
            const T w = Tr::make(static_cast<int>(c.below(4)));
            const O& a = *o[i];
            const bool on = m[i].on;
            PBT_CHECK(c, (a == w) == (on && *a == w) && (w == a) == (on && *a == w) && (a != w) == !(on && *a == w) && (w != a) == !(on && *a == w)
                && (a < w) == (!on || *a < w) && (w > a) == (!on || w > *a) && (a > w) == (on && *a > w) && (w < a) == (on && w < *a)
                && (a <= w) == (!on || *a <= w) && (w >= a) == (!on || w >= *a) && (a >= w) == (on && *a >= w) && (w <= a) == (on && w <= *a),
                "comparison of " << show(i) << " with the value " << Tr::get(w));
        }
        protocol("during the comparisons");
        if (Tr::tracked) PBT_CHECK(c, trk::reg().alive.size() == alive, trk::reg().alive.size() << " objects are alive, but the optionals hold " << alive);
    }

    template <typename Q = Tr> std::enable_if_t<Q::copyable, bool> copy_op(std::size_t i, std::size_t j, std::size_t op, int v)
    {
        switch (op)
        {
        case 0: c.note_f([&] { return "copy-assign " + std::to_string(j) + " to " + std::to_string(i); });
            if (!run([&] { *o[i] = static_cast<const O&>(*o[j]); })) m[i] = m[j];
            return true;
        case 1: { c.note_f([&] { return "copy-assign value " + std::to_string(v) + " to " + std::to_string(i); });
            disarmed d(*this); const T t = Tr::make(v); d.rearm();
            if (!run([&] { *o[i] = t; })) m[i] = { true, norm(v) };
            return true; }
        case 2: { c.note_f([&] { return "replace " + std::to_string(i) + " by a copy of " + std::to_string(j); });
            std::unique_ptr<O> n;
            if (!run([&] { n.reset(new O(static_cast<const O&>(*o[j]))); })) { o[i] = std::move(n); m[i] = m[j]; }
            return true; }
        case 3: { c.note_f([&] { return "replace " + std::to_string(i) + " by one made from value " + std::to_string(v); });
            std::unique_ptr<O> n;
            disarmed d(*this); const T t = Tr::make(v); d.rearm();
            if (!run([&] { n.reset(new O(t)); })) { o[i] = std::move(n); m[i] = { true, norm(v) }; }
            return true; }
        default: { c.note_f([&] { return "make_optional in " + std::to_string(i); });
            std::unique_ptr<O> n;
            disarmed d(*this); T t = Tr::make(v); d.rearm();
            if (!run([&] { n.reset(new O(gul14::make_optional(t))); })) { o[i] = std::move(n); m[i] = { true, norm(v) }; }
            return true; }
        }
    }
    template <typename Q = Tr> std::enable_if_t<!Q::copyable, bool> copy_op(std::size_t, std::size_t, std::size_t, int) { trk::reg().disarm(); return false; }

    /// Suspends the armed fault while the harness prepares arguments.
    struct disarmed
    {
        long n;
        explicit disarmed(Machine&) : n(trk::reg().countdown) { trk::reg().countdown = -1; }
        void rearm() { trk::reg().countdown = n; }
    };

    void step()
    {
        const std::size_t i = c.below(o.size()), j = c.below(o.size());
        const int v = static_cast<int>(c.below(c.coin() ? 4 : 1000));
        const bool fault = Tr::tracked && c.chance(1, 3);
        if (m[i].on) ++engaged_ops;
        if (fault) trk::reg().arm(static_cast<long>(c.below(3)));
        switch (c.below(14))
        {
        case 0: c.note("reset " + std::to_string(i)); o[i]->reset(); m[i].on = false; break;
        case 1: c.note("assign nullopt to " + std::to_string(i)); *o[i] = gul14::nullopt; m[i].on = false; break;
        case 2: { c.note_f([&] { return "emplace " + std::to_string(v) + " in " + std::to_string(i); });
            disarmed d(*this); T t = Tr::make(v); d.rearm();
            if (run([&] { o[i]->emplace(std::move(t)); })) m[i].on = false; else m[i] = { true, norm(v) };
            break; }
        case 3: { c.note_f([&] { return "move-assign value " + std::to_string(v) + " to " + std::to_string(i); });
            disarmed d(*this); T t = Tr::make(v); d.rearm();
            if (!run([&] { *o[i] = std::move(t); })) m[i] = { true, norm(v) };
            break; }
        case 4: { c.note_f([&] { return "move-assign " + std::to_string(j) + " to " + std::to_string(i); });
            if (i == j) break;
            if (!run([&] { *o[i] = std::move(*o[j]); })) { m[i] = m[j]; if (m[j].on) m[j].v = gone(m[j].v); }
            break; }
        case 5: { c.note_f([&] { return "move-construct " + std::to_string(i) + " from " + std::to_string(j); });
            std::unique_ptr<O> n;
            if (!run([&] { n.reset(new O(std::move(*o[j]))); })) { m[i] = m[j]; if (i != j && m[j].on) m[j].v = gone(m[j].v); o[i] = std::move(n); }
            break; }
        case 6: { c.note_f([&] { return "swap " + std::to_string(i) + " and " + std::to_string(j); });
            const bool thrown = run([&] { if (v % 2) o[i]->swap(*o[j]); else { using std::swap; swap(*o[i], *o[j]); } });
            if (!thrown) std::swap(m[i], m[j]);
            else { if (m[i].on) m[i].v = unknown; if (m[j].on) m[j].v = unknown; }
            break; }
        case 7: { c.note_f([&] { return "replace " + std::to_string(i) + " by one constructed in place from " + std::to_string(v); });
            std::unique_ptr<O> n;
            disarmed d(*this); T t = Tr::make(v); d.rearm();
            if (!run([&] { n.reset(new O(gul14::in_place, std::move(t))); })) { o[i] = std::move(n); m[i] = { true, norm(v) }; }
            break; }
        case 8: { c.note_f([&] { return "replace " + std::to_string(i) + " by a default or nullopt one"; });
            o[i].reset(v % 2 ? new O : new O(gul14::nullopt)); m[i].on = false; break; }
        case 9: { trk::reg().disarm(); if (!m[i].on) break;
            c.note_f([&] { return "modify " + std::to_string(i) + " through an accessor"; });
            if (v % 3 == 0) **o[i] = Tr::make(v); else if (v % 3 == 1) o[i]->value() = Tr::make(v); else *(o[i]->operator->()) = Tr::make(v);
            m[i].v = norm(v); break; }
        case 10: { trk::reg().disarm(); if (!m[i].on) break;
            c.note_f([&] { return "move the value out of " + std::to_string(i); });
            const int before = m[i].v;
            const T t = v % 2 ? T(*std::move(*o[i])) : T(std::move(*o[i]).value());
            if (before != unknown) PBT_CHECK(c, Tr::get(t) == before, "value moved out");
            m[i].v = gone(before); break; }
        case 11: { trk::reg().disarm();
            c.note_f([&] { return "value_or on the rvalue " + std::to_string(i); });
            const int before = m[i].v;
            const T t = std::move(*o[i]).value_or(Tr::make(v));
            if (!m[i].on || before != unknown) PBT_CHECK(c, Tr::get(t) == (m[i].on ? before : norm(v)), "value_or on rvalue gives " << Tr::get(t));
            if (m[i].on) m[i].v = gone(before);
            break; }
        default: copy_op(i, j, c.below(5), v); break;
        }
        trk::reg().disarm();
        if (fault) c.label_if(trk::reg().fired, "exception injected");
        // a failed assignment between two values may leave either value (ours keep the old one)
        verify();
    }

    void go()
    {
        trk::reg().reset();
        c.note(std::string("optional of ") + Tr::name());
        const std::size_t k = 1 + c.below(3);
        for (std::size_t i = 0; i < k; ++i) { o.emplace_back(new O); m.push_back({}); }
        verify();
        std::size_t n = 0;
        while (c.more(n, 12, 80)) step();
        o.clear();
        protocol("at the end");
        if (Tr::tracked) PBT_CHECK(c, trk::reg().alive.empty(), trk::reg().alive.size() << " objects are alive after all optionals are gone");
        if (engaged_ops >= 3) c.nontrivial();
    }
};
} // namespace
