// C28: variant holds exactly one alternative and visits exactly that one.
#include "tracked.h"
#include "gul14/variant.h"
namespace trk_hash {}
namespace std {
template <bool C, bool N, int Tag> struct hash<trk::Tracked<C, N, Tag>>
{
    std::size_t operator()(const trk::Tracked<C, N, Tag>& t) const { return std::hash<int>{}(t.get()); }
};
}
namespace {
using pbt::Ctx;
constexpr int unknown = trk::moved_from;

template <typename T> struct Alt; // make(int), get(const T&), after_move(int)
template <bool C, bool N, int Tag> struct Alt<trk::Tracked<C, N, Tag>>
{
    using T = trk::Tracked<C, N, Tag>;
    static constexpr bool tracked = true, copyable = C, nothrow_move = N;
    static T make(int v) { return T(v); }
    static int get(const T& t) { return t.get(); }
    static int moved(int) { return unknown; }
    static int norm(int v) { return v; }
};
template <typename T> struct Plain
{
    static constexpr bool tracked = false, copyable = true, nothrow_move = true;
    static T make(int v) { return static_cast<T>(v); }
    static int get(const T& t) { return static_cast<int>(t); }
    static int moved(int v) { return v; }
    static int norm(int v) { return static_cast<int>(static_cast<T>(v)); }
};
template <> struct Alt<int> : Plain<int> {};
template <> struct Alt<double> : Plain<double> {};
template <> struct Alt<unsigned char> : Plain<unsigned char> {};
template <> struct Alt<std::string>
{
    using T = std::string;
    static constexpr bool tracked = false, copyable = true, nothrow_move = true;
    static T make(int v) { char b[16]; std::snprintf(b, sizeof b, "%06d", v); return b + std::string(v % 3 ? 0 : 40, '.'); }
    static int get(const T& t) { return t.empty() ? unknown : std::atoi(t.c_str()); }
    static int moved(int) { return unknown; }
    static int norm(int v) { return v; }
};
template <> struct Alt<std::unique_ptr<int>>
{
    using T = std::unique_ptr<int>;
    static constexpr bool tracked = false, copyable = false, nothrow_move = true;
    static T make(int v) { return T(new int(v)); }
    static int get(const T& t) { return t ? *t : unknown; }
    static int moved(int) { return unknown; }
    static int norm(int v) { return v; }
};

template <bool...> struct Pack {};
template <bool... B> constexpr bool all_of = std::is_same<Pack<true, B...>, Pack<B..., true>>::value;
template <typename T, typename... Ts> constexpr std::size_t count_of()
{
    std::size_t n = 0;
    for (bool b : { std::is_same<T, Ts>::value... }) n += b;
    return n;
}
template <std::size_t I> using IC = std::integral_constant<std::size_t, I>;

template <bool Ordered, typename... Ts>
struct Machine
{
    using V = gul14::variant<Ts...>;
    static constexpr std::size_t N = sizeof...(Ts);
    template <std::size_t I> using T = gul14::variant_alternative_t<I, V>;
    static constexpr bool copyable = all_of<Alt<Ts>::copyable...>;
    struct Model { int idx = 0; int v = 0; };
    Ctx& c;
    std::vector<std::unique_ptr<V>> o;
    std::vector<Model> m;
    unsigned changes = 0, faults = 0;
    std::size_t tick = 0; // throwing accesses are tried on one alternative at a time (exceptions are slow)

    explicit Machine(Ctx& ctx) : c(ctx) {}
    ~Machine() { trk::reg().disarm(); }

    std::string show(std::size_t i) const { return m[i].idx < 0 ? "nothing" : "#" + std::to_string(m[i].idx) + "=" + std::to_string(m[i].v); }
    void protocol(const char* when) { const std::string e = trk::reg().error; PBT_CHECK(c, e.empty(), when << ": " << e); }

    template <typename F> bool run(F f)
    {
        try { f(); trk::reg().disarm(); return false; }
        catch (const trk::Fault&) { trk::reg().disarm(); ++faults; return true; }
    }
    struct Prepared // suspends the armed fault while the harness makes an argument
    {
        long n = trk::reg().countdown;
        Prepared() { trk::reg().countdown = -1; }
        void done() { trk::reg().countdown = n; }
    };

    /// Call f(IC<i>) for the run-time index i.
    template <typename F, std::size_t... Is> static void with_index_(std::size_t i, F& f, std::index_sequence<Is...>)
    { int d[] = { (i == Is ? (f(IC<Is>{}), 0) : 0)... }; (void)d; }
    template <typename F> static void with_index(std::size_t i, F f) { with_index_(i, f, std::make_index_sequence<N>{}); }
    template <typename F> static void each_index(F f) { for (std::size_t i = 0; i < N; ++i) with_index(i, f); }

    struct Seen { int idx; int v; const void* addr; };
    template <typename U> struct IndexOf { static constexpr int value = -1; };

    /// Visitor that tells which alternative it was called with (by type) and its value.
    struct Look
    {
        template <typename U> Seen operator()(const U& u) const
        {
            int k = 0, found = -1;
            for (bool b : { std::is_same<U, Ts>::value... }) { if (b && found < 0) found = k; ++k; }
            return { found, Alt<U>::get(u), &u };
        }
    };
    static int first_of(int idx) // index of the first alternative of the same type
    {
        int r = -1;
        with_index(static_cast<std::size_t>(idx), [&](auto I) {
            int k = 0;
            for (bool b : { std::is_same<T<decltype(I)::value>, Ts>::value... }) { if (b && r < 0) r = k; ++k; }
        });
        return r;
    }

    template <std::size_t I> std::enable_if_t<count_of<T<I>, Ts...>() == 1> by_type(V& x, bool here, const void* addr)
    {
        using U = T<I>;
        const V& cx = x;
        PBT_CHECK(c, gul14::holds_alternative<U>(cx) == here, "holds_alternative by type, alternative " << I);
        PBT_CHECK(c, gul14::get_if<U>(&x) == (here ? addr : nullptr) && gul14::get_if<U>(&cx) == (here ? addr : nullptr), "get_if by type, alternative " << I);
        unsigned n = 0;
        try { PBT_CHECK(c, &gul14::get<U>(x) == addr, "get by type"); } catch (const gul14::bad_variant_access&) { ++n; }
        try { PBT_CHECK(c, &gul14::get<U>(cx) == addr, "get by type, const"); } catch (const gul14::bad_variant_access&) { ++n; }
        try { U&& r = gul14::get<U>(std::move(x)); PBT_CHECK(c, &r == addr, "get by type, rvalue"); } catch (const gul14::bad_variant_access&) { ++n; }
        try { const U&& r = gul14::get<U>(std::move(cx)); PBT_CHECK(c, &r == addr, "get by type, const rvalue"); } catch (const std::exception&) { ++n; }
        PBT_CHECK(c, n == (here ? 0u : 4u), "get of alternative " << I << " by type on a variant " << (here ? "holding it" : "not holding it"));
    }
    template <std::size_t I> std::enable_if_t<count_of<T<I>, Ts...>() != 1> by_type(V&, bool, const void*) {}

    /// Reads the value currently held, without relying on the model.
    Model read(const V& x)
    {
        Model r;
        r.idx = x.valueless_by_exception() ? -1 : static_cast<int>(x.index());
        if (r.idx >= 0) with_index(static_cast<std::size_t>(r.idx), [&](auto I) { r.v = Alt<T<decltype(I)::value>>::get(*gul14::get_if<decltype(I)::value>(&x)); });
        return r;
    }

    void verify()
    {
        protocol("after the operation");
        std::size_t alive = 0;
        for (std::size_t i = 0; i < o.size(); ++i)
        {
            V& x = *o[i];
            const V& cx = x;
            PBT_CHECK(c, x.valueless_by_exception() == (m[i].idx < 0), "variant " << i << ": valueless_by_exception is " << x.valueless_by_exception() << ", expected " << show(i));
            PBT_CHECK(c, x.index() == (m[i].idx < 0 ? gul14::variant_npos : static_cast<std::size_t>(m[i].idx)), "variant " << i << ": index " << x.index() << ", expected " << show(i));
            const void* addr = nullptr;
            each_index([&](auto Ic) {
                constexpr std::size_t I = decltype(Ic)::value;
                const bool here = m[i].idx == static_cast<int>(I);
                T<I>* p = gul14::get_if<I>(&x);
                PBT_CHECK(c, (p != nullptr) == here && gul14::get_if<I>(&cx) == p, "get_if<" << I << "> on " << show(i));
                PBT_CHECK(c, gul14::holds_alternative<I>(cx) == here, "holds_alternative<" << I << "> on " << show(i));
                const bool full = here || I == tick % N;
                unsigned n = 0;
                if (full) {
                try { PBT_CHECK(c, &gul14::get<I>(x) == p, "get"); } catch (const gul14::bad_variant_access&) { ++n; }
                try { PBT_CHECK(c, &gul14::get<I>(cx) == p, "const get"); } catch (const gul14::bad_variant_access&) { ++n; }
                try { T<I>&& r = gul14::get<I>(std::move(x)); PBT_CHECK(c, &r == p, "rvalue get"); } catch (const std::exception&) { ++n; }
                try { const T<I>&& r = gul14::get<I>(std::move(cx)); PBT_CHECK(c, &r == p, "const rvalue get"); } catch (const std::exception&) { ++n; }
                PBT_CHECK(c, n == (here ? 0u : 4u), "get<" << I << "> on " << show(i) << " threw " << n << " of 4 times");
                }
                if (here)
                {
                    addr = p;
                    const int v = Alt<T<I>>::get(*p);
                    if (m[i].v == unknown && Alt<T<I>>::moved(1) == unknown) m[i].v = v; // moved from: anything valid
                    PBT_CHECK(c, v == m[i].v, "variant " << i << " holds " << v << ", expected " << show(i));
                    if (Alt<T<I>>::tracked) ++alive;
                }
                if (full) by_type<I>(x, here, p);
            });
            ++tick;
            PBT_CHECK(c, gul14::get_if<0>(static_cast<V*>(nullptr)) == nullptr, "get_if of no variant");
            bool thrown = false;
            try
            {
                const Seen s = gul14::visit(Look{}, cx);
                PBT_CHECK(c, s.idx == first_of(m[i].idx) && s.v == m[i].v && s.addr == addr, "visit of " << show(i) << " saw #" << s.idx << "=" << s.v);
                Look l;
                const Seen s2 = gul14::visit(l, x);
                PBT_CHECK(c, s2.idx == s.idx && s2.addr == addr, "visit of a mutable " << show(i));
                const Seen s3 = gul14::visit([](auto&& u) { static_assert(std::is_rvalue_reference<decltype(u)>::value, "rvalue visitation"); return Look{}(u); }, std::move(x));
                PBT_CHECK(c, s3.idx == s.idx && s3.addr == addr, "visit of an rvalue " << show(i));
            }
            catch (const gul14::bad_variant_access&) { thrown = true; }
            PBT_CHECK(c, thrown == (m[i].idx < 0), "visit of " << show(i) << (thrown ? " threw" : " did not throw"));
        }
        pairs();
        protocol("while observing");
        const bool any_tracked = !all_of<!Alt<Ts>::tracked...>;
        if (any_tracked) PBT_CHECK(c, trk::reg().alive.size() == alive, trk::reg().alive.size() << " objects are alive, but the variants hold " << alive);
    }

    template <bool B = Ordered> std::enable_if_t<B> compare(std::size_t i, std::size_t j)
    {
        const V &a = *o[i], &b = *o[j];
        const auto key = [&](std::size_t k) { return std::make_pair(m[k].idx, m[k].idx < 0 ? 0 : m[k].v); };
        const bool eq = key(i) == key(j), lt = key(i) < key(j), gt = key(j) < key(i);
        PBT_CHECK(c, (a == b) == eq && (a != b) == !eq, "equality of " << show(i) << " and " << show(j));
        PBT_CHECK(c, (a < b) == lt && (a > b) == gt && (a <= b) == !gt && (a >= b) == !lt, "order of " << show(i) << " and " << show(j) << ": < " << (a < b) << " > " << (a > b) << " <= " << (a <= b) << " >= " << (a >= b));
        if (eq) PBT_CHECK(c, std::hash<V>{}(a) == std::hash<V>{}(b), "hashes of equal variants differ: " << show(i));
    }
    template <bool B = Ordered> std::enable_if_t<!B> compare(std::size_t, std::size_t) {}

    void pairs()
    {
        for (std::size_t i = 0; i < o.size(); ++i)
            for (std::size_t j = 0; j < o.size(); ++j)
            {
                compare<>(i, j);
                bool thrown = false;
                try
                {
                    const V& b = *o[j];
                    const auto p = gul14::visit([](auto& x, const auto& y) { return std::make_pair(Look{}(x), Look{}(y)); }, *o[i], b);
                    PBT_CHECK(c, p.first.idx == first_of(m[i].idx) && p.first.v == m[i].v && p.second.idx == first_of(m[j].idx) && p.second.v == m[j].v, "visit of " << show(i) << " and " << show(j));
                    with_index(static_cast<std::size_t>(m[i].idx), [&](auto I) { PBT_CHECK(c, p.first.addr == gul14::get_if<decltype(I)::value>(o[i].get()), "visited another object"); });
                    with_index(static_cast<std::size_t>(m[j].idx), [&](auto I) { PBT_CHECK(c, p.second.addr == gul14::get_if<decltype(I)::value>(o[j].get()), "visited another object"); });
                }
                catch (const gul14::bad_variant_access&) { thrown = true; }
                PBT_CHECK(c, thrown == (m[i].idx < 0 || m[j].idx < 0), "visit of " << show(i) << " and " << show(j) << (thrown ? " threw" : " did not throw"));
            }
        if (o.size() == 3)
        {
            bool thrown = false;
            try
            {
                const auto t = gul14::visit([](auto& x, auto& y, auto& z) { return std::array<Seen, 3>{ { Look{}(x), Look{}(y), Look{}(z) } }; }, *o[0], *o[1], *o[2]);
                for (std::size_t k = 0; k < 3; ++k)
                    PBT_CHECK(c, t[k].idx == first_of(m[k].idx) && t[k].v == m[k].v, "visit of three variants: " << show(0) << ", " << show(1) << ", " << show(2));
            }
            catch (const gul14::bad_variant_access&) { thrown = true; }
            PBT_CHECK(c, thrown == (m[0].idx < 0 || m[1].idx < 0 || m[2].idx < 0), "visit of three variants " << (thrown ? "threw" : "did not throw"));
        }
    }

    /// After a failed change that may leave variant i as it was or without value.
    void unchanged_or_valueless(std::size_t i, const char* what)
    {
        const Model r = read(*o[i]);
        PBT_CHECK(c, r.idx < 0 || (r.idx == m[i].idx && r.v == m[i].v), what << " threw: the variant holds #" << r.idx << "=" << r.v << " instead of " << show(i) << " or nothing");
        m[i] = r;
    }
    bool nothrow_movable(int idx) { bool r = false; with_index(static_cast<std::size_t>(idx), [&](auto I) { r = Alt<T<decltype(I)::value>>::nothrow_move; }); return r; }
    int moved(const Model& a) { int r = a.v; if (a.idx >= 0) with_index(static_cast<std::size_t>(a.idx), [&](auto I) { r = Alt<T<decltype(I)::value>>::moved(a.v); }); return r; }

    void replace(std::size_t i, std::unique_ptr<V>& n, Model mm) { o[i] = std::move(n); m[i] = mm; }

    // ---- operations that need copying
    template <bool B = copyable> std::enable_if_t<B> copy_op(std::size_t i, std::size_t j, std::size_t k, int v)
    {
        switch (c.below(4))
        {
        case 0:
        {
            c.note_f([&] { return "copy-assign " + std::to_string(j) + " (" + show(j) + ") to " + std::to_string(i) + " (" + show(i) + ")"; });
            const bool other = m[i].idx != m[j].idx;
            if (run([&] { V& r = (*o[i] = static_cast<const V&>(*o[j])); PBT_CHECK(c, &r == o[i].get(), "result of assignment"); }))
            {
                if (other && !nothrow_movable(m[j].idx)) unchanged_or_valueless(i, "copy assignment");
            }
            else m[i] = m[j];
            break;
        }
        case 1:
        {
            c.note_f([&] { return "replace " + std::to_string(i) + " by a copy of " + std::to_string(j); });
            std::unique_ptr<V> n;
            if (!run([&] { n.reset(new V(static_cast<const V&>(*o[j]))); })) replace(i, n, m[j]);
            break;
        }
        case 2:
            with_index(k, [&](auto I) { copy_convert<decltype(I)::value>(i, v, true); });
            break;
        default:
            with_index(k, [&](auto I) { copy_convert<decltype(I)::value>(i, v, false); });
            break;
        }
    }
    template <bool B = copyable> std::enable_if_t<!B> copy_op(std::size_t, std::size_t, std::size_t, int) { trk::reg().disarm(); }

    template <std::size_t I> std::enable_if_t<count_of<T<I>, Ts...>() == 1> copy_convert(std::size_t i, int v, bool assign)
    {
        using U = T<I>;
        Prepared p; const U t = Alt<U>::make(v); p.done();
        const Model now{ static_cast<int>(I), Alt<U>::norm(v) };
        if (assign)
        {
            c.note_f([&] { return "assign an lvalue of alternative " + std::to_string(I) + " = " + std::to_string(v) + " to " + std::to_string(i); });
            const bool other = m[i].idx != static_cast<int>(I);
            if (run([&] { *o[i] = t; })) { if (other && !Alt<U>::nothrow_move) unchanged_or_valueless(i, "assignment of a value"); }
            else m[i] = now;
        }
        else
        {
            c.note_f([&] { return "replace " + std::to_string(i) + " by one made from an lvalue of alternative " + std::to_string(I); });
            std::unique_ptr<V> n;
            if (!run([&] { n.reset(new V(t)); })) replace(i, n, now);
        }
        PBT_CHECK(c, Alt<U>::get(t) == Alt<U>::norm(v), "the copied value was modified");
    }
    template <std::size_t I> std::enable_if_t<count_of<T<I>, Ts...>() != 1> copy_convert(std::size_t, int, bool) { trk::reg().disarm(); }

    template <std::size_t I> std::enable_if_t<count_of<T<I>, Ts...>() == 1> unique_op(std::size_t i, int v, unsigned what)
    {
        using U = T<I>;
        Prepared p; U t = Alt<U>::make(v); p.done();
        const Model now{ static_cast<int>(I), Alt<U>::norm(v) };
        std::unique_ptr<V> n;
        const std::string tail = " alternative " + std::to_string(I) + " = " + std::to_string(v) + " in " + std::to_string(i);
        switch (what)
        {
        case 0:
        {
            c.note("assign an rvalue of" + tail);
            if (run([&] { *o[i] = std::move(t); })) { if (m[i].idx != static_cast<int>(I)) unchanged_or_valueless(i, "assignment of a value"); }
            else m[i] = now;
            break;
        }
        case 1: c.note("construct from an rvalue of" + tail); if (!run([&] { n.reset(new V(std::move(t))); })) replace(i, n, now); break;
        case 2: c.note("construct by type" + tail); if (!run([&] { n.reset(new V(gul14::in_place_type_t<U>{}, std::move(t))); })) replace(i, n, now); break;
        default:
            c.note("emplace by type" + tail);
            if (run([&] { U& r = o[i]->template emplace<U>(std::move(t)); PBT_CHECK(c, &r == gul14::get_if<I>(o[i].get()), "result of emplace"); })) unchanged_or_valueless(i, "emplace");
            else m[i] = now;
            break;
        }
    }
    template <std::size_t I> std::enable_if_t<count_of<T<I>, Ts...>() != 1> unique_op(std::size_t, int, unsigned) { trk::reg().disarm(); }

    void step()
    {
        const std::size_t i = c.below(o.size()), j = c.below(o.size()), k = c.below(N);
        const int v = static_cast<int>(c.below(c.coin() ? 3 : 200));
        const bool fault = !all_of<!Alt<Ts>::tracked...> && c.chance(1, 3);
        if (fault) trk::reg().arm(static_cast<long>(c.below(3)));
        const int before = m[i].idx;
        std::unique_ptr<V> n;
        switch (c.below(13))
        {
        case 0: c.note("replace " + std::to_string(i) + " by a default one"); if (!run([&] { n.reset(new V()); })) { int z = 0; with_index(0, [&](auto) { z = Alt<T<0>>::get(T<0>()); }); replace(i, n, { 0, z }); } break;
        case 1:
            with_index(k, [&](auto Ic) { constexpr std::size_t I = decltype(Ic)::value; using U = T<I>;
                Prepared p; U t = Alt<U>::make(v); p.done();
                c.note("construct by index alternative " + std::to_string(I) + " = " + std::to_string(v) + " in " + std::to_string(i));
                if (!run([&] { n.reset(new V(gul14::in_place_index_t<I>{}, std::move(t))); })) replace(i, n, { static_cast<int>(I), Alt<U>::norm(v) }); });
            break;
        case 2: case 3:
            with_index(k, [&](auto Ic) { constexpr std::size_t I = decltype(Ic)::value; using U = T<I>;
                Prepared p; U t = Alt<U>::make(v); p.done();
                c.note("emplace by index alternative " + std::to_string(I) + " = " + std::to_string(v) + " in " + std::to_string(i));
                if (run([&] { U& r = o[i]->template emplace<I>(std::move(t)); PBT_CHECK(c, &r == gul14::get_if<I>(o[i].get()), "result of emplace"); })) unchanged_or_valueless(i, "emplace");
                else m[i] = { static_cast<int>(I), Alt<U>::norm(v) }; });
            break;
        case 4: case 5:
        {
            const unsigned what = static_cast<unsigned>(c.below(4));
            with_index(k, [&](auto I) { unique_op<decltype(I)::value>(i, v, what); });
            break;
        }
        case 6:
        {
            if (i == j) break;
            c.note_f([&] { return "move-assign " + std::to_string(j) + " (" + show(j) + ") to " + std::to_string(i) + " (" + show(i) + ")"; });
            const bool other = m[i].idx != m[j].idx;
            if (run([&] { *o[i] = std::move(*o[j]); })) { if (other) unchanged_or_valueless(i, "move assignment"); }
            else { m[i] = m[j]; m[j].v = moved(m[j]); }
            break;
        }
        case 7:
        {
            c.note_f([&] { return "move-construct " + std::to_string(i) + " from " + std::to_string(j); });
            if (!run([&] { n.reset(new V(std::move(*o[j]))); })) { const Model t = m[j]; m[j].v = moved(m[j]); replace(i, n, t); }
            break;
        }
        case 8:
        {
            c.note_f([&] { return "swap " + std::to_string(i) + " (" + show(i) + ") and " + std::to_string(j) + " (" + show(j) + ")"; });
            if (!run([&] { if (v % 2) o[i]->swap(*o[j]); else { using std::swap; swap(*o[i], *o[j]); } })) { std::swap(m[i], m[j]); break; }
            // a failed swap may lose a value, but both must still be in a definite state
            const Model mi = m[i], mj = m[j];
            if (mi.idx != mj.idx && (mi.idx < 0 || mj.idx < 0 || nothrow_movable(mi.idx) || nothrow_movable(mj.idx))) break; // both unchanged
            for (std::size_t x : { i, j })
            {
                const Model r = read(*o[x]);
                const auto fits = [&](const Model& w) { return r.idx == w.idx && (r.v == w.v || r.v == unknown); };
                PBT_CHECK(c, r.idx < 0 || fits(mi) || fits(mj), "swap threw: variant " << x << " holds #" << r.idx << "=" << r.v);
                m[x] = r;
            }
            break;
        }
        case 9:
        {
            trk::reg().disarm();
            if (m[i].idx < 0) break;
            c.note_f([&] { return "modify " + std::to_string(i) + " (" + show(i) + ") in place"; });
            const bool way = c.coin();
            with_index(static_cast<std::size_t>(m[i].idx), [&](auto Ic) { constexpr std::size_t I = decltype(Ic)::value; using U = T<I>;
                if (way) gul14::get<I>(*o[i]) = Alt<U>::make(v);
                else gul14::visit([&](auto& x) { x = Alt<std::decay_t<decltype(x)>>::make(v); }, *o[i]);
                m[i].v = Alt<U>::norm(v); });
            break;
        }
        case 10:
        {
            trk::reg().disarm();
            if (m[i].idx < 0) break;
            c.note_f([&] { return "move the value out of " + std::to_string(i) + " (" + show(i) + ")"; });
            with_index(static_cast<std::size_t>(m[i].idx), [&](auto Ic) { constexpr std::size_t I = decltype(Ic)::value; using U = T<I>;
                const U t(gul14::get<I>(std::move(*o[i])));
                PBT_CHECK(c, Alt<U>::get(t) == m[i].v, "the value moved out of " << show(i) << " is " << Alt<U>::get(t));
                m[i].v = Alt<U>::moved(m[i].v); });
            break;
        }
        default: copy_op<>(i, j, k, v); break;
        }
        trk::reg().disarm();
        if (m[i].idx != before) ++changes;
        c.label_if(fault && trk::reg().fired, "exception injected");
        c.label_if(m[i].idx < 0, "valueless");
        verify();
    }

    void go()
    {
        trk::reg().reset();
        const std::size_t k = 1 + c.below(3);
        for (std::size_t i = 0; i < k; ++i) { o.emplace_back(new V()); m.push_back(read(*o.back())); PBT_CHECK(c, m.back().idx == 0, "a default variant holds alternative " << m.back().idx); }
        verify();
        std::size_t n = 0;
        while (c.more(n, 12, 80)) step();
        o.clear();
        protocol("at the end");
        PBT_CHECK(c, trk::reg().alive.empty(), trk::reg().alive.size() << " objects are alive after all variants are gone");
        if (changes >= 3) c.nontrivial();
    }
};
template <bool N, int Tag> using Trk = trk::Tracked<true, N, Tag>;
} // namespace
