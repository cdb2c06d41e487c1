// C29: expected without value, conversions and known findings.
#include "C29_machine.h"
#include <sys/wait.h>
namespace {
const bool cfg = [] {
    pbt::config().rule = "an expected changes between value and error at least three times (conversions and findings: always)";
    pbt::config().assumptions = { "self-move is excluded, as for std::expected",
        "exceptions are not injected where expected calls std::terminate by declaration or destroys its value before a throwing emplacement of a not nothrow-movable type; these cases are known findings and examined separately",
        "histories up to 80 operations on up to three expecteds; at least one of value and error is nothrow-movable, as required by swap" };
    return true;
}();

// ---- expected<void, E>
template <typename EK> struct VoidMachine
{
    using E = typename EK::T;
    using X = gul14::expected<void, E>;
    using U = gul14::unexpected<E>;
    struct Model { bool ok = true; int v = 0; };
    Ctx& c;
    std::vector<std::unique_ptr<X>> o;
    std::vector<Model> m;
    unsigned changes = 0;
    explicit VoidMachine(Ctx& ctx) : c(ctx) {}
    ~VoidMachine() { trk::reg().disarm(); }
    std::string show(std::size_t i) const { return m[i].ok ? "success" : "error " + std::to_string(m[i].v); }
    template <typename F> bool run(F f)
    {
        try { f(); trk::reg().disarm(); return false; }
        catch (const trk::Fault&) { trk::reg().disarm(); return true; }
    }
    int moved(const Model& a) const { return EK::moved(a.v); }
    void verify()
    {
        PBT_CHECK(c, trk::reg().error.empty(), trk::reg().error);
        std::size_t alive = 0;
        for (std::size_t i = 0; i < o.size(); ++i)
        {
            const X& x = *o[i];
            PBT_CHECK(c, x.has_value() == m[i].ok && static_cast<bool>(x) == m[i].ok, "expected " << i << " must hold " << show(i));
            if (!m[i].ok)
            {
                const int v = EK::get(x.error());
                if (m[i].v == unknown) m[i].v = v;
                PBT_CHECK(c, v == m[i].v, "expected " << i << " holds error " << v << " instead of " << m[i].v);
                alive += EK::tracked;
            }
            const int w = static_cast<int>(c.below(3));
            const U u(EK::make(w));
            const bool ee = !m[i].ok && m[i].v == w;
            PBT_CHECK(c, (x == u) == ee && (u == x) == ee && (x != u) == !ee && (u != x) == !ee, "comparison of " << show(i) << " with the error " << w);
        }
        for (std::size_t i = 0; i < o.size(); ++i)
            for (std::size_t j = 0; j < o.size(); ++j)
            {
                const bool eq = m[i].ok == m[j].ok && (m[i].ok || m[i].v == m[j].v);
                PBT_CHECK(c, (*o[i] == *o[j]) == eq && (*o[i] != *o[j]) == !eq, "comparison of " << show(i) << " and " << show(j) << ": == " << (*o[i] == *o[j]) << ", != " << (*o[i] != *o[j]));
            }
        if (EK::tracked) PBT_CHECK(c, trk::reg().alive.size() == alive, trk::reg().alive.size() << " objects are alive, but the expecteds hold " << alive);
    }
    void chain(std::size_t i)
    {
        X& x = *o[i];
        const X& cx = x;
        const bool fail = c.coin(), rvalue = c.coin();
        unsigned calls = 0;
        using R = gul14::expected<int, E>;
        switch (c.below(4))
        {
        case 0:
        {
            c.note("and_then on " + std::to_string(i));
            auto f = [&] { ++calls; return fail ? R(gul14::unexpect, EK::make(17)) : R(4); };
            const R r = rvalue ? std::move(x).and_then(f) : c.coin() ? x.and_then(f) : cx.and_then(f);
            PBT_CHECK(c, calls == (m[i].ok ? 1u : 0u) && r.has_value() == (m[i].ok && !fail), "and_then on " << show(i));
            if (r) PBT_CHECK(c, *r == 4, "result of and_then");
            else PBT_CHECK(c, EK::get(r.error()) == (m[i].ok ? 17 : m[i].v), "error of and_then on " << show(i));
            break;
        }
        case 1:
        {
            c.note("map on " + std::to_string(i));
            if (fail)
            {
                const X r = rvalue ? std::move(x).map([&] { ++calls; }) : cx.transform([&] { ++calls; });
                PBT_CHECK(c, calls == (m[i].ok ? 1u : 0u) && r.has_value() == m[i].ok && (m[i].ok || EK::get(r.error()) == m[i].v), "map on " << show(i));
            }
            else
            {
                auto f = [&] { ++calls; return 5; };
                const R r = rvalue ? std::move(x).map(f) : cx.map(f);
                PBT_CHECK(c, calls == (m[i].ok ? 1u : 0u) && r.has_value() == m[i].ok && (m[i].ok ? *r == 5 : EK::get(r.error()) == m[i].v), "map on " << show(i));
            }
            break;
        }
        case 2:
        {
            c.note("map_error on " + std::to_string(i));
            auto f = [&](const E& e) { ++calls; return EK::get(e) + 1; };
            const gul14::expected<void, int> r = rvalue ? std::move(x).map_error(f) : cx.transform_error(f);
            PBT_CHECK(c, calls == (m[i].ok ? 0u : 1u) && r.has_value() == m[i].ok && (m[i].ok || r.error() == m[i].v + 1), "map_error on " << show(i));
            return; // nothing is moved
        }
        default:
        {
            c.note("or_else on " + std::to_string(i));
            auto f = [&](const E&) { ++calls; return fail ? X(gul14::unexpect, EK::make(17)) : X(); };
            const X r = rvalue ? std::move(x).or_else(f) : cx.or_else(f);
            PBT_CHECK(c, calls == (m[i].ok ? 0u : 1u) && r.has_value() == (m[i].ok || !fail) && (r || EK::get(r.error()) == 17), "or_else on " << show(i));
            return;
        }
        }
        if (rvalue && !m[i].ok) m[i].v = moved(m[i]);
    }
    void step()
    {
        const std::size_t i = c.below(o.size()), j = c.below(o.size());
        const int v = static_cast<int>(c.below(c.coin() ? 3 : 200));
        const bool was = m[i].ok;
        switch (c.below(9))
        {
        case 0: c.note("success in " + std::to_string(i)); o[i].reset(new X()); m[i].ok = true; break;
        case 1: c.note("error " + std::to_string(v) + " in " + std::to_string(i)); o[i].reset(v % 2 ? new X(gul14::unexpect, EK::make(v)) : new X(gul14::make_unexpected(EK::make(v)))); m[i] = { false, v }; break;
        case 2: { c.note("copy-assign " + std::to_string(j) + " (" + show(j) + ") to " + std::to_string(i) + " (" + show(i) + ")");
            if (!m[i].ok && c.coin()) trk::reg().arm(0);
            if (!run([&] { *o[i] = static_cast<const X&>(*o[j]); })) m[i] = m[j];
            break; }
        case 3: { if (i == j) break; c.note("move-assign " + std::to_string(j) + " (" + show(j) + ") to " + std::to_string(i) + " (" + show(i) + ")");
            *o[i] = std::move(*o[j]); m[i] = m[j]; if (!m[j].ok) m[j].v = moved(m[j]); break; }
        case 4: { c.note("replace " + std::to_string(i) + " by a copy of " + std::to_string(j)); std::unique_ptr<X> n(new X(static_cast<const X&>(*o[j]))); m[i] = m[j]; o[i] = std::move(n); break; }
        case 5: { c.note("move-construct " + std::to_string(i) + " from " + std::to_string(j)); std::unique_ptr<X> n(new X(std::move(*o[j]))); const Model t = m[j]; if (!m[j].ok) m[j].v = moved(m[j]); m[i] = t; o[i] = std::move(n); break; }
        case 6: { c.note("assign error " + std::to_string(v) + " to " + std::to_string(i) + " (" + show(i) + ")"); U u(EK::make(v)); if (c.coin()) *o[i] = u; else *o[i] = std::move(u); m[i] = { false, v }; break; }
        case 7: { c.note("swap " + std::to_string(i) + " and " + std::to_string(j)); using std::swap; if (i != j) swap(*o[i], *o[j]); std::swap(m[i], m[j]); break; }
        default: chain(i); break;
        }
        trk::reg().disarm();
        if (m[i].ok != was) ++changes;
        verify();
    }
    void go()
    {
        trk::reg().reset();
        const std::size_t k = 1 + c.below(3);
        for (std::size_t i = 0; i < k; ++i) { o.emplace_back(new X()); m.push_back({}); }
        verify();
        std::size_t n = 0;
        while (c.more(n, 12, 80)) step();
        o.clear();
        PBT_CHECK(c, trk::reg().alive.empty() && trk::reg().error.empty(), trk::reg().alive.size() << " objects are alive at the end " << trk::reg().error);
        if (changes >= 3) c.nontrivial();
    }
};
PBT_FACET(void_tracked_error, 60000, 1500000) { VoidMachine<TrackedK<true, true, 1>> m(c); m.go(); }
PBT_FACET(void_string_error, 40000, 1000000) { VoidMachine<StringK> m(c); m.go(); }
PBT_FACET(void_int_error, 40000, 1000000) { VoidMachine<IntK> m(c); m.go(); }

// ---- conversions between expecteds
template <int Tag> struct Conv : trk::Tracked<true, true, Tag>
{
    using Base = trk::Tracked<true, true, Tag>;
    Conv() = default;
    Conv(int x) : Base(x) {}
};
template <int Tag> struct Expl : trk::Tracked<true, true, Tag>
{
    using Base = trk::Tracked<true, true, Tag>;
    Expl() = default;
    explicit Expl(int x) : Base(x) {}
};
template <typename V, typename E> void convert(Ctx& c)
{
    trk::reg().reset();
    {
        const int x = c.integer<int>();
        const bool ok = c.coin();
        using S = gul14::expected<int, int>;
        using D = gul14::expected<V, E>;
        S s = ok ? S(x) : S(gul14::unexpect, x);
        const auto holds = [&](const D& d, const char* what) {
            PBT_CHECK(c, trk::reg().error.empty(), trk::reg().error);
            PBT_CHECK(c, d.has_value() == ok && (ok ? d->get() : d.error().get()) == x, what << " of " << (ok ? "value " : "error ") << x);
        };
        const D a(s);
        holds(a, "converting copy");
        PBT_CHECK(c, trk::reg().alive.size() == 1, trk::reg().alive.size() << " objects are alive after a converting copy");
        const D b(std::move(s));
        holds(b, "converting move");
        PBT_CHECK(c, trk::reg().alive.size() == 2, trk::reg().alive.size() << " objects are alive after a converting move");
        D d = c.coin() ? D(gul14::unexpect, 1) : D(V(2));
        d = D(static_cast<const S&>(s));
        holds(d, "assignment of a conversion");
        PBT_CHECK(c, trk::reg().alive.size() == 3, trk::reg().alive.size() << " objects are alive after an assignment");
        c.label_if(ok, "converted a value");
    }
    PBT_CHECK(c, trk::reg().alive.empty() && trk::reg().error.empty(), trk::reg().alive.size() << " objects leaked by conversions " << trk::reg().error);
    c.nontrivial();
}
PBT_FACET(conversions, 60000, 1000000)
{
    switch (c.below(3))
    {
    case 0: convert<Conv<0>, Conv<1>>(c); break;
    case 1: convert<Expl<0>, Expl<1>>(c); break;
    default: convert<Conv<0>, Expl<1>>(c); break;
    }
}

struct Pack { int a = 0; std::string b; std::vector<int> l; Pack() = default; Pack(int x, std::string y) : a(x), b(std::move(y)) {} Pack(std::initializer_list<int> i, int x = 0) : a(x), l(i) { if (x < 0) throw Boom{ 3 }; } bool operator==(const Pack& o) const { return a == o.a && b == o.b && l == o.l; } };
PBT_FACET(construction, 60000, 1000000)
{
    const int x = c.integer<int>();
    const std::string s = c.bytes_str(6, 60);
    c.nontrivial();
    using X = gul14::expected<Pack, std::vector<int>>;
    X a(gul14::in_place, x, s);
    PBT_CHECK(c, a && a->a == x && a->b == s, "construction in place");
    const X b(gul14::in_place, { x, 2 }, 5);
    PBT_CHECK(c, b && b->l == (std::vector<int>{ x, 2 }) && b->a == 5, "construction in place from a list");
    X d(gul14::unexpect, { 1, x, 3 });
    PBT_CHECK(c, !d && d.error() == (std::vector<int>{ 1, x, 3 }), "error constructed from a list");
    const X e(gul14::unexpect, 3u, x);
    PBT_CHECK(c, !e && e.error() == std::vector<int>(3, x), "error constructed from several arguments");
    for (X* y : { &a, &d })
    {
        X before(*y);
        bool thrown = false;
        try { y->emplace({ x, x }, -1); } catch (const Boom&) { thrown = true; } // the constructor throws
        PBT_CHECK(c, thrown && *y == before, "a failed emplacement from a list changed the expected");
        y->emplace({ x, 7 }, 9);
        PBT_CHECK(c, *y && (*y)->l == (std::vector<int>{ x, 7 }) && (*y)->a == 9, "emplacement from a list");
    }
    a.emplace(x, s);
    PBT_CHECK(c, a && a->a == x && a->b == s && a->l.empty(), "emplacement with several arguments");
    // unexpected
    const gul14::unexpected<std::string> u(s), w = gul14::make_unexpected(s + "x"), l({ 'a', 'b' });
    PBT_CHECK(c, u.value() == s && w.value() == s + "x" && l.value() == "ab", "unexpected");
    PBT_CHECK(c, (u == w) == false && u != w && u < w && u <= w && w > u && w >= u && u == gul14::unexpected<std::string>(s) && !(u != gul14::unexpected<std::string>(s)) && !(u < u) && u <= u && u >= u && !(u > u), "comparison of unexpecteds");
    // comparison of different types, default state, nesting
    const gul14::expected<long, long> p(x), q(gul14::unexpect, x);
    const gul14::expected<int, int> r(x), t(gul14::unexpect, x);
    PBT_CHECK(c, p == r && !(p != r) && q == t && !(q != t) && p != q && !(p == q) && r != t, "comparison across types");
    const gul14::expected<gul14::expected<int, int>, std::string> nest(gul14::in_place, t);
    PBT_CHECK(c, nest && !nest->has_value() && nest->error() == x, "nested");
    constexpr gul14::expected<int, char> k(5), f(gul14::unexpect, 'e');
    static_assert(k && *k == 5 && !f && f.error() == 'e' && f.value_or(3) == 3 && k == 5, "constexpr use");
}

// ---- known findings: each history is run in a child process that must either behave as the
// property demands or end by std::terminate()/double destruction exactly as listed.
enum Outcome { good = 0, terminated = 42, protocol_broken = 43, wrong = 44 };
template <typename F> int in_child(F f)
{
    std::fflush(nullptr);
    const pid_t pid = fork();
    if (pid < 0) return good;
    if (pid == 0)
    {
        std::set_terminate([] { _exit(terminated); });
        int r = wrong;
        try { r = f(); } catch (...) { r = wrong; }
        _exit(r);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 200;
}
template <typename V, typename E> int constructions(int what)
{
    using X = gul14::expected<V, E>;
    trk::reg().reset();
    int r = wrong;
    {
        X v(gul14::in_place, 1), e(gul14::unexpect, 2);
        trk::reg().arm(0);
        try
        {
            switch (what)
            {
            case 0: { X x(static_cast<const X&>(v)); break; }
            case 1: { X x(static_cast<const X&>(e)); break; }
            case 2: { X x(std::move(v)); break; }
            case 3: { X x(std::move(e)); break; }
            default: v = static_cast<const X&>(e); break; // an error copied over a value
            }
            trk::reg().disarm();
            r = trk::reg().fired ? wrong : good;
        }
        catch (const trk::Fault&) { trk::reg().disarm(); r = v.has_value() && v->get() == 1 && !e.has_value() && e.error().get() == 2 ? good : wrong; }
    }
    return trk::reg().alive.empty() && trk::reg().error.empty() ? r : protocol_broken;
}
PBT_FACET(known_findings, 40, 200)
{
    using N = trk::Tracked<true, true, 0>;  using NE = trk::Tracked<true, true, 1>;
    using M = trk::Tracked<true, false, 0>; using ME = trk::Tracked<true, false, 1>;
    const int kind = static_cast<int>(c.below(3)), what = static_cast<int>(c.below(5));
    c.nontrivial();
    c.note("types " + std::to_string(kind) + ", history " + std::to_string(what));
    const int r = in_child([&] { return kind == 0 ? constructions<N, NE>(what) : kind == 1 ? constructions<M, NE>(what) : constructions<N, ME>(what); });
    PBT_CHECK(c, r == good || r == terminated, "copying or moving with an exception: outcome " << r << " is neither correct nor the known termination");
    c.label_if(r == terminated, "known finding: termination");
    const int q = in_child([&] {
        trk::reg().reset();
        { gul14::expected<M, NE> x(gul14::in_place, 1); trk::reg().arm(0); try { x.emplace(2); } catch (const trk::Fault&) {} trk::reg().disarm(); }
        return trk::reg().alive.empty() && trk::reg().error.empty() ? good : protocol_broken; });
    PBT_CHECK(c, q == good || q == protocol_broken, "throwing emplacement: outcome " << q);
    c.label_if(q == protocol_broken, "known finding: emplacement");
}
} // namespace
