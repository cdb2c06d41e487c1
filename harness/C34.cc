// C34: invoke() calls exactly the given callable, the invocability traits tell the truth,
// and type names are distinct.
#include "pbt.h"
#include "gul14/traits.h"
#include "gul14/utility.h"
#include <array>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
using pbt::Ctx;

namespace {
const bool cfg = [] {
    pbt::config().rule = "invoke: a member of an object, or two or more arguments; type names: the types differ";
    pbt::config().assumptions = { "C++14 mode (from C++17 on, the standard library's implementation is used)",
        "up to 3 arguments; type names as produced by clang (thorough: also g++)" };
    return true;
}();

// ---- arguments ------------------------------------------------------------------------
struct Arg
{
    long v;
    int copies = 0;
    bool moved_from = false;
    explicit Arg(long x) : v(x) {}
    Arg(const Arg& o) : v(o.v), copies(o.copies + 1) {}
    Arg(Arg&& o) noexcept : v(o.v), copies(o.copies) { o.moved_from = true; }
    Arg& operator=(const Arg&) = delete;
};

enum Cat { lval, clval, rval, crval };
struct Seen { Cat cat; const void* p; long v; };
struct Call { int fn; int obj; const void* self; std::vector<Seen> args; };
std::vector<Call> calls;

Seen see(Arg& a) { return { lval, &a, a.v }; }
Seen see(const Arg& a) { return { clval, &a, a.v }; }
Seen see(Arg&& a) { return { rval, &a, a.v }; }
Seen see(const Arg&& a) { return { crval, &a, a.v }; }

struct Boom { int n; };
int throw_at = 0;   // throw in the call if set

template <class... A>
void note(int fn, int obj, const void* self, A&&... a)
{
    calls.push_back({ fn, obj, self, { see(std::forward<A>(a))... } });
    if (throw_at) throw Boom{ throw_at };
}

// ---- objects --------------------------------------------------------------------------
struct Base
{
    virtual ~Base() = default;
    long x = 0;
    Arg member{ 5 };
    const long cx = 77;
    // fn 1..: qualified members
    long plain(Arg& a) { note(1, 0, this, a); return x + a.v; }
    long cnst(const Arg& a) const { note(2, 0, this, a); return x - a.v; }
    Arg& lref(Arg&& a, const Arg& b) & { note(3, 0, this, std::move(a), b); return member; }
    long rref(Arg&& a) && { note(4, 0, this, std::move(a)); return x * 2 + a.v; }
    virtual long virt(Arg& a, Arg& b, Arg& c) { note(5, 0, this, a, b, c); return 50 + a.v; }
    void nothing() { note(6, 0, this); }
    const Arg& by_value(Arg a) { note(7, 0, this, a); return member; }
};
struct Other { long pad = 9; virtual ~Other() = default; };
struct Derived : Other, Base
{
    long virt(Arg& a, Arg& b, Arg& c) override { note(8, 1, static_cast<Base*>(this), a, b, c); return 80 + c.v; }
};
/// A pointer-like class.
struct Ptr
{
    Base* p;
    Base& operator*() const { return *p; }
};

// ---- free callables -------------------------------------------------------------------
long free2(Arg& a, const Arg& b) { note(20, 0, nullptr, a, b); return a.v * 1000 + b.v; }
Arg& free_ref(Arg& a) { note(21, 0, nullptr, a); return a; }
void free_rv(Arg&& a, Arg& b, Arg&& c) { note(22, 0, nullptr, std::move(a), b, std::move(c)); }
struct Functor
{
    long tag = 0;
    template <class... A> long operator()(A&&... a) & { note(30, 0, this, std::forward<A>(a)...); return tag + 1; }
    template <class... A> long operator()(A&&... a) const & { note(31, 0, this, std::forward<A>(a)...); return tag + 2; }
    template <class... A> long operator()(A&&... a) && { note(32, 0, this, std::forward<A>(a)...); return tag + 3; }
    template <class... A> long operator()(A&&... a) const && { note(33, 0, this, std::forward<A>(a)...); return tag + 4; }
};

void expect(Ctx& c, int fn, const void* self, std::vector<Seen> args)
{
    PBT_CHECK(c, calls.size() == 1, "the callable was called " << calls.size() << " times instead of once");
    const auto& k = calls[0];
    PBT_CHECK(c, k.fn == fn, "callable " << k.fn << " was called instead of " << fn);
    PBT_CHECK(c, k.self == self, "the callable was called on another object");
    PBT_CHECK(c, k.args.size() == args.size(), "wrong number of arguments");
    for (std::size_t i = 0; i < args.size(); ++i)
    {
        PBT_CHECK(c, k.args[i].cat == args[i].cat, "argument " << i << " has another value category (" << k.args[i].cat << " instead of " << args[i].cat << ")");
        PBT_CHECK(c, !args[i].p || k.args[i].p == args[i].p, "argument " << i << " is another object");
        PBT_CHECK(c, k.args[i].v == args[i].v, "argument " << i << " has another value");
    }
}

/// Call f and compare: result by cmp, or the exception that was asked for.
template <class F, class C>
void guarded(Ctx& c, F f, C after)
{
    calls.clear();
    throw_at = c.chance(1, 6) ? static_cast<int>(c.range(1, 1000)) : 0;
    const int want = throw_at;
    bool threw = false;
    try { f(); }
    catch (const Boom& b) { threw = true; PBT_CHECK(c, b.n == want && want, "wrong exception"); }
    throw_at = 0;
    PBT_CHECK(c, threw == (want != 0), "exception " << (threw ? "came out of nowhere" : "was lost"));
    if (want) c.label("exception passed through");
    after(threw);
}

/// All member accesses through a given expression of the object. Lv = the object as lvalue.
template <class Make>
void members(Ctx& c, Base& obj, bool derived, Make&& lv)
{
    Arg a(c.range(-1000, 1000)), b(c.range(-1000, 1000)), d(c.range(-1000, 1000));
    obj.x = c.range(-1000000, 1000000);
    obj.member.v = c.range(-1000, 1000);
    const void* self = &obj;
    long r = 0;
    switch (c.below(8))
    {
    case 0:
        guarded(c, [&] { r = gul14::invoke(&Base::plain, lv(), a); }, [&](bool t) {
            expect(c, 1, self, { { lval, &a, a.v } });
            if (!t) PBT_CHECK(c, r == obj.x + a.v, "wrong result");
        });
        break;
    case 1:
    {
        const bool rv = c.coin();
        guarded(c, [&] { r = rv ? gul14::invoke(&Base::cnst, lv(), std::move(a)) : gul14::invoke(&Base::cnst, lv(), a); },
                [&](bool t) {
            expect(c, 2, self, { { clval, &a, a.v } });
            if (!t) PBT_CHECK(c, r == obj.x - a.v, "wrong result");
        });
        break;
    }
    case 2:
    {
        const Arg* got = nullptr;
        guarded(c, [&] { Arg& m = gul14::invoke(&Base::lref, lv(), std::move(a), b); got = &m; }, [&](bool t) {
            expect(c, 3, self, { { rval, &a, a.v }, { clval, &b, b.v } });
            if (!t) PBT_CHECK(c, got == &obj.member, "the reference result is another object");
        });
        break;
    }
    case 3:
        guarded(c, [&] { r = gul14::invoke(&Base::virt, lv(), a, b, d); }, [&](bool t) {
            expect(c, derived ? 8 : 5, self, { { lval, &a, a.v }, { lval, &b, b.v }, { lval, &d, d.v } });
            if (!t) PBT_CHECK(c, r == (derived ? 80 + d.v : 50 + a.v), "wrong result");
        });
        break;
    case 4:
        guarded(c, [&] { gul14::invoke(&Base::nothing, lv()); }, [&](bool) { expect(c, 6, self, {}); });
        break;
    case 5:
    {
        const bool rv = c.coin();
        const Arg* got = nullptr;
        guarded(c, [&] {
            if (rv) { const Arg& m = gul14::invoke(&Base::by_value, lv(), std::move(a)); got = &m; }
            else { const Arg& m = gul14::invoke(&Base::by_value, lv(), a); got = &m; }
        }, [&](bool t) {
            expect(c, 7, self, { { lval, nullptr, a.v } });
            PBT_CHECK(c, a.moved_from == rv, "an lvalue argument was moved from or an rvalue argument was copied");
            if (!t) PBT_CHECK(c, got == &obj.member, "the reference result is another object");
        });
        break;
    }
    case 6:
    {
        // data member, for reading and writing
        calls.clear();
        auto&& m = gul14::invoke(&Base::x, lv());
        PBT_CHECK(c, std::addressof(m) == &obj.x, "access to a data member gives another object");
        const long v = c.range(-100, 100);
        m = v;
        PBT_CHECK(c, obj.x == v, "write through a data member is lost");
        auto&& k = gul14::invoke(&Base::cx, lv());
        PBT_CHECK(c, std::addressof(k) == &obj.cx && k == 77, "access to a constant data member gives another object");
        PBT_CHECK(c, (std::is_same<decltype(k), const long&>::value), "a constant data member lost its constness");
        break;
    }
    default:
    {
        Arg& m = gul14::invoke(&Base::member, lv());
        PBT_CHECK(c, &m == &obj.member && m.v == obj.member.v && m.copies == 0, "access to a data member gives another object");
        const auto pm = c.coin() ? &Base::cnst : &Base::cnst;
        calls.clear();
        r = gul14::invoke(pm, lv(), b);
        expect(c, 2, self, { { clval, &b, b.v } });
        PBT_CHECK(c, r == obj.x - b.v, "wrong result");
    }
    }
}
}

PBT_FACET(members_of_objects, 300000, 6000000)
{
    Base base;
    Derived der;
    const bool derived = c.coin();
    Base& obj = derived ? static_cast<Base&>(der) : base;
    c.nontrivial();
    switch (c.below(8))
    {
    case 0: c.label("object"); if (derived) members(c, obj, true, [&]() -> Derived& { return der; });
            else members(c, obj, false, [&]() -> Base& { return base; }); break;
    case 1: c.label("base reference"); members(c, obj, derived, [&]() -> Base& { return obj; }); break;
    case 2: c.label("pointer"); if (derived) members(c, obj, true, [&] { return &der; }); else members(c, obj, false, [&] { return &base; }); break;
    case 3: c.label("reference wrapper"); if (derived) members(c, obj, true, [&] { return std::ref(der); });
            else members(c, obj, false, [&] { return std::ref(base); }); break;
    case 4:
    {
        c.label("lvalue reference wrapper");
        auto w = std::ref(obj);
        members(c, obj, derived, [&]() -> std::reference_wrapper<Base>& { return w; });
        break;
    }
    case 5:
    {
        c.label("unique_ptr");
        std::unique_ptr<Base> p = derived ? std::unique_ptr<Base>(new Derived) : std::unique_ptr<Base>(new Base);
        members(c, *p, derived, [&]() -> std::unique_ptr<Base>& { return p; });
        break;
    }
    case 6:
    {
        c.label("shared_ptr");
        auto p = derived ? std::shared_ptr<Base>(std::make_shared<Derived>()) : std::make_shared<Base>();
        members(c, *p, derived, [&] { return p; });
        break;
    }
    default:
    {
        c.label("pointer-like object");
        const Ptr p{ &obj };
        members(c, obj, derived, [&] { return p; });
    }
    }
}

PBT_FACET(constant_and_temporary_objects, 200000, 4000000)
{
    Derived der;
    der.x = c.range(-1000, 1000);
    der.member.v = c.range(-1000, 1000);
    Base& obj = der;
    Arg a(c.range(-1000, 1000));
    long r = 0;
    c.nontrivial();
    switch (c.below(7))
    {
    case 0:
        guarded(c, [&] { r = gul14::invoke(&Base::cnst, static_cast<const Derived&>(der), a); }, [&](bool t) {
            expect(c, 2, &obj, { { clval, &a, a.v } });
            if (!t) PBT_CHECK(c, r == der.x - a.v, "wrong result");
        });
        break;
    case 1:
        guarded(c, [&] { r = gul14::invoke(&Base::rref, std::move(der), std::move(a)); }, [&](bool t) {
            expect(c, 4, &obj, { { rval, &a, a.v } });
            if (!t) PBT_CHECK(c, r == der.x * 2 + a.v, "wrong result");
        });
        break;
    case 2:
    {
        auto&& m = gul14::invoke(&Base::member, std::move(der));
        PBT_CHECK(c, (std::is_same<decltype(m), Arg&&>::value), "data member of a temporary is not an rvalue");
        PBT_CHECK(c, &m == &der.member && !der.member.moved_from, "another object");
        Arg taken(gul14::invoke(&Base::member, std::move(obj)));
        PBT_CHECK(c, der.member.moved_from && taken.copies == 0 && taken.v == der.member.v, "data member of a temporary was copied");
        break;
    }
    case 3:
    {
        auto&& m = gul14::invoke(&Base::member, static_cast<const Derived&>(der));
        PBT_CHECK(c, (std::is_same<decltype(m), const Arg&>::value), "data member of a constant object is not constant");
        PBT_CHECK(c, &m == &der.member, "another object");
        auto&& n = gul14::invoke(&Base::member, static_cast<const Base*>(&der));
        PBT_CHECK(c, (std::is_same<decltype(n), const Arg&>::value) && &n == &der.member, "data member through a pointer to constant");
        auto&& o = gul14::invoke(&Base::member, std::cref(obj));
        PBT_CHECK(c, (std::is_same<decltype(o), const Arg&>::value) && &o == &der.member, "data member through a constant reference wrapper");
        break;
    }
    case 4:
        guarded(c, [&] { r = gul14::invoke(&Base::cnst, std::cref(der), a); }, [&](bool t) {
            expect(c, 2, &obj, { { clval, &a, a.v } });
            if (!t) PBT_CHECK(c, r == der.x - a.v, "wrong result");
        });
        break;
    case 5:
        guarded(c, [&] { r = gul14::invoke(&Base::cnst, static_cast<const Derived*>(&der), a); }, [&](bool t) {
            expect(c, 2, &obj, { { clval, &a, a.v } });
            if (!t) PBT_CHECK(c, r == der.x - a.v, "wrong result");
        });
        break;
    default:
    {
        // a pointer passed as an rvalue does not make the object an rvalue
        auto p = std::make_unique<Derived>();
        p->member.v = a.v;
        Arg taken(gul14::invoke(&Base::member, std::move(p)));
        PBT_CHECK(c, p && taken.v == a.v && taken.copies == 1 && !p->member.moved_from, "object behind a temporary pointer was moved from");
    }
    }
}

PBT_FACET(other_callables, 300000, 6000000)
{
    Arg a(c.range(-1000, 1000)), b(c.range(-1000, 1000)), d(c.range(-1000, 1000));
    const Arg k(c.range(-1000, 1000));
    long r = 0;
    const auto which = c.below(9);
    if (which != 1) c.nontrivial();
    switch (which)
    {
    case 0:
        guarded(c, [&] { r = c.coin() ? gul14::invoke(free2, a, b) : gul14::invoke(&free2, a, std::move(b)); }, [&](bool t) {
            expect(c, 20, nullptr, { { lval, &a, a.v }, { clval, &b, b.v } });
            if (!t) PBT_CHECK(c, r == a.v * 1000 + b.v, "wrong result");
        });
        break;
    case 1:
    {
        const Arg* got = nullptr;
        guarded(c, [&] { Arg& x = gul14::invoke(free_ref, a); got = &x; }, [&](bool t) {
            expect(c, 21, nullptr, { { lval, &a, a.v } });
            if (!t) PBT_CHECK(c, got == &a, "the reference result is another object");
        });
        break;
    }
    case 2:
        guarded(c, [&] { gul14::invoke(free_rv, std::move(a), b, std::move(d)); }, [&](bool) {
            expect(c, 22, nullptr, { { rval, &a, a.v }, { lval, &b, b.v }, { rval, &d, d.v } });
            PBT_CHECK(c, !a.moved_from && !b.moved_from && !d.moved_from, "an argument was moved from");
        });
        break;
    case 3: case 4: case 5: case 6:
    {
        Functor f;
        f.tag = c.range(-1000, 1000);
        const int q = static_cast<int>(which) - 3;
        const int shape = static_cast<int>(c.below(4));
        auto call = [&](auto&& fn) {
            switch (shape)
            {
            case 0: r = gul14::invoke(std::forward<decltype(fn)>(fn)); break;
            case 1: r = gul14::invoke(std::forward<decltype(fn)>(fn), a, k, std::move(b)); break;
            case 2: r = gul14::invoke(std::forward<decltype(fn)>(fn), std::move(k)); break;
            default: r = gul14::invoke(std::forward<decltype(fn)>(fn), a, a); break;
            }
        };
        guarded(c, [&] {
            if (q == 0) call(f);
            else if (q == 1) call(static_cast<const Functor&>(f));
            else if (q == 2) call(std::move(f));
            else call(static_cast<const Functor&&>(f));
        }, [&](bool t) {
            std::vector<Seen> want;
            if (shape == 1) want = { { lval, &a, a.v }, { clval, &k, k.v }, { rval, &b, b.v } };
            if (shape == 2) want = { { crval, &k, k.v } };
            if (shape == 3) want = { { lval, &a, a.v }, { lval, &a, a.v } };
            expect(c, 30 + q, &f, want);
            if (!t) PBT_CHECK(c, r == f.tag + q + 1, "wrong result");
        });
        break;
    }
    case 7:
    {
        std::function<long(Arg&, const Arg&)> f = free2;
        guarded(c, [&] { r = gul14::invoke(f, a, k); }, [&](bool t) {
            expect(c, 20, nullptr, { { lval, &a, a.v }, { clval, &k, k.v } });
            if (!t) PBT_CHECK(c, r == a.v * 1000 + k.v, "wrong result");
        });
        break;
    }
    default:
    {
        // state of a mutable lambda stays with the lambda
        long n = c.range(0, 100);
        const long n0 = n, times = c.range(1, 5);
        auto f = [n](Arg& x) mutable { n += x.v; return n; };
        for (long i = 1; i <= times; ++i)
        {
            r = gul14::invoke(f, a);
            PBT_CHECK(c, r == n0 + i * a.v, "state of the callable was lost");
        }
        // unique ownership passes through
        std::unique_ptr<long> p(new long(b.v));
        auto g = [](std::unique_ptr<long> x, long y) { *x += y; return x; };
        auto res = gul14::invoke(g, std::move(p), times);
        PBT_CHECK(c, !p && res && *res == b.v + times, "move-only argument or result was lost");
    }
    }
}

// ---- traits -----------------------------------------------------------------------------
namespace {
struct FT
{
    bool got, want;
    const char* what;
};
struct NotCallable {};
struct Explicit { explicit Explicit(int) {} explicit operator int() const { return 0; } };
struct Abstract { virtual ~Abstract() = default; virtual int go() = 0; int f() { return 1; } };
struct OnlyR { int operator()(int) && { return 0; } };
struct OnlyC { double operator()(int, double) const { return 0; } };
struct Ovl { char operator()(int) { return 0; } std::string operator()(const std::string&) { return ""; } };

#define INV(expected, ...) FT{ gul14::is_invocable<__VA_ARGS__>::value, expected, "is_invocable<" #__VA_ARGS__ ">" }
#define INVR(expected, ...) FT{ gul14::is_invocable_r<__VA_ARGS__>::value, expected, "is_invocable_r<" #__VA_ARGS__ ">" }
#define RES(expected, ...) FT{ std::is_same<gul14::invoke_result_t<__VA_ARGS__>, expected>::value, true, "invoke_result_t<" #__VA_ARGS__ "> is " #expected }
#define CVR(expected, T) FT{ std::is_same<gul14::remove_cvref_t<T>, expected>::value && std::is_same<typename gul14::remove_cvref<T>::type, expected>::value, true, "remove_cvref<" #T "> is " #expected }
#define CONT(expected, ...) FT{ gul14::IsContainerLike<__VA_ARGS__>::value, expected, "IsContainerLike<" #__VA_ARGS__ ">" }
using PM = decltype(&Base::plain);
using PC = decltype(&Base::cnst);
using PRR = decltype(&Base::rref);
using PLR = decltype(&Base::lref);
using DM = decltype(&Base::x);
using DC = decltype(&Base::cx);

const std::vector<FT>& traits()
{
    static const std::vector<FT> t = {
        INV(true, PM, Base&, Arg&), INV(true, PM, Derived&, Arg&), INV(true, PM, Base*, Arg&), INV(true, PM, Derived*, Arg&),
        INV(true, PM, std::unique_ptr<Base>&, Arg&), INV(true, PM, std::reference_wrapper<Derived>, Arg&),
        INV(false, PM, const Base&, Arg&), INV(false, PM, const Base*, Arg&), INV(false, PM, std::reference_wrapper<const Base>, Arg&),
        INV(false, PM, Base&, Arg), INV(false, PM, Base&, const Arg&), INV(false, PM, Base&), INV(false, PM, Base&, Arg&, int), INV(false, PM, Other&, Arg&),
        INV(false, PM, NotCallable, Arg&), INV(false, PM, int, Arg&), INV(false, PM),
        INV(true, PC, const Base&, Arg&), INV(true, PC, const Base&, Arg), INV(true, PC, std::shared_ptr<const Derived>, const Arg&),
        INV(true, PRR, Base, Arg), INV(true, PRR, Base&&, Arg), INV(false, PRR, Base&, Arg), INV(false, PRR, Base*, Arg),
        INV(true, PLR, Base&, Arg, Arg&), INV(false, PLR, Base, Arg, Arg&), INV(true, PLR, Base*, Arg, Arg&),
        INV(true, DM, Base&), INV(true, DM, const Base*), INV(true, DM, std::reference_wrapper<Derived>), INV(false, DM, Base&, int), INV(false, DM, Other&), INV(false, DM),
        INV(true, OnlyR, int), INV(false, OnlyR&, int), INV(false, const OnlyR, int), INV(true, OnlyC, int, double), INV(true, const OnlyC&, char, float),
        INV(false, OnlyC, int), INV(true, Ovl, int), INV(true, Ovl&, const char*), INV(false, const Ovl&, int), INV(false, Ovl, NotCallable),
        INV(false, NotCallable), INV(false, int), INV(false, NotCallable, int), INV(true, long (&)(Arg&, const Arg&), Arg&, Arg), INV(false, long (*)(Arg&, const Arg&), Arg, Arg),
        INV(true, std::function<void(int)>, short), INV(false, std::function<void(int)>, std::string), INV(true, void (*)()), INV(false, void (*)(), int),
        INVR(true, long, PM, Base&, Arg&), INVR(true, double, PM, Base&, Arg&), INVR(false, std::string, PM, Base&, Arg&), INVR(false, Base, PM, Base&, Arg&),
        INVR(false, long, PM, const Base&, Arg&), INVR(true, long&, DM, Base&), INVR(false, long&, DM, const Base&), INVR(true, const long&, DM, const Base&),
        INVR(true, std::string, Ovl, const char*), INVR(false, int, Ovl, const char*), INVR(true, int, Ovl, int), INVR(true, void, void (*)()), INVR(false, int, void (*)()),
        INVR(false, Explicit, Ovl, int), INVR(false, int, Explicit (*)()), INVR(true, Explicit, Explicit (*)()), INV(true, decltype(&Abstract::f), Abstract&), INVR(true, const Base&, Derived& (*)()), INVR(false, Derived&, Base& (*)()),
        INVR(false, int, NotCallable), INVR(false, int, int, int),
        RES(long, PM, Base&, Arg&), RES(Arg&, PLR, Derived&, Arg, Arg&), RES(long&, DM, Base&), RES(long&, DM, Base*), RES(const long&, DM, const Base&), RES(long&&, DM, Base),
        RES(const long&, DC, Base&), RES(const long&, DM, std::reference_wrapper<const Derived>), RES(char, Ovl, int), RES(std::string, Ovl, std::string), RES(double, const OnlyC&, int, int),
        RES(int, OnlyR, long), RES(void, void (*)()), RES(Arg&, decltype(&free_ref), Arg&),
        CVR(int, int), CVR(int, const int), CVR(int, const volatile int&), CVR(int, int&&), CVR(int, volatile int), CVR(const int*, const int* const&), CVR(std::string, const std::string&&),
        CVR(int*, int*), CVR(const char*, const char*),
        CONT(true, std::vector<int>), CONT(true, std::string), CONT(true, std::array<int, 3>), CONT(true, std::list<std::string>), CONT(true, std::map<int, int>),
        CONT(true, std::deque<int>), CONT(true, std::set<char>),
        CONT(false, int), CONT(false, int*), CONT(false, int[3]), CONT(false, NotCallable), CONT(false, std::unique_ptr<int>), CONT(false, void), CONT(false, std::pair<int, int>),
    };
    return t;
}
}

PBT_FACET(traits_of_types, 2000, 20000)
{
    const auto& t = traits()[static_cast<std::size_t>(c.below(traits().size()))];
    c.nontrivial();
    PBT_CHECK(c, t.got == t.want, t.what << " should be " << (t.want ? "true" : "false"));
}

// ---- monostate --------------------------------------------------------------------------
PBT_FACET(monostates, 10, 10)
{
    c.nontrivial();
    gul14::monostate a, b;
    PBT_CHECK(c, a == b && !(a != b) && !(a < b) && !(a > b) && a <= b && a >= b, "monostates are not all equal");
    PBT_CHECK(c, std::hash<gul14::monostate>{}(a) == std::hash<gul14::monostate>{}(b), "hashes of monostates differ");
}
