// C01: the model-based machine (see C01.cc).
#ifndef C01_MACHINE_H_
#define C01_MACHINE_H_
#include "pbt.h"
#include "gul14/SmallVector.h"
#include <list>

using pbt::Ctx;
using pbt::show;

namespace {

struct Pod // a type with an odd size, trivially copyable
{
    int a; short b; char c[3];
    friend bool operator==(const Pod& x, const Pod& y)
    { return x.a == y.a && x.b == y.b && std::memcmp(x.c, y.c, 3) == 0; }
};
std::string show(const Pod& p) { return std::to_string(p.a); }

// Move-only value type.
struct Uniq
{
    std::unique_ptr<int> p;
    Uniq() = default;
    explicit Uniq(int v) : p(new int(v)) {}
    friend bool operator==(const Uniq& x, const Uniq& y)
    { return (x.p && y.p) ? *x.p == *y.p : (!x.p && !y.p); }
};
std::string show(const Uniq& u) { return u.p ? std::to_string(*u.p) : "-"; }

template <typename T> struct Gen;
template <> struct Gen<int>
{
    static int make(std::uint64_t x) { return static_cast<int>(x); }
    static std::string text(int v) { return std::to_string(v); }
};
template <> struct Gen<Pod>
{
    static Pod make(std::uint64_t x)
    { return Pod{ static_cast<int>(x), static_cast<short>(x * 7), { 'a', char(x), char(x >> 3) } }; }
    static std::string text(const Pod& v) { return std::to_string(v.a); }
};
template <> struct Gen<std::string>
{
    static std::string make(std::uint64_t x)
    {
        if (x % 3 == 0) return std::to_string(x);
        if (x % 3 == 1) return std::string(static_cast<std::size_t>(16 + x % 40), static_cast<char>('a' + x % 26)) + std::to_string(x);
        return x % 2 ? "" : std::string("s") + std::to_string(x);
    }
    static std::string text(const std::string& v) { return pbt::show(v); }
};
template <> struct Gen<Uniq>
{
    static Uniq make(std::uint64_t x) { return x % 7 == 6 ? Uniq{} : Uniq{ static_cast<int>(x) }; }
    static std::string text(const Uniq& v) { return show(v); }
};
template <> struct Gen<double>
{
    static double make(std::uint64_t x) { return static_cast<double>(x) / 4; }
    static std::string text(double v) { return std::to_string(v); }
};

/// A single-pass input iterator over a vector (all copies share the position).
template <typename T>
struct SinglePass
{
    using iterator_category = std::input_iterator_tag;
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = const T*;
    using reference = const T&;
    struct State { const std::vector<T>* v; std::size_t i; };
    std::shared_ptr<State> s; // null: end
    bool at_end() const { return !s || s->i >= s->v->size(); }
    reference operator*() const { return (*s->v)[s->i]; }
    pointer operator->() const { return &(*s->v)[s->i]; }
    SinglePass& operator++() { ++s->i; return *this; }
    struct Proxy { T v; const T& operator*() const { return v; } };
    Proxy operator++(int) { Proxy p{ **this }; ++s->i; return p; }
    friend bool operator==(const SinglePass& a, const SinglePass& b) { return a.at_end() == b.at_end(); }
    friend bool operator!=(const SinglePass& a, const SinglePass& b) { return !(a == b); }
};

template <typename T, std::size_t N>
struct Machine
{
    using SV = gul14::SmallVector<T, N>;
    using Model = std::vector<T>;
    Ctx& c;
    std::vector<std::unique_ptr<SV>> v;
    std::vector<Model> m;
    std::uint64_t counter = 0;
    bool grew = false, shifted = false;

    explicit Machine(Ctx& ctx) : c(ctx)
    {
        v.emplace_back(new SV);
        m.emplace_back();
    }

    // the same value twice, so that move-only types work as well
    std::uint64_t code() { return (big ? counter % 40 : c.below(40)) + 40 * (counter++); }
    std::size_t big = 0; // in some histories, many elements at a time

    static const char* inside(const SV& x)
    {
        auto p = reinterpret_cast<const char*>(x.data());
        auto b = reinterpret_cast<const char*>(&x);
        return p >= b && p < b + sizeof(SV) ? "inside" : "outside";
    }

    void verify(std::size_t i)
    {
        SV& x = *v[i];
        const SV& cx = x;
        const Model& y = m[i];
        PBT_CHECK(c, x.size() == y.size(), "vector " << i << ": size " << x.size() << ", expected " << y.size());
        PBT_CHECK(c, cx.empty() == y.empty(), "vector " << i);
        PBT_CHECK(c, cx.inner_capacity() == N, cx.inner_capacity());
        PBT_CHECK(c, cx.capacity() >= cx.size() && cx.capacity() >= N,
            "capacity " << cx.capacity() << " size " << cx.size());
        if (cx.capacity() <= N)
            PBT_CHECK(c, std::string(inside(cx)) == "inside", "inner elements must be stored in the object");
        for (std::size_t k = 0; k < y.size(); ++k)
        {
            const auto kk = static_cast<typename SV::SizeType>(k);
            PBT_CHECK(c, cx[kk] == y[k], "vector " << i << " element " << k << " is "
                << Gen<T>::text(cx[kk]) << ", expected " << Gen<T>::text(y[k]));
            PBT_CHECK(c, &x[kk] == x.data() + k && &cx[kk] == cx.data() + k && &x.at(kk) == &x[kk]
                && &cx.at(kk) == &cx[kk], "element addresses, index " << k);
        }
        PBT_CHECK(c, std::equal(cx.begin(), cx.end(), y.begin(), y.end()), "const iteration");
        PBT_CHECK(c, std::equal(x.begin(), x.end(), y.begin(), y.end()), "iteration");
        PBT_CHECK(c, std::equal(cx.cbegin(), cx.cend(), y.begin(), y.end()), "cbegin/cend iteration");
        PBT_CHECK(c, std::equal(x.rbegin(), x.rend(), y.rbegin(), y.rend()), "reverse iteration");
        PBT_CHECK(c, std::equal(x.crbegin(), x.crend(), y.rbegin(), y.rend()), "const reverse iteration");
        if (!y.empty())
        {
            PBT_CHECK(c, &x.front() == x.data() && &cx.front() == cx.data(), "front");
            PBT_CHECK(c, &x.back() == x.data() + (y.size() - 1) && &cx.back() == cx.data() + (y.size() - 1), "back");
        }
        for (std::size_t d : { std::size_t{ 0 }, std::size_t{ 1 }, std::size_t{ 1000 } })
        {
            bool thrown = false, thrown2 = false;
            const auto idx = static_cast<typename SV::SizeType>(y.size() + d);
            try { x.at(idx); } catch (const std::out_of_range&) { thrown = true; }
            try { cx.at(idx); } catch (const std::out_of_range&) { thrown2 = true; }
            PBT_CHECK(c, thrown && thrown2, "at() past the end must throw out_of_range");
        }
    }

    void verify_all()
    {
        for (std::size_t i = 0; i < v.size(); ++i) verify(i);
        if (v.size() > 1)
        {
            const bool eq = m[0] == m[1];
            PBT_CHECK(c, (*v[0] == *v[1]) == eq && (*v[0] != *v[1]) == !eq, "comparison");
        }
        PBT_CHECK(c, *v[0] == *v[0] && !(*v[0] != *v[0]), "self comparison");
    }

    std::size_t small_count()
    {
        if (big && c.coin()) return c.size(big);
        return c.weighted({ 10, 1 }) == 0 ? c.size(2 * N + 3) : c.size(6 * N + 30);
    }

    template <typename U = T>
    std::enable_if_t<std::is_copy_constructible<U>::value, Model> make_range()
    {
        Model r;
        std::size_t n = big && c.coin() ? c.size(big) : c.size(N + 4);
        for (std::size_t k = 0; k < n; ++k) r.push_back(Gen<T>::make(code()));
        return r;
    }

    // Operations that need copyable elements.
    template <typename U = T>
    std::enable_if_t<std::is_copy_constructible<U>::value, bool> copy_ops(std::size_t i)
    {
        SV& x = *v[i];
        Model& y = m[i];
        const std::size_t n = y.size();
        const auto cap = x.capacity();
        const T* data = x.data();
        using S = typename SV::SizeType;
        switch (c.below(16))
        {
        case 0: // push_back(const&), possibly of an own element
        {
            if (n > 0 && c.chance(1, 3))
            {
                std::size_t k = c.below(n);
                c.note_f([&] { return "v" + std::to_string(i) + ".push_back(own element " + std::to_string(k) + ")"; });
                if (n == cap) c.label("own element at full capacity");
                x.push_back(static_cast<const T&>(x[static_cast<S>(k)]));
                y.push_back(T(y[k]));
            }
            else
            {
                const auto e = code();
                const T val = Gen<T>::make(e);
                c.note_f([&] { return "v" + std::to_string(i) + ".push_back(" + Gen<T>::text(val) + ")"; });
                x.push_back(val);
                y.push_back(val);
            }
            if (n < cap) PBT_CHECK(c, x.data() == data && x.capacity() == cap, "push_back within the capacity must not move elements");
            break;
        }
        case 1: // insert(pos, const&)
        {
            std::size_t p = c.size(n);
            T val = Gen<T>::make(code());
            bool own = n > 0 && c.chance(1, 3);
            std::size_t k = own ? c.below(n) : 0;
            if (own) val = y[k];
            c.note_f([&] { return "v" + std::to_string(i) + ".insert(" + std::to_string(p) + ", "
                + (own ? "own element " + std::to_string(k) : Gen<T>::text(val)) + ")"; });
            auto it = own ? x.insert(x.cbegin() + p, static_cast<const T&>(x[static_cast<S>(k)]))
                          : x.insert(x.cbegin() + p, val);
            y.insert(y.begin() + static_cast<std::ptrdiff_t>(p), val);
            PBT_CHECK(c, it == x.begin() + p, "insert() must return an iterator to the new element");
            if (p < n) shifted = true;
            break;
        }
        case 2: // insert(pos, n, value)
        {
            std::size_t p = c.size(n), cnt = c.size(N + 3);
            T val = Gen<T>::make(code());
            bool own = n > 0 && c.chance(1, 3);
            std::size_t k = own ? c.below(n) : 0;
            if (own) val = y[k];
            c.note_f([&] { return "v" + std::to_string(i) + ".insert(" + std::to_string(p) + ", " + std::to_string(cnt)
                + " x " + (own ? "own element " + std::to_string(k) : Gen<T>::text(val)) + ")"; });
            auto it = own ? x.insert(x.cbegin() + p, static_cast<S>(cnt), static_cast<const T&>(x[static_cast<S>(k)]))
                          : x.insert(x.cbegin() + p, static_cast<S>(cnt), val);
            y.insert(y.begin() + static_cast<std::ptrdiff_t>(p), cnt, val);
            PBT_CHECK(c, it == x.begin() + p, "insert() must return an iterator to the first new element");
            if (p < n && cnt > 0) shifted = true;
            break;
        }
        case 3: // insert(pos, range) for several iterator categories
        {
            std::size_t p = c.size(n);
            Model r = make_range();
            const auto kind = c.below(4);
            c.note_f([&] { return "v" + std::to_string(i) + ".insert(" + std::to_string(p) + ", range of "
                + std::to_string(r.size()) + " kind " + std::to_string(kind) + ")"; });
            typename SV::Iterator it;
            if (kind == 0) it = x.insert(x.cbegin() + p, r.begin(), r.end());
            else if (kind == 1) it = x.insert(x.cbegin() + p, r.data(), r.data() + r.size());
            else if (kind == 2)
            {
                std::list<T> l(r.begin(), r.end());
                it = x.insert(x.cbegin() + p, l.begin(), l.end());
            }
            else
            {
                SinglePass<T> f{ std::make_shared<typename SinglePass<T>::State>(typename SinglePass<T>::State{ &r, 0 }) };
                it = x.insert(x.cbegin() + p, f, SinglePass<T>{});
                c.label("single-pass range");
            }
            y.insert(y.begin() + static_cast<std::ptrdiff_t>(p), r.begin(), r.end());
            PBT_CHECK(c, it == x.begin() + p, "insert() must return an iterator to the first new element");
            if (p < n && !r.empty()) shifted = true;
            break;
        }
        case 4: // initializer lists
        {
            const T a = Gen<T>::make(code()), b = Gen<T>::make(code()), d = Gen<T>::make(code());
            const auto kind = c.below(4);
            std::size_t p = c.size(n);
            c.note_f([&] { return "v" + std::to_string(i) + " initializer list kind " + std::to_string(kind) + " at " + std::to_string(p); });
            if (kind == 0)
            {
                auto it = x.insert(x.cbegin() + p, { a, b, d });
                y.insert(y.begin() + static_cast<std::ptrdiff_t>(p), { a, b, d });
                PBT_CHECK(c, it == x.begin() + p, "return value");
                if (p < n) shifted = true;
            }
            else if (kind == 1) { x = { a, b, d }; y = { a, b, d }; }
            else if (kind == 2) { x.assign({ a, b }); y.assign({ a, b }); }
            else
            {
                auto it = x.insert(x.cbegin() + p, std::initializer_list<T>{});
                PBT_CHECK(c, it == x.begin() + p, "return value");
            }
            break;
        }
        case 5: // assign(n, value)
        {
            std::size_t cnt = small_count();
            const T val = Gen<T>::make(code());
            c.note_f([&] { return "v" + std::to_string(i) + ".assign(" + std::to_string(cnt) + ", " + Gen<T>::text(val) + ")"; });
            x.assign(static_cast<S>(cnt), val);
            y.assign(cnt, val);
            break;
        }
        case 6: // assign(range)
        {
            Model r = make_range();
            const auto kind = c.below(3);
            c.note_f([&] { return "v" + std::to_string(i) + ".assign(range of " + std::to_string(r.size()) + " kind " + std::to_string(kind) + ")"; });
            if (kind == 0) x.assign(r.begin(), r.end());
            else if (kind == 1) { std::list<T> l(r.begin(), r.end()); x.assign(l.begin(), l.end()); }
            else
            {
                SinglePass<T> f{ std::make_shared<typename SinglePass<T>::State>(typename SinglePass<T>::State{ &r, 0 }) };
                x.assign(f, SinglePass<T>{});
                c.label("single-pass range");
            }
            y = r;
            break;
        }
        case 7: // resize(n, value), possibly with an own element
        {
            std::size_t cnt = small_count();
            bool own = n > 0 && c.chance(1, 3);
            std::size_t k = own ? c.below(n) : 0;
            T val = own ? y[k] : Gen<T>::make(code());
            c.note_f([&] { return "v" + std::to_string(i) + ".resize(" + std::to_string(cnt) + ", "
                + (own ? "own element " + std::to_string(k) : Gen<T>::text(val)) + ")"; });
            if (own) x.resize(static_cast<S>(cnt), static_cast<const T&>(x[static_cast<S>(k)]));
            else x.resize(static_cast<S>(cnt), val);
            y.resize(cnt, val);
            if (cnt <= n) PBT_CHECK(c, x.capacity() == cap, "shrinking must not change the capacity");
            break;
        }
        case 8: // copy assignment
        {
            std::size_t j = c.below(v.size());
            c.note_f([&] { return "v" + std::to_string(i) + " = v" + std::to_string(j); });
            SV& r = (x = static_cast<const SV&>(*v[j]));
            PBT_CHECK(c, &r == &x, "assignment returns *this");
            y = Model(m[j]);
            break;
        }
        case 9: // copy construction
        {
            if (v.size() >= 3) { v.pop_back(); m.pop_back(); if (i >= v.size()) break; }
            c.note_f([&] { return "new vector copied from v" + std::to_string(i); });
            v.emplace_back(new SV(static_cast<const SV&>(*v[i])));
            m.push_back(Model(m[i]));
            break;
        }
        case 10: // construct from range
        {
            if (v.size() >= 3) { v.pop_back(); m.pop_back(); }
            Model r = make_range();
            const auto kind = c.below(5);
            c.note_f([&] { return "new vector from range of " + std::to_string(r.size()) + " kind " + std::to_string(kind); });
            if (kind == 0) v.emplace_back(new SV(r.begin(), r.end()));
            else if (kind == 1) { std::list<T> l(r.begin(), r.end()); v.emplace_back(new SV(l.begin(), l.end())); }
            else if (kind == 2)
            {
                SinglePass<T> f{ std::make_shared<typename SinglePass<T>::State>(typename SinglePass<T>::State{ &r, 0 }) };
                v.emplace_back(new SV(f, SinglePass<T>{}));
                c.label("single-pass range");
            }
            else if (kind == 3)
            {
                std::size_t cnt = small_count();
                const T val = Gen<T>::make(code());
                v.emplace_back(new SV(static_cast<S>(cnt), val));
                r = Model(cnt, val);
            }
            else
            {
                const T a = Gen<T>::make(code()), b = Gen<T>::make(code());
                v.emplace_back(new SV{ a, b });
                r = { a, b };
            }
            m.push_back(r);
            break;
        }
        case 11: // emplace with an own element
        {
            if (n == 0) return false;
            std::size_t p = c.size(n), k = c.below(n);
            const T val = y[k];
            c.note_f([&] { return "v" + std::to_string(i) + ".emplace(" + std::to_string(p) + ", own element " + std::to_string(k) + ")"; });
            auto it = x.emplace(x.cbegin() + p, static_cast<const T&>(x[static_cast<S>(k)]));
            y.insert(y.begin() + static_cast<std::ptrdiff_t>(p), val);
            PBT_CHECK(c, it == x.begin() + p, "emplace() must return an iterator to the new element");
            if (p < n) shifted = true;
            break;
        }
        case 12: // emplace_back with an own element
        {
            if (n == 0) return false;
            std::size_t k = c.below(n);
            const T val = y[k];
            c.note_f([&] { return "v" + std::to_string(i) + ".emplace_back(own element " + std::to_string(k) + ")"; });
            T& r = x.emplace_back(static_cast<const T&>(x[static_cast<S>(k)]));
            PBT_CHECK(c, &r == &x.back(), "emplace_back() must return a reference to the new element");
            y.push_back(val);
            break;
        }
        default: return false;
        }
        return true;
    }
    template <typename U = T>
    std::enable_if_t<!std::is_copy_constructible<U>::value, bool> copy_ops(std::size_t) { return false; }

    void step()
    {
        const std::size_t i = c.below(v.size());
        if (c.chance(5, 12) && copy_ops(i)) return;
        SV& x = *v[i];
        Model& y = m[i];
        const std::size_t n = y.size();
        const auto cap = x.capacity();
        const T* data = x.data();
        using S = typename SV::SizeType;
        const std::string vi = "v" + std::to_string(i);
        switch (c.weighted({ 6, 4, 3, 3, 4, 4, 3, 2, 2, 2, 2, 2, 2, 2, 2, 2 }))
        {
        case 0: // push_back(&&)
        {
            auto e = code();
            c.note_f([&] { return vi + ".push_back(move " + Gen<T>::text(Gen<T>::make(e)) + ")"; });
            x.push_back(Gen<T>::make(e));
            y.push_back(Gen<T>::make(e));
            if (n < cap) PBT_CHECK(c, x.data() == data && x.capacity() == cap, "push_back within the capacity must not move elements");
            break;
        }
        case 1: // emplace_back
        {
            auto e = code();
            c.note_f([&] { return vi + ".emplace_back(" + Gen<T>::text(Gen<T>::make(e)) + ")"; });
            T& r = x.emplace_back(Gen<T>::make(e));
            PBT_CHECK(c, &r == &x.back(), "emplace_back() must return a reference to the new element");
            y.emplace_back(Gen<T>::make(e));
            break;
        }
        case 2: // emplace
        {
            auto e = code();
            std::size_t p = c.size(n);
            c.note_f([&] { return vi + ".emplace(" + std::to_string(p) + ", " + Gen<T>::text(Gen<T>::make(e)) + ")"; });
            auto it = x.emplace(x.cbegin() + p, Gen<T>::make(e));
            y.emplace(y.begin() + static_cast<std::ptrdiff_t>(p), Gen<T>::make(e));
            PBT_CHECK(c, it == x.begin() + p, "emplace() must return an iterator to the new element");
            if (p < n) shifted = true;
            break;
        }
        case 3: // insert(&&)
        {
            auto e = code();
            std::size_t p = c.size(n);
            c.note_f([&] { return vi + ".insert(" + std::to_string(p) + ", move " + Gen<T>::text(Gen<T>::make(e)) + ")"; });
            auto it = x.insert(x.cbegin() + p, Gen<T>::make(e));
            y.insert(y.begin() + static_cast<std::ptrdiff_t>(p), Gen<T>::make(e));
            PBT_CHECK(c, it == x.begin() + p, "insert() must return an iterator to the new element");
            if (p < n) shifted = true;
            break;
        }
        case 4: // erase one
        {
            if (n == 0) return;
            std::size_t p = c.below(n);
            c.note_f([&] { return vi + ".erase(" + std::to_string(p) + ")"; });
            auto it = x.erase(x.cbegin() + p);
            y.erase(y.begin() + static_cast<std::ptrdiff_t>(p));
            PBT_CHECK(c, it == x.begin() + p, "erase() must return the position after the erased element");
            PBT_CHECK(c, x.capacity() == cap && x.data() == data, "erase() must not reallocate");
            shifted = true;
            break;
        }
        case 5: // erase range
        {
            std::size_t p = c.size(n), q = p + c.size(n - p);
            c.note_f([&] { return vi + ".erase(" + std::to_string(p) + ", " + std::to_string(q) + ")"; });
            auto it = x.erase(x.cbegin() + p, x.cbegin() + q);
            y.erase(y.begin() + static_cast<std::ptrdiff_t>(p), y.begin() + static_cast<std::ptrdiff_t>(q));
            PBT_CHECK(c, it == x.begin() + p, "erase() must return the position after the erased elements");
            PBT_CHECK(c, x.capacity() == cap && x.data() == data, "erase() must not reallocate");
            if (p == q && p < n) c.label("empty range erased in front of elements");
            shifted = true;
            break;
        }
        case 6: // pop_back
            if (n == 0) return;
            c.note(vi + ".pop_back()");
            x.pop_back();
            y.pop_back();
            PBT_CHECK(c, x.capacity() == cap && x.data() == data, "pop_back() must not reallocate");
            break;
        case 7:
            c.note(vi + ".clear()");
            x.clear();
            y.clear();
            PBT_CHECK(c, x.capacity() == cap, "clear() must not change the capacity");
            break;
        case 8:
        {
            std::size_t r = small_count();
            c.note_f([&] { return vi + ".reserve(" + std::to_string(r) + ")"; });
            x.reserve(static_cast<S>(r));
            PBT_CHECK(c, x.capacity() >= r && x.capacity() >= cap, "reserve()");
            if (r <= cap) PBT_CHECK(c, x.capacity() == cap && x.data() == data, "reserve() within the capacity does nothing");
            break;
        }
        case 9:
        {
            std::size_t r = small_count();
            c.note_f([&] { return vi + ".resize(" + std::to_string(r) + ")"; });
            x.resize(static_cast<S>(r));
            y.resize(r);
            if (r <= n) PBT_CHECK(c, x.capacity() == cap && x.data() == data, "shrinking resize() must not change the capacity");
            break;
        }
        case 10:
            c.note(vi + ".shrink_to_fit()");
            x.shrink_to_fit();
            PBT_CHECK(c, x.capacity() == std::max<std::size_t>(N, n), "capacity after shrink_to_fit: " << x.capacity());
            break;
        case 11: // swap
        {
            std::size_t j = c.below(v.size());
            bool freefn = c.coin();
            c.note_f([&] { return std::string(freefn ? "swap(" : "member swap(") + vi + ", v" + std::to_string(j) + ")"; });
            if (freefn) swap(x, *v[j]);
            else x.swap(*v[j]);
            if (i != j) std::swap(m[i], m[j]);
            break;
        }
        case 12: // move assignment
        {
            std::size_t j = c.below(v.size());
            c.note_f([&] { return vi + " = move v" + std::to_string(j); });
            SV& other = *v[j];
            SV& r = (x = std::move(other));
            PBT_CHECK(c, &r == &x, "assignment returns *this");
            if (i != j)
            {
                PBT_CHECK(c, other.empty(), "the source of a move assignment must be empty");
                m[i] = std::move(m[j]);
                m[j].clear();
            }
            break;
        }
        case 13: // move construction
        {
            if (v.size() >= 3) { v.pop_back(); m.pop_back(); if (i >= v.size()) return; }
            c.note("new vector moved from " + vi);
            v.emplace_back(new SV(std::move(*v[i])));
            PBT_CHECK(c, v[i]->empty(), "the source of a move construction must be empty");
            Model t = std::move(m[i]);
            m[i].clear();
            m.push_back(std::move(t));
            break;
        }
        case 14: // SmallVector(n)
        {
            if (v.size() >= 3) { v.pop_back(); m.pop_back(); }
            std::size_t r = small_count();
            c.note_f([&] { return "new vector(" + std::to_string(r) + ")"; });
            v.emplace_back(new SV(static_cast<S>(r)));
            Model t(r);
            m.push_back(std::move(t));
            break;
        }
        default: // modify an element through a reference / iterator
        {
            if (n == 0) return;
            std::size_t k = c.below(n);
            auto e = code();
            const auto how = c.below(4);
            c.note_f([&] { return vi + "[" + std::to_string(k) + "] = " + Gen<T>::text(Gen<T>::make(e)); });
            if (how == 0) x[static_cast<S>(k)] = Gen<T>::make(e);
            else if (how == 1) x.at(static_cast<S>(k)) = Gen<T>::make(e);
            else if (how == 2) *(x.begin() + k) = Gen<T>::make(e);
            else *(x.rend() - 1 - static_cast<std::ptrdiff_t>(k)) = Gen<T>::make(e);
            y[k] = Gen<T>::make(e);
            break;
        }
        }
    }

    void run()
    {
        std::size_t n = 0, max = c.chance(1, 4) ? 60 : 14;
        if (c.chance(1, 50)) { big = c.pick<std::size_t>({ 40, 140, 300, 1100 }); max = 10; }
        while (c.more(n, max, max))
        {
            step();
            verify_all();
            for (auto& p : v) if (p->capacity() > N) grew = true;
        }
        if (grew && shifted) c.nontrivial();
        c.label_if(grew, "left the inner storage");
        c.label_if(shifted, "elements shifted");
        // destroyed in arbitrary order
        while (!v.empty())
        {
            std::size_t k = c.below(v.size());
            v.erase(v.begin() + static_cast<std::ptrdiff_t>(k));
            m.erase(m.begin() + static_cast<std::ptrdiff_t>(k));
            for (std::size_t i = 0; i < v.size(); ++i) verify(i);
        }
    }
};

} // namespace
#endif
