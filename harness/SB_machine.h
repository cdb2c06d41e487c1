// Model-based machine for SlidingBuffer and SlidingBufferExposed (C03, C04).
#ifndef SB_MACHINE_H_
#define SB_MACHINE_H_
#include "pbt.h"
#include "gul14/SlidingBuffer.h"
#include <deque>

namespace sb {
using pbt::Ctx;
using gul14::ShrinkBehavior;

template <typename T> struct Elem;
template <> struct Elem<int>
{
    static int make(long x) { return static_cast<int>(x); }
    static long id(int v) { return v; }
};
template <> struct Elem<std::string>
{
    static std::string make(long x) { return "element number " + std::to_string(x); }
    static long id(const std::string& s) { return s.empty() ? 0 : std::atol(s.c_str() + 15); }
};
template <> struct Elem<std::shared_ptr<long>>
{
    static std::shared_ptr<long> make(long x) { return std::make_shared<long>(x); }
    static long id(const std::shared_ptr<long>& p) { return p ? *p : 0; }
};

inline std::ostream& put(std::ostream& o, const std::deque<long>& m)
{
    o << "[";
    for (auto x : m) o << x << " ";
    return o << "]";
}
struct Sh { const std::deque<long>& m; };
inline std::ostream& operator<<(std::ostream& o, Sh s) { return put(o, s.m); }

// resize is only instantiated for dynamic capacities
template <typename B>
void do_resize(B& b, std::size_t n, ShrinkBehavior s, bool res, bool def, std::true_type)
{
    if (def) { if (res) b.reserve(n); else b.resize(n); }
    else { if (res) b.reserve(n, s); else b.resize(n, s); }
}
template <typename B>
void do_resize(B&, std::size_t, ShrinkBehavior, bool, bool, std::false_type) {}
template <typename B> B make_buf(std::size_t n, std::true_type) { return B(n); }
template <typename B> B make_buf(std::size_t, std::false_type) { return B{}; }

template <typename T> bool print_text(const std::deque<long>&, std::string&) { return false; }
template <> inline bool print_text<int>(const std::deque<long>& m, std::string& out)
{
    for (auto x : m) out += std::to_string(x) + "  ";
    out += "\n";
    return true;
}
template <typename B> void do_print(std::ostream& o, const B& b, std::true_type) { o << b; }
template <typename B> void do_print(std::ostream&, const B&, std::false_type) {}

template <typename T, std::size_t Cap, bool Exposed>
struct Machine
{
    using Buf = std::conditional_t<Exposed, gul14::SlidingBufferExposed<T, Cap>,
                                   gul14::SlidingBuffer<T, Cap>>;
    using Dyn = std::integral_constant<bool, Cap == 0>;
    using E = Elem<T>;

    struct Slot
    {
        std::unique_ptr<Buf> b;
        std::deque<long> m;
        std::size_t cap = 0;
        bool alive = true;         // false: moved from
        bool only_back = true, only_front = true; // how it was filled since it was empty
    };

    Ctx& c;
    std::array<Slot, 2> s;
    long next = 0;
    int side = 0;      // 0: push at both ends, 1: only at the back, 2: only at the front
    bool pops = true;
    bool slid = false, wrapped_resize = false, popped = false;

    std::size_t big = 0; // some histories use large buffers

    explicit Machine(Ctx& ctx) : c(ctx)
    {
        if (!Cap && c.chance(1, 40)) big = c.pick<std::size_t>({ 40, 140, 300, 700 });
        for (auto& x : s) fresh(x);
        side = static_cast<int>(c.weighted({ 6, 1, 1 }));
        pops = side == 0 || c.chance(1, 3);
    }

    void fresh(Slot& x)
    {
        x = Slot{};
        x.cap = Cap ? Cap : c.size(big && c.coin() ? big : 9);
        if (!Cap && c.chance(1, 4)) { x.cap = 0; x.b.reset(new Buf()); }
        else x.b.reset(new Buf(make_buf<Buf>(x.cap, Dyn{})));
    }

    // ---------------------------------------------------------------- observation
    void check(Slot& x)
    {
        Buf& b = *x.b;
        const Buf& k = b;
        const auto& m = x.m;
        const std::size_t n = m.size();
        PBT_CHECK(c, k.size() == n, k.size() << " != " << n << " for " << Sh{ m });
        PBT_CHECK(c, k.capacity() == x.cap, k.capacity() << " != " << x.cap);
        PBT_CHECK(c, k.empty() == m.empty(), "size " << n);
        PBT_CHECK(c, k.filled() == (x.cap > 0 && n == x.cap), "size " << n << " capacity " << x.cap);
        for (std::size_t i = 0; i < n; ++i)
        {
            PBT_CHECK(c, E::id(k[i]) == m[i], "index " << i << ": " << E::id(k[i]) << ", expected " << Sh{ m });
            PBT_CHECK(c, &b[i] == &k[i], "index " << i);
            PBT_CHECK(c, &b.at(i) == &k[i] && &k.at(i) == &k[i], "at(" << i << ")");
        }
        if (n > 0)
        {
            PBT_CHECK(c, &b.front() == &k[0] && &k.front() == &k[0], "front");
            PBT_CHECK(c, &b.back() == &k[n - 1] && &k.back() == &k[n - 1], "back");
        }
        for (std::size_t i : { n, n + 1, x.cap, x.cap + 1, ~std::size_t{ 0 } })
        {
            if (i < n || !c.chance(1, 40)) continue;
            bool t1 = false, t2 = false;
            try { (void)b.at(i); } catch (const std::out_of_range&) { t1 = true; }
            try { (void)k.at(i); } catch (const std::out_of_range&) { t2 = true; }
            PBT_CHECK(c, t1 && t2, "at(" << i << ") with size " << n << " did not throw");
        }
        range(x, std::integral_constant<bool, Exposed>{});
        std::string text;
        if (print_text<T>(m, text))
        {
            std::ostringstream o;
            do_print(o, k, std::is_same<T, int>{});
            PBT_CHECK(c, o.str() == text, pbt::show(o.str()) << " != " << pbt::show(text));
        }
    }

    // The logical iterators of the plain buffer
    void range(Slot& x, std::false_type)
    {
        Buf& b = *x.b;
        const Buf& k = b;
        const auto& m = x.m;
        const auto n = static_cast<std::ptrdiff_t>(m.size());
        auto is = [&](const std::vector<long>& v, const char* what) {
            PBT_CHECK(c, std::equal(v.begin(), v.end(), m.begin(), m.end()),
                what << " gives " << pbt::show(v) << ", expected " << Sh{ m });
        };
        std::vector<long> v;
        for (auto& e : b) v.push_back(E::id(e));
        is(v, "begin..end"); v.clear();
        for (auto& e : k) v.push_back(E::id(e));
        is(v, "const begin..end"); v.clear();
        for (auto it = k.cbegin(); it != k.cend(); it++) v.push_back(E::id(*it));
        is(v, "cbegin..cend"); v.clear();
        for (auto it = b.rbegin(); it != b.rend(); ++it) v.push_back(E::id(*it));
        std::reverse(v.begin(), v.end()); is(v, "rbegin..rend"); v.clear();
        for (auto it = k.crbegin(); it != k.crend(); ++it) v.push_back(E::id(*it));
        std::reverse(v.begin(), v.end()); is(v, "crbegin..crend");
        PBT_CHECK(c, b.end() - b.begin() == n && k.end() - k.begin() == n && k.cend() - k.cbegin() == n, "distance");
        PBT_CHECK(c, (b.begin() == b.end()) == (n == 0), "begin() == end() with size " << n);
        PBT_CHECK(c, (k.begin() == k.end()) == (n == 0), "begin() == end() with size " << n);
        if (n > 0 && c.chance(1, 4))
        {
            const auto i = c.range(0, n - 1), j = c.range(0, n);
            auto a = b.begin() + i;
            auto d = j + b.begin();
            auto ca = k.cbegin() + i;
            PBT_CHECK(c, d - a == j - i && a - d == i - j, i << "," << j);
            PBT_CHECK(c, (a < d) == (i < j) && (a <= d) == (i <= j) && (a > d) == (i > j)
                && (a >= d) == (i >= j) && (a == d) == (i == j) && (a != d) == (i != j), i << "," << j);
            auto u = a; u += j - i; PBT_CHECK(c, u == d, "+=");
            u -= j - i; PBT_CHECK(c, u == a, "-=");
            u = d - (j - i); PBT_CHECK(c, u == a, "-");
            PBT_CHECK(c, &*a == &b[static_cast<std::size_t>(i)] && &*ca == &b[static_cast<std::size_t>(i)], "deref " << i);
            if (j < n) PBT_CHECK(c, &a[j - i] == &b[static_cast<std::size_t>(j)], "subscript");
            auto p = a++; PBT_CHECK(c, p - b.begin() == i && a - b.begin() == i + 1, "post++");
            auto q = a--; PBT_CHECK(c, q - b.begin() == i + 1 && a - b.begin() == i, "post--");
            ++a; PBT_CHECK(c, a - p == 1, "pre++"); --a; PBT_CHECK(c, a == p, "pre--");
        }
    }

    // The raw iterators of the exposed buffer
    void range(Slot& x, std::true_type)
    {
        Buf& b = *x.b;
        const Buf& k = b;
        const auto& m = x.m;
        std::vector<long> v, w;
        for (auto& e : b) v.push_back(E::id(e));
        for (auto& e : k) w.push_back(E::id(e));
        PBT_CHECK(c, v == w, "const and non-const iteration differ");
        w.clear();
        for (auto it = k.cbegin(); it != k.cend(); ++it) w.push_back(E::id(*it));
        PBT_CHECK(c, v == w, "cbegin/cend differ from begin/end");
        w.clear();
        for (auto it = b.rbegin(); it != b.rend(); ++it) w.push_back(E::id(*it));
        std::reverse(w.begin(), w.end());
        PBT_CHECK(c, v == w, "rbegin/rend differ from begin/end");
        w.clear();
        for (auto it = k.crbegin(); it != k.crend(); ++it) w.push_back(E::id(*it));
        std::reverse(w.begin(), w.end());
        PBT_CHECK(c, v == w, "crbegin/crend differ from begin/end");

        PBT_CHECK(c, v.size() <= x.cap, "iteration visits " << v.size() << " elements, capacity " << x.cap);
        if (m.empty()) PBT_CHECK(c, v.empty(), "an empty buffer iterates over " << pbt::show(v));
        // every stored object is visited exactly once
        std::map<const void*, int> seen;
        for (auto& e : k) ++seen[&e];
        for (std::size_t i = 0; i < m.size(); ++i)
            PBT_CHECK(c, seen[&k[i]] == 1, "element " << i << " of " << Sh{ m } << " is visited "
                << seen[&k[i]] << " times; iteration gives " << pbt::show(v));
        const bool full = x.cap > 0 && m.size() == x.cap;
        if (full || x.only_back || x.only_front)
            PBT_CHECK(c, v.size() == m.size(), "iteration visits " << pbt::show(v) << ", stored are " << Sh{ m });
    }

    // ---------------------------------------------------------------- operations
    void push(Slot& x, bool back)
    {
        Buf& b = *x.b;
        if (side) back = side == 1;
        const bool full = x.m.size() == x.cap;
        long id;
        const auto how = c.weighted({ 4, 4, 1 });
        if (how == 2 && !x.m.empty()) // an element of the buffer itself
        {
            const auto i = c.below(x.m.size());
            id = x.m[i];
            const Buf& k = b;
            if (back) b.push_back(k[i]); else b.push_front(k[i]);
        }
        else
        {
            id = ++next;
            if (how == 0)
            {
                const T v = E::make(id);
                if (back) b.push_back(v); else b.push_front(v);
                PBT_CHECK(c, E::id(v) == id, "the argument was modified");
            }
            else if (back) b.push_back(E::make(id));
            else b.push_front(E::make(id));
        }
        if (back) { x.m.push_back(id); if (full) x.m.pop_front(); x.only_front = false; }
        else
        {
            x.m.push_front(id);
            if (full) x.m.pop_back();
            x.only_back = false;
        }
        slid |= full;
        c.note_f([&] { return std::string(back ? "push_back " : "push_front ") + std::to_string(id); });
    }

    void step()
    {
        Slot& x = s[c.below(s.size())];
        if (!x.alive) // a moved-from buffer may be assigned to or destroyed
        {
            Slot& y = s[0].alive ? s[0] : s[1];
            if (c.coin() && y.alive) { *x.b = *y.b; copy_model(x, y); }
            else fresh(x);
            return;
        }
        Buf& b = *x.b;
        const auto n = x.m.size();
        switch (c.weighted({ 14, 8, 4, 4, 1, 5, 2, 1, 2, 1, 2 }))
        {
        case 0: if (x.cap) push(x, true); break;
        case 1: if (x.cap) push(x, false); break;
        case 2:
            if (!n || !pops) break;
            b.pop_back(); x.m.pop_back(); popped = true;
            x.only_back = x.only_front = false;
            c.note("pop_back");
            break;
        case 3:
            if (!n || !pops) break;
            b.pop_front(); x.m.pop_front(); popped = true;
            x.only_back = x.only_front = false;
            c.note("pop_front");
            break;
        case 4:
            b.clear(); x.m.clear(); x.only_back = x.only_front = true;
            for (std::size_t i = 0; i < x.cap; ++i)
                PBT_CHECK(c, E::id(b[i]) == 0, "clear() kept an element alive in slot " << i);
            c.note("clear");
            break;
        case 5: // capacity change
        {
            if (Cap) { if (x.cap) push(x, c.coin()); break; }
            const std::size_t cap = c.size(big && c.coin() ? big : 10);
            const bool keep_back = c.coin(), res = c.coin(), def = !keep_back && c.coin();
            const bool was_full = n == x.cap && n > 0;
            if (n > 0 && cap != x.cap) wrapped_resize = true;
            do_resize(b, cap, keep_back ? ShrinkBehavior::keep_back_elements
                                        : ShrinkBehavior::keep_front_elements, res, def, Dyn{});
            while (x.m.size() > cap) { if (keep_back) x.m.pop_front(); else x.m.pop_back(); }
            if (cap != x.cap && (keep_back || was_full || cap == 0)) x.only_front = false;
            x.cap = cap;
            if (x.m.empty()) {}
            c.note_f([&] { return std::string(res ? "reserve(" : "resize(") + std::to_string(cap)
                + (keep_back ? ", keep_back)" : ", keep_front)"); });
            break;
        }
        case 6: // write through the access functions
        {
            if (!n) break;
            const auto i = c.below(n);
            const long id = ++next;
            switch (c.below(4))
            {
            case 0: b[i] = E::make(id); x.m[i] = id; break;
            case 1: b.at(i) = E::make(id); x.m[i] = id; break;
            case 2: b.front() = E::make(id); x.m.front() = id; break;
            default: b.back() = E::make(id); x.m.back() = id; break;
            }
            c.note("write " + std::to_string(i));
            break;
        }
        case 7: fresh(x); c.note("fresh"); break;
        case 8: // copy
        {
            Slot& y = s[c.below(s.size())];
            if (!y.alive) break;
            if (c.coin() && &x != &y) x.b.reset(new Buf(*y.b));
            else { const Buf& src = *y.b; *x.b = src; }
            if (&x != &y) copy_model(x, y);
            c.note("copy");
            break;
        }
        case 9: // move
        {
            Slot& y = s[c.below(s.size())];
            if (!y.alive || &x == &y) break;
            if (c.coin()) x.b.reset(new Buf(std::move(*y.b)));
            else *x.b = std::move(*y.b);
            copy_model(x, y);
            y.alive = false;
            c.note("move");
            break;
        }
        default: algorithm(x, std::integral_constant<bool, Exposed>{}); break;
        }
    }
    static void copy_model(Slot& x, Slot& y)
    {
        x.m = y.m; x.cap = y.cap; x.alive = true; x.only_back = y.only_back; x.only_front = y.only_front;
    }

    // Algorithms through the iterators, and iterators kept across pushes.
    void algorithm(Slot& x, std::false_type)
    {
        Buf& b = *x.b;
        const auto n = x.m.size();
        switch (c.below(5))
        {
        case 0: std::reverse(b.begin(), b.end()); std::reverse(x.m.begin(), x.m.end()); break;
        case 1:
            std::sort(b.begin(), b.end(), [](const T& p, const T& q) { return E::id(p) < E::id(q); });
            std::sort(x.m.begin(), x.m.end());
            break;
        case 2:
        {
            const auto i = static_cast<std::ptrdiff_t>(c.size(n));
            std::rotate(b.begin(), b.begin() + i, b.end());
            std::rotate(x.m.begin(), x.m.begin() + i, x.m.end());
            break;
        }
        case 3:
        {
            const long id = ++next;
            std::fill(b.rbegin(), b.rend(), E::make(id));
            std::fill(x.m.begin(), x.m.end(), id);
            break;
        }
        default: // an iterator stays at its logical position while elements slide past it
        {
            if (!n || !x.cap) break;
            const auto i = c.below(n);
            auto it = b.begin() + static_cast<std::ptrdiff_t>(i);
            auto ct = static_cast<const Buf&>(b).begin() + static_cast<std::ptrdiff_t>(i);
            for (auto k = c.below(4) + 1; k--; ) push(x, c.coin());
            PBT_CHECK(c, E::id(*it) == x.m[i] && E::id(*ct) == x.m[i] && &*it == &b[i],
                "iterator at logical position " << i << " gives " << E::id(*it) << ", expected " << Sh{ x.m });
            PBT_CHECK(c, it - b.begin() == static_cast<std::ptrdiff_t>(i), "position " << i);
        }
        }
        c.note("algorithm");
    }
    void algorithm(Slot& x, std::true_type)
    {
        // writing through the raw iterators reaches the elements
        Buf& b = *x.b;
        const long add = 100000;
        if (next > 1000000) return;
        for (auto& e : b) { const long id = E::id(e); if (id) e = E::make(id + add); }
        for (auto& id : x.m) id += add;
        next += add;
        c.note("write all");
    }

    void run()
    {
        std::size_t n = 0;
        while (c.more(n, big ? 20 : 40, big ? 60 : 250))
        {
            if (big && c.chance(1, 3) && s[0].alive && s[0].cap) // many elements at a time
            {
                const bool back = c.coin();
                for (std::size_t k = c.size(s[0].cap + 20); k--; ) push(s[0], back);
            }
            step();
            for (auto& x : s) if (x.alive) check(x);
        }
        if (slid && popped && (Cap || wrapped_resize)) c.nontrivial();
        c.label_if(slid, "a push into a full buffer");
        c.label_if(wrapped_resize, "capacity change of a non-empty buffer");
    }
};

} // namespace sb
#endif
