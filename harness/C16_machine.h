// Differential check of gul14::basic_string_view<Char> against std::basic_string<Char>.
#include "strs.h"
#include <iomanip>
using namespace strs;

template <typename Char>
struct ViewCheck
{
    using S = std::basic_string<Char>;
    using V = gul14::basic_string_view<Char>;
    pbt::Ctx& c;
    S text, pat;
    static constexpr std::size_t npos = static_cast<std::size_t>(-1);

    static std::string show(const S& s)
    {
        std::string r = "\"";
        for (Char x : s)
        {
            const unsigned long u = static_cast<unsigned long>(static_cast<std::make_unsigned_t<Char>>(x));
            char b[20];
            if (u >= 32 && u < 127 && u != '"' && u != '\\') r += static_cast<char>(u);
            else { std::snprintf(b, sizeof b, "\\x{%lx}", u); r += b; }
        }
        return r + "\"";
    }
    Char any()
    {
        switch (c.weighted({ 6, 2, 2 }))
        {
        case 0: return static_cast<Char>('a' + c.below(3));
        case 1: return static_cast<Char>(c.below(256));
        default:
            return sizeof(Char) == 1 ? c.pick<Char>({ Char(0), Char(' '), Char(0x7f), Char(0x80), Char(0xff) })
                : c.pick<Char>({ Char(0), Char(0x7f), Char(0x80), Char(0xff), Char(0x100), Char(0x161), Char(0x7fff),
                    Char(0x8000), Char(0xffff), Char(sizeof(Char) > 2 ? 0x10000 + 'a' : 'a') });
        }
    }
    S gen_text(std::size_t longest)
    {
        S alpha;
        for (std::size_t n = 1 + c.below(4); n > 0; --n) alpha += any();
        S s;
        for (std::size_t n = length(c, longest); n > 0; --n)
            s += c.chance(1, 12) ? any() : alpha[c.below(alpha.size())];
        return sometimes_huge(c, std::move(s));
    }
    S gen_pat()
    {
        S p;
        if (c.chance(1, 10)) return p;
        if (!text.empty() && c.chance(3, 4))
        {
            const std::size_t a = c.below(text.size());
            if (text.size() > 4000) // the comparison with the definition takes (text - pattern) * pattern steps
            {
                if (!c.chance(1, 4)) p = text.substr(a, 1 + c.below(4));
                else p = text.substr(c.below(3));
            }
            else
                p = text.substr(a, 1 + c.below(c.chance(1, 4) ? text.size() : 4));
            if (c.chance(1, 4)) p[c.below(p.size())] = any();
            if (c.chance(1, 6)) p += any();
        }
        else
            for (std::size_t n = 1 + c.below(c.chance(1, 6) ? 60 : 5); n > 0; --n) p += any();
        return p;
    }
    std::size_t position(std::size_t n)
    {
        switch (c.weighted({ 10, 3, 2, 2 }))
        {
        case 0: return c.below(n + 1);
        case 1: return n + c.below(3);
        case 2: return npos - c.below(3);
        default: return c.pick<std::size_t>({ npos - n, npos - n / 2, npos / 2, npos / 2 + 1, std::size_t{ 1 } << 32,
                                              npos - n - 1, npos - n + 1 });
        }
    }
    static int sign(int x) { return (x > 0) - (x < 0); }

    void eq(std::size_t got, std::size_t want, const char* what)
    {
        PBT_CHECK(c, got == want, what << " gives " << static_cast<long long>(got) << " instead of "
            << static_cast<long long>(want));
    }
    /// Both sides evaluated; same value or same exception.
    template <typename F, typename G>
    void same(F f, G g, const char* what)
    {
        int ge = 0, we = 0;
        S got, want;
        try { want = g(); } catch (const std::out_of_range&) { we = 1; }
        try { got = f(); } catch (const std::out_of_range&) { ge = 1; }
        PBT_CHECK(c, ge == we, what << (we ? " does not throw std::out_of_range" : " throws std::out_of_range"));
        PBT_CHECK(c, got == want, what << " gives " << show(got) << " instead of " << show(want));
        if (we) c.label("out_of_range");
    }
    static S num(int x) { return S(1, static_cast<Char>('b' + sign(x))); }
    static S cstr(const S& s) { return s.substr(0, s.find(Char(0))); }
    static S mk(V v) { return S(v.begin(), v.end()); }

    void run()
    {
        text = gen_text(c.tier ? 3000 : 600);
        pat = gen_pat();
        const std::size_t pos = position(text.size()), n = position(text.size());
        const Char ch = !text.empty() && c.chance(3, 4) ? text[c.below(text.size())] : any();
        c.note_f([&] { return "text " + show(text) + ", pattern " + show(pat) + ", pos "
            + std::to_string(static_cast<long long>(pos)) + ", n " + std::to_string(static_cast<long long>(n))
            + ", char " + show(S(1, ch)); });
        if (text.size() > 1 && !pat.empty() && pat.size() <= text.size()) c.nontrivial();
        const BasicBuf<Char> bt(text), bp(pat);
        const S cp = cstr(pat);
        const V v = bt.sv(), p = bp.sv();
        std::size_t op = c.below(4);
        if (op == 1 && text.size() > 4000 && pat.size() > 4000) op = 2; // searching takes quadratic time
        switch (op)
        {
        case 0: access(v, pos, n); break;
        case 1: search(v, p, bp.data(), cp, pos, ch); break;
        case 2: compare(v, p, bp.data(), cp, pos, n); break;
        default: misc(v, p, cp, pos, n); break;
        }
        PBT_CHECK(c, mk(v) == text && mk(p) == pat, "a viewed string changed");
    }

    void access(V v, std::size_t pos, std::size_t n)
    {
        eq(v.size(), text.size(), "size()");
        eq(v.length(), text.size(), "length()");
        PBT_CHECK(c, v.empty() == text.empty(), "empty()");
        PBT_CHECK(c, std::equal(v.begin(), v.end(), text.begin(), text.end()), "iteration");
        PBT_CHECK(c, std::equal(v.cbegin(), v.cend(), text.begin(), text.end()), "const iteration");
        PBT_CHECK(c, std::equal(v.rbegin(), v.rend(), text.rbegin(), text.rend()), "reverse iteration");
        PBT_CHECK(c, std::equal(v.crbegin(), v.crend(), text.rbegin(), text.rend()), "const reverse iteration");
        if (!text.empty())
        {
            PBT_CHECK(c, v.front() == text.front() && v.back() == text.back(), "front()/back()");
            const std::size_t i = pos % text.size();
            PBT_CHECK(c, v[i] == text[i], "operator[](" << i << ")");
            PBT_CHECK(c, &v[i] == v.data() + i, "operator[] address");
        }
        same([&] { return S(1, v.at(pos)); }, [&] { return S(1, text.at(pos)); }, "at(pos)");
        same([&] { return mk(v.substr(pos, n)); }, [&] { return text.substr(pos, n); }, "substr(pos, n)");
        same([&] { return mk(v.substr(pos)); }, [&] { return text.substr(pos); }, "substr(pos)");
        if (pos <= text.size()) PBT_CHECK(c, v.substr(pos, n).data() == v.data() + pos, "substr() address");
        same([&] { S b(text.size() + 2, Char('#')); auto k = v.copy(&b[0], n, pos); return b + S(k, Char('k')); },
             [&] { S b(text.size() + 2, Char('#')); auto k = text.copy(&b[0], n, pos); return b + S(k, Char('k')); },
             "copy(p, n, pos)");
        { // the copy must not write more than it says
            std::size_t k = std::min(n, text.size());
            std::unique_ptr<Char[]> exact(new Char[k]);
            eq(v.copy(exact.get(), n), k, "copy(p, n)");
            PBT_CHECK(c, std::equal(exact.get(), exact.get() + k, text.begin()), "copy(p, n) contents");
        }
        { // prefix and suffix removal
            const std::size_t a = text.empty() ? 0 : c.below(text.size() + 1);
            V w = v;
            w.remove_prefix(a);
            PBT_CHECK(c, mk(w) == text.substr(a) && w.data() == v.data() + a, "remove_prefix(" << a << ")");
            const std::size_t b = c.below(w.size() + 1);
            const std::size_t rest = w.size() - b;
            w.remove_suffix(b);
            PBT_CHECK(c, mk(w) == text.substr(a, rest) && w.data() == v.data() + a, "remove_suffix(" << b << ")");
        }
    }

    void search(V v, V p, const Char* raw, const S& cp, std::size_t pos, Char ch)
    {
#define FIND(f, defpos)                                                                          \
    eq(v.f(p, pos), text.f(pat, pos), #f "(view, pos)");                                         \
    eq(v.f(p), text.f(pat), #f "(view)");                                                        \
    eq(v.f(ch, pos), text.f(ch, pos), #f "(char, pos)");                                         \
    eq(v.f(ch), text.f(ch), #f "(char)");                                                        \
    eq(v.f(raw, pos, pat.size()), text.f(pat.data(), pos, pat.size()), #f "(pointer, pos, n)");  \
    eq(v.f(raw, pos, pat.size() / 2), text.f(pat.data(), pos, pat.size() / 2), #f "(pointer, pos, n)"); \
    eq(v.f(cp.c_str(), pos), text.f(cp.c_str(), pos), #f "(C string, pos)");                     \
    eq(v.f(cp.c_str()), text.f(cp.c_str()), #f "(C string)");
        FIND(find, 0)
        FIND(rfind, npos)
        FIND(find_first_of, 0)
        FIND(find_last_of, npos)
        FIND(find_first_not_of, 0)
        FIND(find_last_not_of, npos)
#undef FIND
    }

    void compare(V v, V p, const Char* raw, const S& cp, std::size_t pos, std::size_t n)
    {
        const std::size_t pos2 = position(pat.size()), n2 = position(pat.size());
        c.note_f([&] { return "pos2 " + std::to_string(static_cast<long long>(pos2)) + ", n2 "
            + std::to_string(static_cast<long long>(n2)); });
        same([&] { return num(v.compare(p)); }, [&] { return num(text.compare(pat)); }, "compare(view)");
        same([&] { return num(v.compare(cp.c_str())); }, [&] { return num(text.compare(cp.c_str())); }, "compare(C string)");
        same([&] { return num(v.compare(pos, n, p)); }, [&] { return num(text.compare(pos, n, pat)); }, "compare(pos, n, view)");
        same([&] { return num(v.compare(pos, n, p, pos2, n2)); },
             [&] { return num(text.compare(pos, n, pat, pos2, n2)); }, "compare(pos, n, view, pos2, n2)");
        same([&] { return num(v.compare(pos, n, cp.c_str())); },
             [&] { return num(text.compare(pos, n, cp.c_str())); }, "compare(pos, n, C string)");
        same([&] { return num(v.compare(pos, n, raw, pat.size())); },
             [&] { return num(text.compare(pos, n, pat.data(), pat.size())); }, "compare(pos, n, pointer, n2)");
        const S zt = cp; // C string operand
#define REL(op)                                                                          \
    PBT_CHECK(c, (v op p) == (text op pat), "view " #op " view");                        \
    PBT_CHECK(c, (v op pat) == (text op pat), "view " #op " string");                    \
    PBT_CHECK(c, (text op p) == (text op pat), "string " #op " view");                   \
    PBT_CHECK(c, (v op zt.c_str()) == (text op zt), "view " #op " C string");            \
    PBT_CHECK(c, (zt.c_str() op v) == (zt op text), "C string " #op " view");
        REL(==) REL(!=) REL(<) REL(>) REL(<=) REL(>=)
#undef REL
        PBT_CHECK(c, v == V(text) && !(v != V(text)) && v.compare(V(text)) == 0, "a view differs from an equal one");
    }

    void misc(V v, V p, const S& cp, std::size_t, std::size_t)
    {
        PBT_CHECK(c, mk(V(text)) == text && V(text).data() == text.data(), "construction from a string");
        PBT_CHECK(c, mk(V(cp.c_str())) == cp, "construction from a C string");
        PBT_CHECK(c, V().empty() && V().size() == 0 && V() == V(text).substr(0, 0), "default construction");
        PBT_CHECK(c, static_cast<S>(v) == text, "conversion to a string");
        V a = v, b = p;
        a.swap(b);
        PBT_CHECK(c, mk(a) == pat && mk(b) == text, "swap()");
        std::swap(a, b);
        PBT_CHECK(c, mk(a) == text && mk(b) == pat, "std::swap()");
        a = b;
        PBT_CHECK(c, mk(a) == pat && a.data() == b.data(), "assignment");
        stream(v, std::is_same<Char, char>{});
        stream(v, std::is_same<Char, wchar_t>{});
        plus(v, p, std::is_same<Char, char>{});
    }
    void stream(V, std::false_type) {}
    void stream(V v, std::true_type)
    {
        const int width = static_cast<int>(c.coin() ? c.below(12) : c.below(2 * text.size() + 30));
        const unsigned adj = static_cast<unsigned>(c.below(4));
        const Char fill = any();
        auto put = [&](std::basic_ostringstream<Char>& os, auto&& x) {
            os << Char('<');
            os.width(width);
            os.fill(fill);
            if (adj == 1) os << std::left;
            if (adj == 2) os << std::right;
            if (adj == 3) os << std::internal;
            os << x;
            const auto w = os.width();
            os << Char('>');
            return w;
        };
        std::basic_ostringstream<Char> x, y;
        const auto w1 = put(x, v), w2 = put(y, text);
        c.note_f([&] { return "stream output with width " + std::to_string(width) + ", adjustment " + std::to_string(adj); });
        PBT_CHECK(c, x.str() == y.str(), "stream output " << show(x.str()) << " instead of " << show(y.str()));
        PBT_CHECK(c, w1 == w2, "stream width afterwards");
        std::basic_ostringstream<Char> bad;
        bad.setstate(std::ios::failbit);
        bad << v;
        PBT_CHECK(c, bad.str().empty() && !bad.good(), "output to a failed stream");
    }
    void plus(V, V, std::false_type) {}
    void plus(V v, V p, std::true_type)
    {
        using gul14::operator+;
        using gul14::operator+=;
        S s = text;
        PBT_CHECK(c, &(s += p) == &s && s == text + pat, "string += view");
        PBT_CHECK(c, text + p == text + pat, "string + view");
        PBT_CHECK(c, v + pat == text + pat, "view + string");
    }
};
