// C19: hex dumps show every byte of the data and nothing else.
#include "strs.h"
#include "gul14/SmallVector.h"
#include "gul14/hexdump.h"
#include <deque>
#include <forward_list>
#include <list>
using namespace strs;
namespace {
const bool cfg = [] {
    pbt::config().rule = "the data fill more than one line";
    pbt::config().assumptions = { "streams in default state or as left by an earlier dump",
        "element types: 8 to 64 bit, signed and unsigned; up to 200 elements, rarely beyond the limit of 16000" };
    return true;
}();

std::string hex(unsigned long long v, std::size_t digits)
{
    std::string s;
    for (; v || s.size() < digits; v /= 16) s.insert(s.begin(), "0123456789abcdef"[v % 16]);
    return s;
}

template <typename T>
std::string reference(const std::vector<T>& d, const std::string& prompt)
{
    std::string out;
    const std::string indent(prompt.size(), ' ');
    const std::size_t limit = 16000, nod = 2 * sizeof(T);
    const std::size_t n = std::min(d.size(), limit);
    std::size_t i = 0;
    do
    {
        out += (i ? indent : prompt) + hex(i, 6) + ": ";
        const std::size_t k = std::min<std::size_t>(16, n - i);
        for (std::size_t j = 0; j < k; ++j)
            out += hex(static_cast<unsigned long long>(static_cast<std::make_unsigned_t<T>>(d[i + j])), nod) + " ";
        if (sizeof(T) == 1)
        {
            for (std::size_t j = k; j < 16; ++j) out += "   ";
            out += ' ';
            for (std::size_t j = 0; j < k; ++j)
            {
                const unsigned char ch = static_cast<unsigned char>(d[i + j]);
                out += ch >= 32 && ch < 127 ? static_cast<char>(ch) : '.';
            }
        }
        out += '\n';
        i += 16;
    } while (i < n);
    if (d.size() > limit) out += indent + "[output truncated...]\n";
    return out;
}

/// Reads a dump back, knowing only the documented layout.
template <typename T>
bool parse_back(const std::string& text, const std::string& prompt, const std::vector<T>& d)
{
    std::vector<T> r;
    std::size_t p = 0;
    while (p < text.size())
    {
        std::size_t e = text.find('\n', p + (p == 0 ? prompt.size() : 0));
        if (e == std::string::npos) return false;
        std::string line = text.substr(p, e - p);
        p = e + 1;
        line = line.substr(prompt.size());
        if (line.compare(0, 1, "[") == 0) continue;
        std::size_t colon = line.find(": ");
        if (colon == std::string::npos) return false;
        if (std::strtoull(line.substr(0, colon).c_str(), nullptr, 16) != r.size()) return false;
        std::size_t q = colon + 2;
        while (q < line.size() && line[q] != ' ' && r.size() < d.size() && (r.size() % 16 || q == colon + 2))
        {
            r.push_back(static_cast<T>(std::strtoull(line.substr(q, 2 * sizeof(T)).c_str(), nullptr, 16)));
            q += 2 * sizeof(T) + 1;
        }
    }
    return r == std::vector<T>(d.begin(), d.begin() + static_cast<std::ptrdiff_t>(std::min<std::size_t>(d.size(), 16000)));
}

/// Parameter objects that own their data: copies, moves and assignments, sources that are gone.
template <typename Cont>
void parameter_objects(pbt::Ctx& c, const Cont& d, const std::string& prompt)
{
    using T = typename Cont::value_type;
    using P = decltype(gul14::hexdump_stream(Cont(d), prompt));
    struct Model { int set; bool valid; };
    // data sets, some of them with equal size or content
    std::vector<std::pair<Cont, std::string>> sets{ { d, prompt }, { d, prompt + "~" }, { d, prompt } };
    for (auto& x : sets[1].first) x = static_cast<T>(x ^ 1);
    sets.push_back({ Cont(d.begin(), d.begin() + static_cast<std::ptrdiff_t>(d.size() / 2)), "q" });
    auto make = [&](int k) { return P(gul14::hexdump_stream(Cont(sets[static_cast<std::size_t>(k)].first), sets[static_cast<std::size_t>(k)].second)); };
    std::vector<std::unique_ptr<P>> obj;
    std::vector<Model> mod;
    for (int i = 0; i < 3; ++i)
    {
        const int k = static_cast<int>(c.below(4));
        obj.emplace_back(new P(make(k)));
        mod.push_back({ k, true });
    }
    std::size_t steps = 0;
    while (c.more(steps, 6, 20))
    {
        const std::size_t a = c.below(3), b = c.below(3);
        const auto op = c.below(7);
        switch (op)
        {
        case 0: *obj[a] = *obj[b]; mod[a] = mod[b]; break;
        case 1: if (a != b) { *obj[a] = std::move(*obj[b]); mod[a] = mod[b]; mod[b].valid = false; } break;
        case 2: { std::unique_ptr<P> q(new P(*obj[b])); obj[a] = std::move(q); mod[a] = mod[b]; break; }
        case 3: if (a != b) { std::unique_ptr<P> q(new P(std::move(*obj[b]))); obj[a] = std::move(q); mod[a] = mod[b]; mod[b].valid = false; } break;
        case 4: { const int k = static_cast<int>(c.below(4)); obj[a].reset(new P(make(k))); mod[a] = { k, true }; break; }
        case 5: { const int k = static_cast<int>(c.below(4)); *obj[a] = make(k); mod[a] = { k, true }; break; }
        default: // the copy is independent of the data of the source
            if (a != b && mod[b].valid)
            {
                *obj[a] = *obj[b];
                mod[a] = mod[b];
                for (auto& x : obj[b]->cont_) x = static_cast<T>(x ^ 3);
                mod[b].valid = false;
            }
            break;
        }
        for (std::size_t i = 0; i < 3; ++i)
        {
            if (!mod[i].valid) continue;
            const auto& m = sets[static_cast<std::size_t>(mod[i].set)];
            const std::string want = reference(std::vector<T>(m.first.begin(), m.first.end()), m.second);
            std::ostringstream os;
            os << *obj[i];
            PBT_CHECK(c, os.str() == want, "parameter object " << i << " after operation " << op << "(" << a << ", " << b << ") shows\n" << os.str() << "instead of\n" << want);
        }
    }
}

/// Parameter objects that refer to a range: copies, moves and assignments.
template <typename T>
void range_objects(pbt::Ctx& c, const std::vector<T>& d, const std::string& prompt)
{
    using P = decltype(gul14::hexdump_stream(d.begin(), d.end(), prompt));
    struct Model { std::size_t from, to; bool other; };
    auto make = [&](const Model& m) { return P(gul14::hexdump_stream(d.begin() + static_cast<std::ptrdiff_t>(m.from), d.begin() + static_cast<std::ptrdiff_t>(m.to), m.other ? prompt + "+" : prompt)); };
    auto any = [&] { Model m; m.from = c.below(d.size() + 1); m.to = m.from + c.below(d.size() - m.from + 1); m.other = c.coin(); return m; };
    std::vector<P> obj;
    std::vector<Model> mod;
    obj.reserve(100);
    for (int i = 0; i < 3; ++i) { mod.push_back(any()); obj.push_back(make(mod.back())); }
    std::size_t steps = 0;
    while (c.more(steps, 4, 12))
    {
        const std::size_t a = c.below(3), b = c.below(3);
        switch (c.below(4))
        {
        case 0: obj[a] = obj[b]; mod[a] = mod[b]; break;
        case 1: { P q(obj[b]); obj[a] = std::move(q); mod[a] = mod[b]; break; }
        case 2: mod[a] = any(); obj[a] = make(mod[a]); break;
        default: if (a != b) std::swap(obj[a], obj[b]), std::swap(mod[a], mod[b]); break;
        }
        for (std::size_t i = 0; i < 3; ++i)
        {
            const auto& m = mod[i];
            const std::string want = reference(std::vector<T>(d.begin() + static_cast<std::ptrdiff_t>(m.from), d.begin() + static_cast<std::ptrdiff_t>(m.to)), m.other ? prompt + "+" : prompt);
            std::ostringstream os;
            os << obj[i];
            PBT_CHECK(c, os.str() == want, "range object " << i << " shows\n" << os.str() << "instead of\n" << want);
        }
    }
}

template <typename T>
void run(pbt::Ctx& c)
{
    std::size_t n;
    if (c.chance(1, 1500)) n = c.pick<std::size_t>({ 15999, 16000, 16001, 16016, 16100 });
    else n = c.coin() ? c.below(40) : c.chance(1, 8) ? c.below(200) : 16 * c.below(4) + c.below(3);
    std::vector<T> d;
    d.reserve(n);
    if (n > 1000) { const std::uint64_t k = c.u64(); for (std::size_t i = 0; i < n; ++i) d.push_back(static_cast<T>(k * i + i / 7)); }
    else for (std::size_t i = 0; i < n; ++i) d.push_back(c.coin() ? static_cast<T>(c.below(256)) : c.template integer<T>());
    d.shrink_to_fit();
    std::string prompt;
    if (c.coin()) prompt = c.chance(1, 4) ? c.bytes_str(4, 30) : from(c, "ab ->:[0", c.below(8));
    for (char& ch : prompt) if (ch == '\n') ch = ' ';
    c.note_f([&] { std::string s = std::to_string(n) + " elements of " + std::to_string(8 * sizeof(T)) + " bit:";
        for (std::size_t i = 0; i < std::min<std::size_t>(n, 40); ++i) s += " " + std::to_string(static_cast<long long>(d[i]));
        return s + ", prompt " + pbt::show(prompt); });
    if (n > 16) c.nontrivial();
    c.label_if(n > 16000, "beyond the limit");
    const std::string want = reference(d, prompt);
    auto eq = [&](const std::string& got, const char* what) {
        PBT_CHECK(c, got == want, what << " gives\n" << got.substr(0, 3000) << "instead of\n" << want.substr(0, 3000));
    };
    const Buf bp(prompt);
    const std::string first = gul14::hexdump(d, bp.sv());
    eq(first, "hexdump(vector)");
    PBT_CHECK(c, parse_back(first, prompt, d), "the data cannot be reconstructed from the dump");
    // an exactly sized block behind plain pointers
    std::unique_ptr<T[]> raw(new T[n]);
    std::copy(d.begin(), d.end(), raw.get());
    const T *b = raw.get(), *e = raw.get() + n;
    eq(gul14::hexdump(b, e, bp.sv()), "hexdump(pointers)");
    std::ostringstream os;
    switch (c.below(9))
    {
    case 0: os << gul14::hexdump_stream(b, e, prompt); eq(os.str(), "hexdump_stream(pointers)"); break;
    case 1: os << gul14::hexdump_stream(d, prompt); eq(os.str(), "hexdump_stream(container)"); break;
    case 2: os << gul14::hexdump_stream(std::vector<T>(d), prompt); eq(os.str(), "hexdump_stream(temporary)"); break;
    case 3:
        if (n < 1000 && c.coin()) parameter_objects<std::vector<T>>(c, d, prompt);
        else if (n < 1000) range_objects<T>(c, d, prompt);
        break;
    case 4:
    {
        os << gul14::hexdump_stream(d.begin(), d.end(), prompt) << gul14::hexdump_stream(d.cbegin(), d.cend(), prompt);
        PBT_CHECK(c, os.str() == want + want, "two dumps in a row on one stream");
        break;
    }
    case 5:
    {
        std::list<T> l(d.begin(), d.end());
        eq(gul14::hexdump(l, bp.sv()), "hexdump(list)");
        os << gul14::hexdump_stream(l, prompt);
        eq(os.str(), "hexdump_stream(list)");
        break;
    }
    case 6:
    {
        std::deque<T> q(d.begin(), d.end());
        eq(gul14::hexdump(q.begin(), q.end(), bp.sv()), "hexdump(deque iterators)");
        break;
    }
    case 7:
    {
        std::forward_list<T> f(d.begin(), d.end());
        eq(gul14::hexdump(f.begin(), f.end(), bp.sv()), "hexdump(forward_list iterators)");
        break;
    }
    default:
    {
        gul14::SmallVector<T, 8> v(d.begin(), d.end());
        eq(gul14::hexdump(v, bp.sv()), "hexdump(SmallVector)");
        break;
    }
    }
    if (prompt.empty()) eq(gul14::hexdump(d), "hexdump without prompt");
}
}
PBT_FACET(chars, 60000, 1500000)
{
    run<char>(c);
}
PBT_FACET(text, 30000, 600000)
{
    // strings and views
    const std::string s = c.bytes_str(20, 120), prompt = from(c, "> x", c.below(5));
    c.note_f([&] { return "hexdump(" + pbt::show(s) + ", " + pbt::show(prompt) + ")"; });
    if (s.size() > 16) c.nontrivial();
    const std::string want = reference(std::vector<char>(s.begin(), s.end()), prompt);
    const Buf b(s);
    PBT_CHECK(c, gul14::hexdump(s, prompt) == want, "hexdump(string)");
    PBT_CHECK(c, gul14::hexdump(b.sv(), prompt) == want, "hexdump(string_view)");
    PBT_CHECK(c, gul14::hexdump(s.rbegin(), s.rend(), prompt) == reference(std::vector<char>(s.rbegin(), s.rend()), prompt),
        "hexdump(reverse iterators)");
    std::ostringstream os;
    os << gul14::hexdump_stream(std::string(s), prompt);
    PBT_CHECK(c, os.str() == want, "hexdump_stream(temporary string)");
    if (c.chance(1, 4)) parameter_objects<std::string>(c, s, prompt);
}
PBT_FACET(bytes, 40000, 800000) { run<unsigned char>(c); }
PBT_FACET(shorts, 30000, 600000) { run<std::int16_t>(c); }
PBT_FACET(ints, 30000, 600000) { run<std::uint32_t>(c); }
PBT_FACET(longs, 30000, 600000) { run<std::int64_t>(c); }
PBT_MAIN
