// C20: hex strings, safe strings and repetition are exact for every input.
#include "strs.h"
#include "gul14/SmallVector.h"
#include "gul14/string_util.h"
#include <deque>
#include <forward_list>
#include <list>
using namespace strs;
namespace {
const bool cfg = [] {
    pbt::config().rule = "two or more elements (hex), a NUL byte or a shorter length (safe), two or more copies (repeat)";
    pbt::config().assumptions = { "sequences up to about 150 elements, a few up to about 130000, repetitions giving up to about 260000 characters",
        "safe_string() gets lengths that do not exceed the block unless the block is NUL-terminated before" };
    return true;
}();

template <typename T>
std::string ref_hex(T v)
{
    unsigned long long u = static_cast<unsigned long long>(static_cast<std::make_unsigned_t<T>>(v));
    std::string s(2 * sizeof(T), '0');
    for (std::size_t i = s.size(); i-- > 0; u /= 16) s[i] = "0123456789abcdef"[u % 16];
    return s;
}
template <typename T>
void run(pbt::Ctx& c)
{
    std::vector<T> d;
    std::size_t n = length(c, 150);
    for (std::size_t i = 0; i < n; ++i) d.push_back(c.coin() ? static_cast<T>(c.below(256)) : c.template integer<T>());
    d = sometimes_huge(c, std::move(d), 20000);
    n = d.size();
    d.shrink_to_fit();
    const std::string sep = c.coin() ? std::string() : c.chance(1, 5) ? c.bytes_str(3, 20) : from(c, "-, :", 1 + c.below(2));
    c.note_f([&] { std::string s = std::to_string(8 * sizeof(T)) + "-bit elements:";
        for (auto x : d) s += " " + std::to_string(static_cast<long long>(x));
        return s + ", separator " + pbt::show(sep); });
    if (n > 1) c.nontrivial();
    std::string want;
    for (std::size_t i = 0; i < n; ++i) { if (i) want += sep; want += ref_hex(d[i]); }
    auto eq = [&](const std::string& got, const char* what) {
        PBT_CHECK(c, got == want, what << " gives " << pbt::show(got) << " instead of " << pbt::show(want));
    };
    const Buf bs(sep);
    std::unique_ptr<T[]> raw(new T[n]);
    std::copy(d.begin(), d.end(), raw.get());
    for (std::size_t i = 0; i < std::min<std::size_t>(n, 3); ++i)
        PBT_CHECK(c, gul14::hex_string(d[i]) == ref_hex(d[i]), "hex_string(" << static_cast<long long>(d[i]) << ") gives "
            << gul14::hex_string(d[i]));
    eq(gul14::hex_string(d, bs.sv()), "hex_string(vector)");
    eq(gul14::hex_string(static_cast<const T*>(raw.get()), static_cast<const T*>(raw.get() + n), bs.sv()), "hex_string(pointers)");
    if (sep.empty())
    {
        eq(gul14::hex_string(d), "hex_string(vector) without separator");
        eq(gul14::hex_string(d.begin(), d.end()), "hex_string(iterators) without separator");
    }
    switch (c.below(5))
    {
    case 0: eq(gul14::hex_string(std::list<T>(d.begin(), d.end()), bs.sv()), "hex_string(list)"); break;
    case 1:
    {
        std::forward_list<T> f(d.begin(), d.end());
        eq(gul14::hex_string(f.begin(), f.end(), bs.sv()), "hex_string(forward_list)");
        break;
    }
    case 2:
    {
        std::deque<T> q(d.begin(), d.end());
        eq(gul14::hex_string(q.cbegin(), q.cend(), bs.sv()), "hex_string(deque)");
        break;
    }
    case 3:
    {
        if (n < 4) break;
        T a[4] = { d[0], d[1], d[2], d[3] };
        want = ref_hex(a[0]) + sep + ref_hex(a[1]) + sep + ref_hex(a[2]) + sep + ref_hex(a[3]);
        eq(gul14::hex_string(a, bs.sv()), "hex_string(array)");
        break;
    }
    default:
    {
        gul14::SmallVector<T, 4> v(d.begin(), d.end());
        eq(gul14::hex_string(v, bs.sv()), "hex_string(SmallVector)");
        break;
    }
    }
}
}
PBT_FACET(hex8, 250000, 5000000) { if (c.coin()) run<unsigned char>(c); else if (c.coin()) run<char>(c); else run<signed char>(c); }
PBT_FACET(hex16, 150000, 3000000) { if (c.coin()) run<std::uint16_t>(c); else run<std::int16_t>(c); }
PBT_FACET(hex32, 150000, 3000000) { if (c.coin()) run<std::uint32_t>(c); else run<std::int32_t>(c); }
PBT_FACET(hex64, 150000, 3000000) { if (c.coin()) run<std::uint64_t>(c); else run<std::int64_t>(c); }
PBT_FACET(safe_string, 700000, 12000000)
{
    if (c.chance(1, 30))
    {
        c.note("null pointer");
        const std::size_t n = c.coin() ? c.below(10) : c.integer<std::size_t>();
        PBT_CHECK(c, gul14::safe_string(nullptr, n).empty(), "safe_string(nullptr, " << n << ") is not empty");
        return;
    }
    std::string s = sometimes_huge(c, from(c, alphabet(c), length(c, 400)));
    for (std::size_t k = c.below(3); k > 0 && !s.empty(); --k) s[c.below(s.size())] = '\0';
    const Buf b(s); // exactly sized: the byte after it must not be read
    const std::size_t nul = std::min(s.find('\0'), s.size());
    std::size_t n = c.coin() ? s.size() : c.below(s.size() + 1);
    c.note_f([&] { return "safe_string(" + pbt::show(s) + ", " + std::to_string(n) + ")"; });
    if (!s.empty() && (nul < s.size() || n < s.size())) c.nontrivial();
    const std::string want = s.substr(0, std::min(n, nul));
    const std::string got = gul14::safe_string(b.data(), n);
    PBT_CHECK(c, got == want, "safe_string gives " << pbt::show(got) << " instead of " << pbt::show(want));
    if (nul < s.size())
    {
        // a terminated block: also a longer length must not read beyond the terminator
        const Buf t(s.substr(0, nul + 1));
        const std::size_t more = nul + 1 + c.below(50);
        const std::string g = gul14::safe_string(t.data(), more);
        PBT_CHECK(c, g == s.substr(0, nul), "safe_string of a terminated string with length " << more << " gives " << pbt::show(g));
    }
}
PBT_FACET(repeat, 400000, 8000000)
{
    const std::string s = c.chance(1, 15) ? std::string() : from(c, alphabet(c), 1 + c.below(12));
    std::size_t n = c.chance(1, 40) ? c.below(c.tier ? 8000 : 2000) : c.below(20);
    if (s.empty() && c.chance(1, 4)) n = c.below(100000);
    if (c.chance(1, 1500)) n = (c.pick<std::size_t>({ 4096, 65536, 65536, 131072, 262144 }) - 3 + c.below(7)) / std::max<std::size_t>(1, s.size()) + c.below(3);
    c.note_f([&] { return "repeat(" + pbt::show(s) + ", " + std::to_string(n) + ")"; });
    if (n > 1 && !s.empty()) c.nontrivial();
    const Buf b(s);
    const std::string got = gul14::repeat(b.sv(), n);
    PBT_CHECK(c, got.size() == n * s.size(), "length " << got.size() << " instead of " << n * s.size());
    for (std::size_t i = 0; i < n; ++i)
        PBT_CHECK(c, got.compare(i * s.size(), s.size(), s) == 0, "copy " << i << " is wrong");
}
PBT_MAIN
