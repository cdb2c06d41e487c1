// Shared generators for the statistics properties (C22, C23).
#ifndef STAT_GEN_H_
#define STAT_GEN_H_
#include "pbt.h"
#include "strs.h"
#include "gul14/SlidingBuffer.h"
#include "gul14/SmallVector.h"
#include "gul14/statistics.h"
#include <deque>
#include <forward_list>
#include <list>
namespace gstat {
using pbt::Ctx;

template <typename T>
struct Elem // a record with a number in it
{
    std::uint32_t tag{ 0 };
    T val{};
    bool operator==(const Elem& o) const { return tag == o.tag && val == o.val; }
};

template <typename T, std::enable_if_t<std::is_integral<T>::value, int> = 0>
std::vector<T> numbers(Ctx& c, std::size_t n, bool& interesting)
{
    using L = std::numeric_limits<T>;
    std::vector<T> v;
    const auto style = c.below(4);
    const T base = c.integer<T>();
    for (std::size_t i = 0; i < n; ++i)
    {
        switch (style)
        {
        case 0: v.push_back(static_cast<T>(c.below(7) - (L::is_signed ? 3u : 0u))); break;
        case 1: v.push_back(c.integer<T>()); break;
        case 2: v.push_back(static_cast<T>(c.u64())); break;
        default: v.push_back(static_cast<T>(static_cast<std::make_unsigned_t<T>>(base) + static_cast<std::make_unsigned_t<T>>(c.below(5)))); break;
        }
    }
    interesting = style != 0;
    return v;
}

inline double unit(Ctx& c) { return static_cast<double>(c.below(1ull << 53)) / 9007199254740992.0; }

template <typename T, std::enable_if_t<std::is_floating_point<T>::value, int> = 0>
std::vector<T> numbers(Ctx& c, std::size_t n, bool& interesting)
{
    std::vector<T> v;
    const auto style = c.below(6);
    const int range = std::is_same<T, float>::value ? 9 : 60; // decimal exponents; squares stay finite and normal
    const T scale = static_cast<T>(std::pow(10.0, static_cast<double>(c.range(-range, range))));
    const T offset = static_cast<T>((unit(c) - 0.5) * std::pow(10.0, static_cast<double>(c.below(7))));
    for (std::size_t i = 0; i < n; ++i)
    {
        T x = 0;
        switch (style)
        {
        case 0: x = static_cast<T>(c.range(-3, 3)); break;
        case 1: x = static_cast<T>(c.range(-1000000, 1000000)); break;
        case 2: x = static_cast<T>(unit(c) - 0.5) * scale; break;
        case 3: x = (offset + static_cast<T>(unit(c))) * scale; break;              // clustered far from 0
        case 4: x = static_cast<T>((unit(c) - 0.5) * std::pow(10.0, static_cast<double>(c.range(-range / 3, range / 3)))); break;
        default: x = c.chance(1, 8) ? scale : static_cast<T>(unit(c)); break;         // an outlier
        }
        v.push_back(x);
    }
    interesting = style != 0;
    return v;
}

/// Runs f(container, label) for the same values held in different containers (chosen at random).
/// f(cont, accessor) must work with the element type being T.
template <bool Wide, typename T, typename F, std::enable_if_t<!Wide, int> = 0>
void in_container(Ctx&, const std::vector<T>& v, F f) { f(v); }

template <bool Wide, typename T, typename F, std::enable_if_t<Wide, int> = 0>
void in_container(Ctx& c, const std::vector<T>& v, F f)
{
    switch (c.below(5))
    {
    case 0: { const std::vector<T> k(v); f(k); break; }
    case 1: { const std::list<T> k(v.begin(), v.end()); f(k); break; }
    case 2: { const std::deque<T> k(v.begin(), v.end()); f(k); break; }
    case 3: { gul14::SmallVector<T, 5> k; for (auto& x : v) k.push_back(x); const auto& kk = k; f(kk); break; }
    default:
    {
        gul14::SlidingBuffer<T> k(v.size() + 1);
        const std::size_t turn = c.below(v.size() + 1);
        for (std::size_t i = 0; i < turn; ++i) k.push_back(T{}), k.pop_front();
        for (auto& x : v) k.push_back(x);
        const auto& kk = k;
        f(kk);
        break;
    }
    }
}

template <typename T, typename E = T>
std::string list(const std::vector<T>& v) { return pbt::show(v); }
template <typename T>
std::string list(const std::vector<Elem<T>>& v) { std::vector<T> w; for (auto& e : v) w.push_back(e.val); return pbt::show(w); }

} // namespace gstat
#endif
