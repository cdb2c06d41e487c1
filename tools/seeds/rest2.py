H = '#include <cstdio>\n#include <cstdlib>\n#include <cmath>\n#include <cstring>\n#include <limits>\n#include <string>\n#include <vector>\n#include <list>\n#include <set>\n#include <sstream>\n#include <memory>\n#include <stdexcept>\n#include <gul14/gul.h>\n#include <gul14/date.h>\n#define CHECK(...) do { if (!(__VA_ARGS__)) { std::printf("broken: %s\\n", #__VA_ARGS__); return 1; } } while (0)\nusing namespace std::literals;\n'
O = "include/gul14/optional.h"; V = "include/gul14/variant.h"; X = "include/gul14/expected.h"; S = "include/gul14/span.h"; D = "include/gul14/date.h"; F = "include/gul14/finalizer.h"
ASAN = "-fsanitize=address,undefined -fno-sanitize-recover=all"
SEEDS = [
 dict(id="C27-1", prop="C27", edits=[(O, "    optional& operator=(const optional& rhs) {\n        if (initialized() == true && rhs.initialized() == false) clear();\n        else if (initialized() == false && rhs.initialized() == true) initialize(*rhs);\n        else if (initialized() == true && rhs.initialized() == true) contained_val() = *rhs;", "    optional& operator=(const optional& rhs) {\n        if (initialized() == true && rhs.initialized() == false) clear();\n        else if (rhs.initialized() == true) { clear(); initialize(*rhs); }")],
  needs="self-assignment, or a copy constructor that throws while a value is held", breaks="the value is destroyed before it is copied",
  demo=H+'int main() { gul14::optional<std::string> o(std::string(100, \'x\')); auto& r = o; o = r; CHECK(o.has_value()); CHECK(*o == std::string(100, \'x\')); }', flags=ASAN),
 dict(id="C27-2", prop="C27", edits=[(O, "            rhs.initialize(std::move(* * this));\n            clear();", "            OptionalBase<T>::init_ = false;\n            rhs.initialize(std::move(* * this));\n            dataptr()->T::~T();")],
  needs="a move constructor that throws in swap() with an empty optional", breaks="the value is neither kept nor destroyed (leak, optional empty)",
  demo=H+'''struct T { static int alive; static bool fail; T() { ++alive; } T(const T&) { ++alive; } T(T&&) { if (fail) throw 1; ++alive; } T& operator=(T&&) = default; ~T() { --alive; } };
int T::alive = 0; bool T::fail = false;
int main() { { gul14::optional<T> a(gul14::in_place), b; T::fail = true; try { a.swap(b); } catch (int) {} T::fail = false; CHECK(a.has_value()); CHECK(!b.has_value()); } CHECK(T::alive == 0); }''', flags="-DNDEBUG"),
 dict(id="C27-3", prop="C27", edits=[(O, "template <class T> constexpr bool operator<(const optional<T>& x, const optional<T>& y) {\n    return (!y) ? false : (!x) ? true : *x < *y;", "template <class T> constexpr bool operator<(const optional<T>& x, const optional<T>& y) {\n    return (!x) ? true : (!y) ? false : *x < *y;")],
  needs="comparing two empty optionals", breaks="an empty optional is less than an empty one",
  demo=H+'int main() { gul14::optional<int> a, b; CHECK(!(a < b)); CHECK(a <= b); CHECK(a >= b); }'),
 dict(id="C28-1", prop="C28", edits=[(V, "        this->destroy();\n        auto &result = this->construct_alt(access::base::get_alt<I>(*this),\n                                           std::forward<Args>(args)...);\n        this->index_ = I;\n        return result;", "        this->destroy();\n        this->index_ = I;\n        auto &result = this->construct_alt(access::base::get_alt<I>(*this),\n                                           std::forward<Args>(args)...);\n        return result;")],
  needs="an alternative whose constructor throws during emplace()", breaks="the variant claims to hold an object that was never constructed",
  demo=H+'struct T { T(int) { throw 1; } };\nint main() { gul14::variant<int, T> v(3); try { v.emplace<1>(1); } catch (int) {} CHECK(v.valueless_by_exception()); }'),
 dict(id="C28-2", prop="C28", edits=[(V, "    if (rhs.valueless_by_exception()) return false;\n    if (lhs.valueless_by_exception()) return true;\n    if (lhs.index() < rhs.index()) return true;", "    if (lhs.valueless_by_exception()) return true;\n    if (rhs.valueless_by_exception()) return false;\n    if (lhs.index() < rhs.index()) return true;")],
  needs="comparing two valueless variants", breaks="a valueless variant is less than a valueless one",
  demo=H+'struct T { T(int) { throw 1; } };\nbool operator<(const T&, const T&) { return false; }\nint main() { gul14::variant<int, T> a(3), b(4); try { a.emplace<1>(1); } catch (int) {} try { b.emplace<1>(1); } catch (int) {} CHECK(!(a < b)); }'),
 dict(id="C28-4", prop="C28", edits=[(V, "          } catch (...) {\n            if (tmp.move_nothrow()) {\n              this->generic_construct(*rhs, std::move(tmp));\n            }\n            throw;", "          } catch (...) {\n            if (!tmp.move_nothrow()) {\n              this->generic_construct(*rhs, std::move(tmp));\n            }\n            throw;")],
  needs="swapping two variants when moving the first alternative throws", breaks="the other variant loses its value although it could be restored",
  demo=H+'struct T { int i; static bool fail; T(int k) : i(k) {} T(const T& o) : i(o.i) {} T(T&& o) : i(o.i) { if (fail) throw 1; } T& operator=(T&&) = default; };\nbool T::fail = false;\nint main() { gul14::variant<std::string, T> a(std::string("abc")), b(T(1)); T::fail = true; try { b.swap(a); } catch (int) {} T::fail = false; CHECK(a.index() == 0); CHECK(gul14::get<0>(a) == "abc"); }'),
 dict(id="C29-1", prop="C29", edits=[(X, "      auto tmp = std::move(err());\n      err().~unexpected<E>();\n\n#ifdef GUL14_EXPECTED_EXCEPTIONS_ENABLED\n      try {\n        ::new (valptr()) T(std::forward<U>(v));\n        this->m_has_val = true;\n      } catch (...) {\n        ::new (errptr()) unexpected<E>(std::move(tmp));\n        throw;", "      auto tmp = std::move(err());\n      err().~unexpected<E>();\n\n#ifdef GUL14_EXPECTED_EXCEPTIONS_ENABLED\n      try {\n        this->m_has_val = true;\n        ::new (valptr()) T(std::forward<U>(v));\n      } catch (...) {\n        ::new (errptr()) unexpected<E>(std::move(tmp));\n        throw;")],
  needs="assigning a value whose constructor throws to an expected that holds an error", breaks="the expected claims to hold a value and destroys one that was never constructed",
  demo=H+'struct T { T() {} T(int) noexcept(false) { throw 1; } T(const T&) {} T& operator=(int) { return *this; } ~T() {} };\nint main() { gul14::expected<T, std::string> e(gul14::unexpect, "bad"); try { e = 5; } catch (int) {} CHECK(!e.has_value()); CHECK(e.error() == "bad"); }'),
 dict(id="C29-2", prop="C29", edits=[(X, "    auto temp = std::move(val());\n    val().~T();\n    ::new (errptr()) unexpected_type(std::move(rhs.err()));\n    rhs.err().~unexpected_type();\n    ::new (rhs.valptr()) T(std::move(temp));\n    std::swap(this->m_has_val, rhs.m_has_val);\n  }\n\n  void swap_where_only_one_has_value_and_t_is_not_void(\n      expected &rhs, t_is_nothrow_move_constructible,\n      move_constructing_e_can_throw) {", "    auto temp = std::move(val());\n    ::new (errptr()) unexpected_type(std::move(rhs.err()));\n    rhs.err().~unexpected_type();\n    ::new (rhs.valptr()) T(std::move(temp));\n    std::swap(this->m_has_val, rhs.m_has_val);\n  }\n\n  void swap_where_only_one_has_value_and_t_is_not_void(\n      expected &rhs, t_is_nothrow_move_constructible,\n      move_constructing_e_can_throw) {")],
  needs="swapping a value with an error when moved-from values still own something", breaks="the moved-from value is never destroyed",
  demo=H+'struct T { static int alive; T() { ++alive; } T(T&&) noexcept { ++alive; } T& operator=(T&&) noexcept { return *this; } ~T() { --alive; } };\nint T::alive = 0;\nint main() { { gul14::expected<T, std::string> a, b(gul14::unexpect, "x"); a.swap(b); } CHECK(T::alive == 0); }'),
 dict(id="C30-1", prop="C30", edits=[(S, "        return {data() + (size() - count), count};", "        return {data() + (size() - count), count ? count : size()};")],
  needs="last(0)", breaks="an empty tail refers to elements beyond the sequence",
  demo=H+'int main() { std::vector<int> v{1, 2, 3}; gul14::span<int> s(v); CHECK(s.last(0).size() == 0); }'),
 dict(id="C30-2", prop="C30", edits=[(S, "        if (lhs[i] < rhs[i]) {\n            return true;\n        }\n        if (lhs[i] > rhs[i]) {\n            return false;\n        }", "        if (lhs[i] < rhs[i]) {\n            return true;\n        }")],
  needs="comparing spans that differ first in favour of the right one and later in favour of the left one", breaks="both spans are less than each other",
  demo=H+'int main() { std::vector<int> a{2, 1}, b{1, 2}; CHECK(!(gul14::span<int>(a) < gul14::span<int>(b))); }'),
 dict(id="C30-3", prop="C30", edits=[(S, "    return {reinterpret_cast<unsigned char *>(s.data()), s.size_bytes()};", "    return {reinterpret_cast<unsigned char *>(s.data()), s.size() * (sizeof(ElementType) > 8 ? 8 : sizeof(ElementType))};")],
  needs="writable bytes of elements larger than eight bytes", breaks="the byte view is too short",
  demo=H+'int main() { std::vector<long double> a(3); CHECK(gul14::as_writable_bytes(gul14::span<long double>(a)).size() == 3 * sizeof(long double)); }'),
 dict(id="C32-1", prop="C32", edits=[(D, "    auto const yoe = (doe - doe/1460 + doe/36524 - doe/146096) / 365;  // [0, 399]", "    auto const yoe = (doe - doe/1460 + doe/36524) / 365;  // [0, 399]")],
  needs="the 29th of February of a year divisible by 400", breaks="the day number is converted to a nonexistent date",
  demo=H+'int main() { using namespace gul14::date; CHECK(year_month_day(sys_days(year(2400)/2/29)) == year(2400)/2/29); CHECK(year_month_day(sys_days(year(1600)/2/29)) == year(1600)/2/29); CHECK(year_month_day(sys_days(year(2000)/2/29)) == year(2000)/2/29); }'),
 dict(id="C32-2", prop="C32", edits=[(D, "    auto const era = (y >= 0 ? y : y-399) / 400;\n    auto const yoe = static_cast<unsigned>(y - era * 400);       // [0, 399]", "    auto const era = (y >= 0 ? y : y-400) / 400;\n    auto const yoe = static_cast<unsigned>(y - era * 400);       // [0, 399]")],
  needs="a negative year divisible by 400 (counted from March)", breaks="the day number of a date in such a year is wrong",
  demo=H+'int main() { using namespace gul14::date; for (int y : { -800, -400, -1, 0, -799 }) CHECK((sys_days(year(y)/3/1) - sys_days(year(y)/2/1)).count() == (year(y).is_leap() ? 29 : 28)); }'),
 dict(id="C32-3", prop="C32", edits=[(D, "    auto const mu = static_cast<long long>(static_cast<unsigned>(x)) + y.count() - 1;\n    auto const yr = (mu >= 0 ? mu : mu-11) / 12;", "    auto const mu = static_cast<long long>(static_cast<unsigned>(x)) + y.count() - 1;\n    auto const yr = (mu >= 0 ? mu : mu-12) / 12;")],
  needs="subtracting months such that January is reached from below by whole years", breaks="month arithmetic yields month 13",
  demo=H+'int main() { using namespace gul14::date; for (int i = -40; i < 40; ++i) CHECK((month(6) + months(i)).ok()); }'),
 dict(id="C32-4", prop="C32", edits=[(D, "    auto u = static_cast<unsigned>(z);\n    return static_cast<unsigned char>(z >= -4 ? (u+4) % 7 : u % 7);", "    return static_cast<unsigned char>(z >= -4 ? (z+4) % 7 : (z + 700004) % 7);")],
  needs="a date more than 1900 years before 1970", breaks="the weekday is not a weekday",
  demo=H+'int main() { using namespace gul14::date; for (int y : { -5000, -1, 40, 60, 1900, 2024 }) CHECK(weekday(sys_days(year(y)/1/1)).ok()); for (int y : { -5000, -1, 40, 60, 1900, 2024 }) CHECK((weekday(sys_days(year(y)/1/8)) - weekday(sys_days(year(y)/1/1))).count() == 0); }'),
 dict(id="C32-5", prop="C32", edits=[(D, "    if (wdi_.index() <= 4)\n        return true;\n    auto d2 = wdi_.weekday()", "    if (wdi_.index() <= 5 && m_ != February)\n        return true;\n    auto d2 = wdi_.weekday()")],
  needs="a fifth weekday that does not exist in the month", breaks="an invalid date is reported as valid",
  demo=H+'int main() { using namespace gul14::date; CHECK(!(year(2024)/4/Sunday[5]).ok()); CHECK((year(2024)/4/Tuesday[5]).ok()); }'),
 dict(id="C33-1", prop="C33", edits=[(D, "                if (C >= 0)\n                    tY = 100*C + y;\n                else\n                    tY = 100*(C+1) - (y == 0 ? 100 : y);", "                if (C >= 0)\n                    tY = 100*C + y;\n                else\n                    tY = 100*(C+1) - y;")],
  needs="a century and a two-digit year for a negative year divisible by 100", breaks="the parsed year is off by a century",
  demo=H+'int main() { using namespace gul14::date; sys_days in = year(-1200)/5/6, out{}; std::istringstream is(format("%C %y %m %d", in)); is >> parse("%C %y %m %d", out); CHECK(!is.fail()); CHECK(in == out); }'),
 dict(id="C33-2", prop="C33", edits=[(D, "                auto m = duration_cast<minutes>(*offset_sec);\n                auto neg = m < minutes{0};", "                auto m = duration_cast<minutes>(*offset_sec);\n                auto neg = duration_cast<hours>(m) < hours{0};")],
  needs="a time-zone offset between minus one hour and zero", breaks="the sign of the offset is lost",
  demo=H+'int main() { using namespace gul14::date; std::ostringstream os; fields<std::chrono::seconds> t; std::chrono::seconds off(-1800); std::string ab("X"); to_stream(os, "%z", t, &ab, &off); CHECK(os.str() == "-0030"); }'),
 dict(id="C33-3", prop="C33", edits=[(D, "                        auto st = local_days(Sunday[1]/January/ymd.year());\n                        if (ld < st)\n                            os << CharT{'0'} << CharT{'0'};\n                        else", "                        auto st = local_days(Sunday[1]/January/ymd.year());\n                        if (ld <= st)\n                            os << CharT{'0'} << CharT{'0'};\n                        else")],
  needs="%U on the first Sunday of a year", breaks="the first Sunday of the year is put into week 00",
  demo=H+'int main() { using namespace gul14::date; CHECK(format("%U", sys_days(year(2024)/1/7)) == "01"); }'),
]
