H = '#include <cstdio>\n#include <cstdlib>\n#include <cmath>\n#include <cstring>\n#include <limits>\n#include <string>\n#include <vector>\n#include <list>\n#include <set>\n#include <sstream>\n#include <memory>\n#include <gul14/gul.h>\n#define CHECK(...) do { if (!(__VA_ARGS__)) { std::printf("broken: %s\\n", #__VA_ARGS__); return 1; } } while (0)\nusing namespace std::literals;\n'
SV = "include/gul14/string_view.h"; ST = "include/gul14/statistics.h"; NU = "include/gul14/num_util.h"
SEEDS = [
 dict(id="C13-2", prop="C13", edits=[("src/escape.cc",
  "    for (; rit != rend; ++rit) {\n        last = *rit;\n        unescaped += rit->prefix();", "    for (; rit != rend; ++rit) {\n        last = *rit;\n        unescaped += std::string(rit->prefix().first, rit->prefix().second).c_str();")],
  needs="a NUL byte in the text before an escape sequence", breaks="unescape() drops what follows a NUL byte up to the next escape sequence",
  demo=H+'int main() { std::string s("a\\0b\\\\n", 5); CHECK(gul14::unescape(s) == std::string("a\\0b\\n", 4)); }'),
 dict(id="C13-3", prop="C13", edits=[("src/escape.cc", "{ R\"(\\\\([\"\\\\nrt]|x[[:xdigit:]]{2}))\" }", "{ R\"(\\\\([\"\\\\nrt]|x[[:xdigit:]]{1,2}))\" }")],
  needs="an incomplete hexadecimal sequence", breaks="a malformed sequence with one digit is decoded instead of kept",
  demo=H+'int main() { CHECK(gul14::unescape("\\\\x4g") == "\\\\x4g"); CHECK(gul14::unescape("\\\\x4") == "\\\\x4"); }'),
 dict(id="C16-1", prop="C16", edits=[(SV, "        if (pos > len_ - s.len_)\n            pos = len_ - s.len_;\n        if (s.len_ == 0u)", "        if (pos + s.len_ > len_)\n            pos = len_ - s.len_;\n        if (s.len_ == 0u)")],
  needs="rfind() with a position so large that adding the length of the pattern overflows", breaks="memory outside the view is read or the wrong position is returned",
  demo=H+'int main() { std::string s(100, \'a\'); s[10] = \'b\'; CHECK(gul14::string_view(s).rfind("ab", std::string::npos - 1) == s.rfind("ab", std::string::npos - 1)); CHECK(gul14::string_view(s).rfind("ab", std::string::npos) == 9); }', flags="-fsanitize=address,undefined -fno-sanitize-recover=all"),
 dict(id="C16-2", prop="C16", edits=[(SV, "        auto const end = len_ - s.len_;\n        for (auto cur = pos; cur <= end; ++cur) {", "        auto const end = len_ - s.len_;\n        for (auto cur = pos; cur <= end; cur += (s.len_ > 2 && traits::eq(ptr_[cur], s.ptr_[0]) && traits::eq(ptr_[cur + 1], s.ptr_[1])) ? 2 : 1) {")],
  needs="a pattern that starts with a repeated character, searched in a run of that character", breaks="find() misses occurrences after a partial match",
  demo=H+'int main() { CHECK(gul14::string_view("xaaab").find("aab") == 2); }'),
 dict(id="C16-3", prop="C16", edits=[(SV, "            if ( 0 == traits::find(s.ptr_, s.len_, *first))\n                return first;", "            if ( nullptr == traits::find(s.ptr_, s.len_ > 64 ? 64 : s.len_, *first))\n                return first;")],
  needs="a set of more than 64 characters", breaks="find_*_not_of() ignores the characters beyond the 64th",
  demo=H+'int main() { std::string s; for (int i = 1; i < 100; ++i) s += static_cast<char>(i); CHECK(gul14::string_view("bbb\\x7f").find_first_not_of(s) == 3); }'),
 dict(id="C19-2", prop="C19", edits=[("include/gul14/hexdump.h", "    for (size_t i = 0; (it != end and i < maxelem) or (i == 0); i += 16) {\n        dest << (i ? indent : prompt) << std::setw(6) << i << \": \";", "    for (size_t i = 0; (it != end and i <= maxelem) or (i == 0); i += 16) {\n        dest << (i ? indent : prompt) << std::setw(6) << i << \": \";")],
  needs="data of more than 16000 elements", breaks="a line more than documented is shown, and the notice is missing for up to 16016 elements",
  demo=H+'int main() { std::string s(16001, \'a\'); auto d = gul14::hexdump(s); CHECK(d.find("truncated") != std::string::npos); s.pop_back(); CHECK(gul14::hexdump(s).find("truncated") == std::string::npos); }'),
 dict(id="C19-3", prop="C19", edits=[("include/gul14/hexdump.h", "        prompt_ = other.prompt_;\n        cont_ = other.cont_;\n\n        regenerate_iterators<ContainerT>();\n\n        return *this;", "        prompt_ = other.prompt_;\n        if (cont_ != other.cont_)\n        {\n            cont_ = other.cont_;\n            regenerate_iterators<ContainerT>();\n        }\n\n        return *this;")],
  needs="a parameter object assigned from another one with equal data, which is destroyed before the output", breaks="the copy refers to the destroyed data of the original",
  demo=H+'''int main() { auto a = gul14::hexdump_stream(std::vector<int>{1,2,3,4,5,6,7,8}); { auto b = gul14::hexdump_stream(std::vector<int>{1,2,3,4,5,6,7,8}); a = b; for (auto& x : b.cont_) x = 9; }
 std::ostringstream o; o << a; CHECK(o.str() == gul14::hexdump(std::vector<int>{1,2,3,4,5,6,7,8})); }''', flags="-fsanitize=address,undefined -fno-sanitize-recover=all"),
 dict(id="C21-1", prop="C21", edits=[("src/cat.cc", "    for (const ConvertingStringView &piece : pieces)\n        str.append(piece.data(), piece.size());", "    for (const ConvertingStringView &piece : pieces)\n        if (len < 4096 or str.size() + piece.size() < len)\n            str.append(piece.data(), piece.size());\n        else\n            str.append(piece.data());")],
  needs="four or more arguments with more than 4096 characters in total, the last one not NUL-terminated or containing NULs", breaks="the last argument is cut at a NUL or memory behind it is read",
  demo=H+'int main() { std::string a(5000, \'x\'), z("a\\0b", 3); CHECK(gul14::cat(a, "", "", z) == a + z); }'),
 dict(id="C21-2", prop="C21", edits=[("src/cat.cc", "    str.append(s1.data(), s1.length());\n    str.append(s2.data(), s2.length());\n    str.append(s3.data(), s3.length());", "    str.append(s1.data(), s1.length());\n    if (s2.data() != s3.data() or s2.length() != s3.length())\n        str.append(s2.data(), s2.length());\n    else\n        str += str.substr(s1.length());\n    str.append(s3.data(), s3.length());")],
  needs="three arguments of which the second and third refer to the same string", breaks="the second argument is missing",
  demo=H+'int main() { std::string a = "ab"; CHECK(gul14::cat("x", a, a) == "xabab"); }'),
 dict(id="C22-1", prop="C22", edits=[(ST, "        median = (median / 2) + (static_cast<ResultT>(*(middle - 1)) / 2);", "        median = static_cast<ResultT>((*middle + *(middle - 1)) / ResultT{ 2 });")],
  needs="an even number of integer elements so large that their sum overflows", breaks="the median is wrong",
  demo=H+'int main() { std::vector<int> v{2000000000, 2000000002}; CHECK(std::abs(gul14::median<double>(v) - 2000000001.0) < 1); }'),
 dict(id="C22-2", prop="C22", edits=[(ST, "        { return accu + std::pow(static_cast<ResultT>(accessor(el)) - mean_val, 2); });\n\n    sum /= static_cast<ResultT>(container.size() - 1);", "        { return accu + std::pow(static_cast<ResultT>(accessor(el)), 2); });\n    sum = std::max(ResultT{ 0 }, sum - mean_val * mean_val * static_cast<ResultT>(len));\n\n    sum /= static_cast<ResultT>(container.size() - 1);")],
  needs="values clustered far away from zero", breaks="the standard deviation is wrong by cancellation",
  demo=H+'int main() { std::vector<double> v{1e9, 1e9 + 1, 1e9 + 2}; CHECK(std::abs(gul14::standard_deviation<double>(v).sigma() - 1) < 1e-6); }'),
 dict(id="C24-3", prop="C24", edits=[(NU, "    if (comp(v, lo))\n        return lo;\n    if (comp(hi, v))\n        return hi;\n    return v;", "    if (not comp(lo, v))\n        return lo;\n    if (comp(hi, v))\n        return hi;\n    return v;")],
  needs="a comparison that considers different objects equivalent, and a value equivalent to the lower bound", breaks="clamp() returns the bound instead of the value",
  demo=H+'int main() { struct P { int k, v; }; auto lt = [](const P& a, const P& b) { return a.k < b.k; }; P a{1, 1}, lo{1, 2}, hi{3, 3}; CHECK(gul14::clamp(a, lo, hi, lt).v == 1); }'),
 dict(id="C25-2", prop="C25", edits=[("include/gul14/gcd_lcm.h", "    while (d != 0)\n    {\n        auto tmp = d;", "    for (int i = 0; d != 0 && i < 64; ++i)\n    {\n        auto tmp = d;")],
  needs="two 64-bit numbers for which Euclid's algorithm takes more than 64 steps (close to the golden ratio)", breaks="the result is not a common divisor",
  demo=H+'int main() { unsigned long long a = 1, b = 1; for (int i = 0; i < 90; ++i) { auto t = a + b; a = b; b = t; } CHECK(gul14::gcd(a, b) == 1u); }'),
 dict(id="C31-1", prop="C31", edits=[("include/gul14/finalizer.h", "            this->action_ = std::move(other.action_);\n            this->invoke_ = std::move(other.invoke_);", "            this->action_ = std::move(other.action_);\n            this->invoke_ = this->invoke_ or other.invoke_;")],
  needs="assigning an inactive (moved-from) finalizer to an active one", breaks="the action runs although it has moved elsewhere",
  demo=H+'#include <functional>\nint main() { int n = 0; { gul14::FinalAction<std::function<void()>> a([&] { ++n; }); gul14::FinalAction<std::function<void()>> b(std::move(a)); gul14::FinalAction<std::function<void()>> c([&] { n += 100; }); a = std::move(c); gul14::FinalAction<std::function<void()>> d(std::move(a)); auto e = gul14::FinalAction<std::function<void()>>([&] { n += 1000; }); a = std::move(e); } CHECK(n == 1101); n = 0; { struct F { int* p; void operator()() const { ++*p; } }; gul14::FinalAction<F> a(F{&n}); gul14::FinalAction<F> b(std::move(a)); gul14::FinalAction<F> c(F{&n}); c = std::move(a); } CHECK(n == 1); }'),
 dict(id="C19-1", prop="C19", edits=[("include/gul14/hexdump.h", "isprint(c) ? c : '.'", "c >= 32 and c < 128 ? c : '.'")],
  needs="the byte 127", breaks="a control character is printed beside the dump",
  demo=H+'int main() { const auto s = gul14::hexdump(std::string("a\\x7f" "b")); for (char c : s) CHECK(c == \'\\n\' || (c >= 32 && c < 127)); }'),
 dict(id="C25-1", prop="C25", edits=[("include/gul14/gcd_lcm.h", "    if (a == 0 && b == 0)\n        return CommonType{ 0 };", "    if (a == b)\n        return static_cast<CommonType>(a);")],
  needs="two equal negative numbers", breaks="the least common multiple is negative",
  demo=H+'int main() { CHECK(gul14::lcm(-4, -4) == 4); CHECK(gul14::lcm(0, 0) == 0); }'),
]
