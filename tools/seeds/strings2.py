H = '#include <cstdio>\n#include <cstdlib>\n#include <cmath>\n#include <cstring>\n#include <limits>\n#include <string>\n#include <vector>\n#include <list>\n#include <set>\n#include <sstream>\n#include <memory>\n#include <regex>\n#include <gul14/gul.h>\n#define CHECK(x) do { if (!(x)) { std::printf("broken: %s\\n", #x); return 1; } } while (0)\nusing namespace std::literals;\n'
SEEDS = [
 dict(id="C10-1", prop="C10", edits=[("include/gul14/tokenize.h",
  "        token_end = str.find_first_of(delimiters, token_start);", "        token_end = str.find_first_of(delimiters.data(), token_start);")],
  needs="a set of delimiters that contains a NUL byte or is not NUL-terminated", breaks="delimiters after a NUL are ignored at the end of a token, or memory behind the set is read",
  demo=H+'int main() { CHECK((gul14::tokenize("a b;c", gul14::string_view(" ;x", 1)) == std::vector<std::string>{"a", "b;c"})); }'),
 dict(id="C10-2", prop="C10", edits=[("include/gul14/tokenize.h",
  "        token_end = str.find_first_of(delimiters, token_start);\n        if (token_end == string_view::npos)", "        token_end = str.find_first_of(delimiters, token_start + 1);\n        if (token_end == string_view::npos or token_end + 1 == str.length() - (str.length() > 255 ? 0 : str.length()))"),],
  needs="text longer than 255 characters ending in exactly one delimiter", breaks="the last token keeps the trailing delimiter",
  demo=H+'int main() { std::string s(300, \'a\'); s += " b "; auto v = gul14::tokenize(s); CHECK(v.size() == 2); CHECK(v[1] == "b"); }'),
 dict(id="C12-3", prop="C12", edits=[("src/replace.cc",
  "pos = haystack.find(needle.data(), pos + hammer.length(), needle.length());", "pos = haystack.find(needle.data(), pos + std::max(hammer.length(), needle.length()), needle.length());")],
  needs="in-place replacement by a shorter text with occurrences next to each other", breaks="adjacent occurrences are left unreplaced",
  demo=H+'int main() { std::string s = "aaaa"; gul14::replace_inplace(s, "aa", "b"); CHECK(s == "bb"); s = "xyxyxy"; gul14::replace_inplace(s, "xy", ""); CHECK(s == ""); }'),
 dict(id="C15-3", prop="C15", edits=[("include/gul14/substring_checks.h",
  "    return hsl >= hl && string_view{ str.data(), hl }.compare(prefix) == 0;", "    return hsl >= hl && (hl == 0 || str.find(prefix, 0) == 0 || (hl > 1 && str.rfind(prefix) == hl - 1));")],
  needs="a prefix that does not occur at the start but last at the position of its own length minus one", breaks="starts_with() is true although the string does not start with it",
  demo=H+'int main() { CHECK(!gul14::starts_with("xab", "ab")); CHECK(gul14::starts_with("abx", "ab")); }'),
 dict(id="C17-1", prop="C17", edits=[("include/gul14/to_number.h",
  "        if (*result == max_abs_negative_value)\n            return std::numeric_limits<NumberType>::lowest();\n        else if (*result > max_abs_negative_value)\n            return nullopt;",
  "        if (*result >= max_abs_negative_value)\n            return (*result - max_abs_negative_value) % 256 ? nullopt : make_optional(std::numeric_limits<NumberType>::lowest());")],
  needs="a negative number below the lowest one by a multiple of 256", breaks="out-of-range numbers are accepted",
  demo=H+'int main() { CHECK(!gul14::to_number<short>("-33024")); CHECK(*gul14::to_number<short>("-32768") == -32768); CHECK(!gul14::to_number<int>("-2147483904")); }'),
 dict(id="C17-2", prop="C17", edits=[("include/gul14/to_number.h",
  "    if (equals_nocase(str, \"true\"))\n        return true;", "    if (starts_with_nocase(\"true\", str) and str.length() > 2)\n        return true;")],
  needs="the text 'tru' in any case", breaks="an incomplete spelling of true is accepted",
  demo=H+'int main() { CHECK(!gul14::to_number<bool>("tru")); CHECK(*gul14::to_number<bool>("TRUE")); }'),
 dict(id="C18-3", prop="C18", edits=[("include/gul14/to_number.h",
  "        return -*result;\n    }\n\n    return detail::to_unsigned_float", "        return NumberType{ 0 } - *result;\n    }\n\n    return detail::to_unsigned_float")],
  needs="a negative zero", breaks="the sign of -0 is lost",
  demo=H+'int main() { CHECK(std::signbit(*gul14::to_number<double>("-0.0"))); }'),
 dict(id="C20-1", prop="C20", edits=[("src/string_util.cc", "    for (std::size_t i = 0; i != n; ++i)\n        result += str;", "    for (std::size_t i = 0; i != n and result.size() < 65536; ++i)\n        result += str;")],
  needs="a result of more than 65536 characters", breaks="repeat() cuts off long results",
  demo=H+'int main() { CHECK(gul14::repeat("ab", 50000).size() == 100000); }'),
 dict(id="C20-2", prop="C20", edits=[("src/string_util.cc", "    auto end_ptr = std::find(char_ptr, char_ptr + length, '\\0');", "    auto end_ptr = std::min(char_ptr + std::strlen(char_ptr), char_ptr + length);"),
  ("src/string_util.cc","#include <algorithm>","#include <algorithm>\n#include <cstring>")],
  needs="characters without a terminating NUL within the given length", breaks="safe_string() reads beyond the given length",
  flags="-fsanitize=address",
  demo=H+'int main() { std::unique_ptr<char[]> p(new char[3]); p[0] = p[1] = p[2] = \'a\'; CHECK(gul14::safe_string(p.get(), 3) == "aaa"); }'),
 dict(id="C20-3", prop="C20", edits=[("include/gul14/string_util.h", "        auto byte = u >> (8 * idx);", "        auto byte = (sizeof(Integer) == 8 and idx == 4) ? (static_cast<unsigned>(u >> 16) >> 16) : u >> (8 * idx);")],
  needs="a 64-bit integer whose upper half is not zero beyond one byte", breaks="none", demo=""),
]
SEEDS = [s for s in SEEDS if s["demo"]]
