H = '#include <cstdio>\n#include <cstdlib>\n#include <string>\n#include <vector>\n#include <gul14/gul.h>\n#define CHECK(x) do { if (!(x)) { std::printf("broken: %s\\n", #x); return 1; } } while (0)\nusing namespace std::string_literals;\n'
SEEDS = [
 dict(id="C12-1", prop="C12", edits=[("src/replace.cc",
  "pos = haystack.find(needle.data(), pos + hammer.length(), needle.length());",
  "pos = haystack.find(needle.data(), pos + (hammer.length() < needle.length() ? 0 : hammer.length()), needle.length());")],
  needs="in-place replacement by a shorter text that forms a new occurrence together with the following text",
  breaks="text produced by a replacement is searched again by replace_inplace()",
  demo=H+'int main() { std::string s = "abb"; gul14::replace_inplace(s, "ab", "a"); CHECK(s == "ab"); }'),
 dict(id="C12-2", prop="C12", edits=[("src/replace.cc",
  "        pos += needle.length();\n        last_pos = pos;",
  "        last_pos = pos + needle.length();\n        pos += std::min(needle.length(), hammer.length() + 1);")],
  needs="self-overlapping search string and a replacement shorter than it by more than one character",
  breaks="replace() finds overlapping occurrences of the search string and duplicates the replacement",
  demo=H+'int main() { CHECK(gul14::replace("aaaa"s, "aaa", "b") == "ba"); CHECK(gul14::replace("ababab"s, "abab", "") == "ab"); }'),
 dict(id="C13-1", prop="C13", edits=[("src/escape.cc",
  'R"(\\\\(["\\\\nrt]|x[[:xdigit:]]{2}))"', 'R"(\\\\(["\\\\nrt]|x[[:xdigit:]]{1,2}))"')],
  needs="a backslash-x sequence with only one hexadecimal digit",
  breaks="malformed hexadecimal sequences are decoded instead of being kept verbatim",
  demo=H+'int main() { CHECK(gul14::unescape("\\\\x4 ") == "\\\\x4 "); CHECK(gul14::unescape("a\\\\xfz") == "a\\\\xfz"); }'),
 dict(id="C11-1", prop="C11", edits=[("src/trim.cc",
  "    const auto rpos = str.find_last_not_of(ws_chars);\n\n    return str.substr(lpos, rpos - lpos + 1);",
  "    const auto rpos = str.find_last_not_of(ws_chars.substr(0, 8));\n\n    return str.substr(lpos, rpos - lpos + 1);")],
  needs="a strip set of more than eight characters and a ninth one at the end of the text",
  breaks="trim() does not remove trailing characters that are in the strip set",
  demo=H+'int main() { CHECK(gul14::trim("abcxyzk", "0123456789k") == "abcxyz"); }'),
 dict(id="C15-1", prop="C15", edits=[("include/gul14/substring_checks.h",
  "        if (lowercase_ascii(str.back()) != lowercase_ascii(suffix.back()))\n            return false;\n        str.remove_suffix(1);",
  "        if ((str.back() | 0x20) != (suffix.back() | 0x20))\n            return false;\n        str.remove_suffix(1);")],
  needs="non-letter characters that differ only in bit 5, such as '[' and '{'",
  breaks="ends_with_nocase() treats different non-letters as equal",
  demo=H+'int main() { CHECK(!gul14::ends_with_nocase("abc[", "c{")); CHECK(!gul14::ends_with_nocase("a@", "`")); CHECK(gul14::ends_with_nocase("aBC", "bc")); }'),
 dict(id="C14-1", prop="C14", edits=[("src/case_ascii.cc",
  "    for (char &c : str)\n        c = uppercase_ascii(c);", "    std::size_t i = 0;\n    // eight characters at a time\n    for (; i + 8 <= str.size(); i += 8)\n        for (std::size_t k = i; k < i + 8; ++k)\n            str[k] = static_cast<char>(str[k] - (((static_cast<unsigned char>(str[k]) - 'a') & 0x7fu) < 26u ? 32 : 0));\n    for (; i < str.size(); ++i)\n        str[i] = uppercase_ascii(str[i]);")],
  needs="a string of at least eight characters with bytes 0xe1 to 0xfa",
  breaks="in-place upper-case conversion changes bytes above 127",
  demo=H+'int main() { std::string s = "stra\\xdf\\x65n \\xe4\\xf6\\xfc z abcdefgh"; std::string t = s; gul14::uppercase_ascii_inplace(t); CHECK(t == gul14::uppercase_ascii(s)); }'),
 dict(id="C09-1", prop="C09", edits=[("include/gul14/join_split.h",
  "        search_start += std::max(delimiter.size() + hit_len, SizeType{ 1 });",
  "        search_start += std::max(hit_len + std::min(delimiter.size(), SizeType{ 2 }), SizeType{ 1 });")],
  needs="a self-overlapping delimiter of at least three characters occurring in an overlapping run",
  breaks="split() finds delimiter occurrences that overlap the previous one",
  demo=H+'int main() { auto v = gul14::split("1aaaa2", "aaa"); CHECK((v == std::vector<std::string>{"1", "a2"})); CHECK(gul14::join(gul14::split("xabababy", "abab"), "abab") == "xabababy"); }'),
]
