// C16: string_view operations equal those of the string they view.
#include "C16_machine.h"
namespace {
const bool cfg = [] {
    pbt::config().rule = "text of two or more characters and a non-empty pattern not longer than it";
    pbt::config().assumptions = { "texts up to 600 (thorough 3000) characters, a few up to about 130000; types char, wchar_t, char16_t, char32_t",
        "removal of more characters than there are is not exercised (undefined for the standard class)" };
    return true;
}();
}
PBT_FACET(bytes, 1800000, 14400000) { ViewCheck<char> x{ c, {}, {} }; x.run(); }
PBT_MAIN
