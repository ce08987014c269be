#include "strsearch.hpp"
void reg_u32() { Search<char32_t>::add("char32_t", {U'a', U'b'}, {U'a', U'\0', char32_t(0x80000061)}, false); }
