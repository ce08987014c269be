#include "strsearch.hpp"
void reg_w() { Search<wchar_t>::add("wchar_t", {L'a', L'b'}, {L'a', L'\0', wchar_t(0x10061)}, false); }
