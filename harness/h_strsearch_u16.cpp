#include "strsearch.hpp"
void reg_u16() { Search<char16_t>::add("char16_t", {u'a', u'b'}, {u'a', u'\0', char16_t(0xff61)}, false); }
