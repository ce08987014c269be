#include "strsearch.hpp"
void reg_c() { Search<char>::add("char", {'a', 'b'}, {'a', '\0', '\xe9'}, true); }
