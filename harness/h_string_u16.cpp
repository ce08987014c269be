#include "strspaces.hpp"
void reg_u16(const std::string& prop) { string_spaces<sl::Plain<char16_t>>(prop, "char16_t", false); }
