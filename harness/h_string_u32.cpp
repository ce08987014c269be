#include "strspaces.hpp"
void reg_u32(const std::string& prop) { string_spaces<sl::Plain<char32_t>>(prop, "char32_t", false); }
