#include "strspaces.hpp"
void reg_w(const std::string& prop) { string_spaces<sl::Plain<wchar_t>>(prop, "wchar_t", false); }
