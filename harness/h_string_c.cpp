#include "strspaces.hpp"
void reg_c(const std::string& prop) { string_spaces<sl::Plain<char>>(prop, "char", true); }
bool& track_heap_ref() { return heap::track; }
