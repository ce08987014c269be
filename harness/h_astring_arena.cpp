#include "astrspaces.hpp"
void reg_arena(const std::string& prop) { spaces<1>(prop, "arena string, arena"); }
