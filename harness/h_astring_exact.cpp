#include "astrspaces.hpp"
void reg_exact(const std::string& prop) { spaces<0>(prop, "arena string, exact resource"); }
