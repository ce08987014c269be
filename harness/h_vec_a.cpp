#include "vecspaces.hpp"
void vec_a(const std::string& p) { vec::reg_type<int>(p, true); vec::reg_type<el::Mov>(p, true); vec::reg_type<el::P2>(p, false); }
