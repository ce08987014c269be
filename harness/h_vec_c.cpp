#include "vecspaces.hpp"
void vec_c(const std::string& p) { vec::reg_type<el::Re>(p, true); vec::reg_type<el::Rm>(p, false); vec::reg_type<el::Zi>(p, false); vec::reg_type<el::Sp>(p, false); }
