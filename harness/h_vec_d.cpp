#include "vecspaces.hpp"
void vec_d(const std::string& p) { vec::reg_type<unsigned char>(p, false); vec::reg_type<bool>(p, false); vec::reg_type<el::Grade>(p, false); vec::reg_type<el::Mp>(p, false); }
