#include "vecspaces.hpp"
void vec_b(const std::string& p) { vec::reg_type<el::Mo>(p, true); vec::reg_type<el::Co>(p, true); vec::reg_type<el::Ci>(p, false); vec::reg_type<el::Kon>(p, false); }
