#define VEC_WITH_STRING
#include "vecspaces.hpp"
void vec_e(const std::string& p) {
    vec::reg_type<std::string>(p, false);
    if (p != "C23") vec::reg_type<stdb::memory::string>(p, false);
}
