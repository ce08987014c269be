// C20-C24: stdb_vector against std::vector; the spaces are in vecspaces.hpp.
#define HEAP_MAIN
#include "veclib.hpp"
void vec_a(const std::string&);
void vec_b(const std::string&);
void vec_c(const std::string&);
void vec_d(const std::string&);
void vec_e(const std::string&);
void vec_f(const std::string&);
void mc_spaces(const std::string& prop) {
    mc::path_begin() = [] { heap::forget(); };
    vec::chk_life = prop == "C21" || prop == "C23";
    vec::chk_cap = prop == "C22";
    vec::faults = prop == "C23";
    vec_a(prop);
    vec_b(prop);
    vec_c(prop);
    vec_d(prop);
    vec_e(prop);
    vec_f(prop);
}
int main(int c, char** v) { return mc::main_(c, v); }
