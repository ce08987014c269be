// C14; the spaces are in strsearch.hpp, one translation unit per character type.
#include "mc.hpp"
void reg_c();
void reg_w();
void reg_u16();
void reg_u32();
void mc_spaces(const std::string&) {
    reg_c();
    reg_w();
    reg_u16();
    reg_u32();
}
int main(int c, char** v) { return mc::main_(c, v); }
