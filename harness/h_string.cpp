// C12, C13, C15, C16 for the heap strings; the spaces are in strspaces.hpp, one translation unit per character type.
#define HEAP_MAIN
#include "heap.hpp"
void reg_c(const std::string&);
void reg_w(const std::string&);
void reg_u16(const std::string&);
void reg_u32(const std::string&);
extern bool& track_heap_ref();
void mc_spaces(const std::string& prop) {
    mc::path_begin() = [] { heap::forget(); };
    track_heap_ref() = prop == "C13" || prop == "C15";
    reg_c(prop);
    reg_u16(prop);
    reg_u32(prop);
    reg_w(prop);
#ifdef NDEBUG
    heap::round_up = true;
#endif
}
int main(int c, char** v) { return mc::main_(c, v); }
