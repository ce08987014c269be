// element sizes around every threshold of the growth policy
#include "vecspaces.hpp"
void vec_f(const std::string& p) {
    if (p != "C22") return;
    using vec::Run;
    const char* c = "C22";
    Run<int>::capacity_large(c, 300000);
    Run<unsigned char>::capacity_large(c, 1200000);
    Run<el::P2>::capacity_large(c, 150000);
    Run<el::Mov>::capacity_large(c, 100000);
    Run<el::Re>::capacity_large(c, 100000);
    Run<el::Sp>::capacity_large(c, 100000);
    Run<el::Big<3>>::capacity(c, 200);
    Run<el::Big<63>>::capacity(c, 200);
    Run<el::Big<64>>::capacity(c, 200);
    Run<el::Big<65>>::capacity(c, 200);
    Run<el::Big<4096>>::capacity(c, 100);
    Run<el::Big<65536>>::capacity(c, 24);
    Run<el::Big<131072>>::capacity(c, 14);
    Run<el::Big<131073>>::capacity(c, 14);
    Run<el::Big<300000>>::capacity(c, 10);
}
