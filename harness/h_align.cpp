// C31: rounding and size literals, exhaustively over dense ranges and neighbourhoods of every power of two.
#include "mc.hpp"
#include "align/align.hpp"
#include "memory.hpp"
using namespace mc;
using u64 = uint64_t;
using u128 = unsigned __int128;

static void check_up(const char* what, u64 n, u64 b, u64 r) {
    u128 expect = (u128(n) + b - 1) / b * b;
    if (expect >> 64) return;  // not representable: unspecified
    MC_CHECK(r == u64(expect), "%s(%lu, multiple %lu) = %lu, smallest multiple not below is %lu", what, n, b, r, u64(expect));
}
template <u64 N>
static void upto(u64 n) {
    check_up("AlignUpTo", n, N, stdb::memory::align::AlignUpTo<N>(n));
    step();
}
template <u64... K>
static void all_upto(u64 n, std::integer_sequence<u64, K...>) { (upto<(u64(1) << (K + 3))>(n), ...); }
// neighbourhood of 2^k (k = 64: the top of the range)
static u64 near(int k, int d) { return (k == 64 ? u64(0) : u64(1) << k) + u64(int64_t(d)); }

namespace lit {
using namespace stdb::memory::literals;
struct L { const char* text; u64 got, want; };
#define LIT(n) {#n "_KB", n##_KB, u64(n) << 10}, {#n "_MB", n##_MB, u64(n) << 20}, {#n "_GB", n##_GB, u64(n) << 30}
static const L table[] = {
  LIT(0), LIT(1), LIT(2), LIT(3), LIT(4), LIT(5), LIT(6), LIT(7), LIT(8), LIT(9), LIT(10), LIT(11), LIT(12), LIT(16), LIT(19), LIT(20), LIT(29),
  LIT(31), LIT(32), LIT(48), LIT(64), LIT(73), LIT(80), LIT(88), LIT(90), LIT(99), LIT(100), LIT(101), LIT(109), LIT(110), LIT(127), LIT(128), LIT(199), LIT(200),
  LIT(255), LIT(256), LIT(512), LIT(999), LIT(1000), LIT(1001), LIT(1023), LIT(1024), LIT(1025), LIT(4096), LIT(9999), LIT(10000), LIT(65535), LIT(65536), LIT(102030), LIT(123456), LIT(987654), LIT(1048575), LIT(1048576),
  LIT(123456789), LIT(1000000000), LIT(4294967295), LIT(4294967296), LIT(9876543210), LIT(17179869183)};
}  // namespace lit

void mc_spaces(const std::string&) {
    u64 dense = thorough() ? 1 << 21 : 1 << 16;
    mc::add("C31", "AlignUpTo 2^3..2^63, dense low range", 256, [=](u64 t) {
        for (u64 n = t * (dense / 256); n < (t + 1) * (dense / 256); ++n) all_upto(n, std::make_integer_sequence<u64, 61>());
        state(t);
    });
    mc::add("C31", "AlignUpTo around every power of two", 62, [](u64 t) {
        int w = thorough() ? 5000 : 600;
        for (int d = -w; d <= w; ++d) all_upto(near(int(t) + 3, d), std::make_integer_sequence<u64, 61>());
        MC_NOTE("inputs 2^%d %+d..%+d", int(t) + 3, -w, w);
        state(1000 + t);
    });
    u64 blocks = thorough() ? 4096 : 600;
    mc::add("C31", "AlignUp dense inputs x dense block sizes", blocks, [=](u64 t) {
        u64 b = t + 1;
        for (u64 n = 0; n < (thorough() ? 20000u : 3000u); ++n) { check_up("AlignUp", n, b, stdb::memory::align::AlignUp(n, b)); step(); }
        state(2000 + t);
    });
    mc::add("C31", "AlignUp around every power of two x block sizes around every power of two", 64, [](u64 t) {
        for (int k = 0; k < 64; ++k)
            for (int e = -3; e <= 3; ++e) {
                u64 b = near(k, e);
                if (b == 0) continue;
                for (int d = -24; d <= 24; ++d) {
                    u64 n = near(int(t) + 1, d);
                    check_up("AlignUp", n, b, stdb::memory::align::AlignUp(n, b));
                    step();
                }
                // multiples of the block and their neighbours
                for (u64 m : {u64(1), u64(2), u64(3), u64(5), u64(7)})
                    for (int d = -1; d <= 1; ++d) {
                        u128 v = u128(b) * (m + t);
                        if (v >> 63) continue;
                        check_up("AlignUp", u64(v) + u64(int64_t(d)), b, stdb::memory::align::AlignUp(u64(v) + u64(int64_t(d)), b));
                        step();
                    }
            }
        MC_NOTE("inputs around 2^%d", int(t) + 1);
        state(4000 + t);
    });
    mc::add("C31", "size literals", sizeof(lit::table) / sizeof(lit::table[0]), [](u64 t) {
        auto& l = lit::table[t];
        MC_NOTE("%s == %lu", l.text, l.want);
        MC_CHECK(l.got == l.want, "%s = %lu, expected %lu", l.text, l.got, l.want);
        // and at run time
        using namespace stdb::memory::literals;
        std::string digits(l.text, strlen(l.text) - 3);
        u64 unit = l.text[strlen(l.text) - 2] == 'K' ? 10 : l.text[strlen(l.text) - 2] == 'M' ? 20 : 30;
        MC_CHECK(stoi(digits.c_str()) << unit == l.want, "stoi(\"%s\") = %lu", digits.c_str(), stoi(digits.c_str()));
        step(2);
        state(t);
    });
    mc::add("C31", "digit strings read at run time", 100, [](u64 t) {
        for (u64 n = t * 1000; n < (t + 1) * 1000; ++n) {
            std::string s = std::to_string(n);
            MC_CHECK(stdb::memory::literals::stoi(s.c_str()) == n, "stoi(%s)", s.c_str());
            step();
        }
        for (int c = 0; c < 256; ++c)
            MC_CHECK(stdb::memory::literals::is_digit(char(c)) == (c >= '0' && c <= '9'), "is_digit(%d)", c);
        state(9000 + t);
    });
}
int main(int c, char** v) { return mc::main_(c, v); }
