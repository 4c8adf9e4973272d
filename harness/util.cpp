// Contracts for the bit utilities and CRC-32C (include/fastgltf/util.hpp, src/fastgltf.cpp).
// link: src/io.cpp src/base64.cpp
#include "src/fastgltf.cpp"
#include "v.h"
namespace f = fastgltf;
using u8 = std::uint8_t; using u16 = std::uint16_t; using u32 = std::uint32_t; using u64 = std::uint64_t;

// CRC-32C (Castagnoli, reflected 0x82F63B78, initial value 0, no final xor), one byte
static u32 step(u32 crc, u8 c) {
    crc ^= c;
    for (int k = 0; k < 8; ++k) crc = (crc >> 1) ^ (0x82F63B78u & (0u - (crc & 1u)));
    return crc;
}
// the SSE4.2 instruction is the same function (lemma h_crc_lemma); used as the ghost step in the SSE harnesses
[[gnu::target("sse4.2")]] static u32 istep(u32 crc, u8 c) { return _mm_crc32_u8(crc, c); }
extern "C" void h_crc_lemma() {
    u32 crc = v_u32("crc"); u8 c = v_u8("c");
    v_assert(istep(crc, c) == step(crc, c), "crc32b instruction is one CRC-32C step");
    v_cover("end");
}
// S[i] is by definition the CRC of the first i bytes (ghost sequence)
struct Crc { const u8* d; std::size_t n; const u32* S; bool sse; };
static bool rec(const Crc* c, u64 t) { return t >= c->n || c->S[t + 1] == (c->sse ? istep(c->S[t], c->d[t]) : step(c->S[t], c->d[t])); }
extern "C" bool crc_inv(void* p, u64 t, u64 u) { auto* c = (Crc*)p; return t > c->n || c->S[t] == (u32)u; }
extern "C" bool crc_ax(void* p, u64 t) { auto* c = (Crc*)p; return t > c->n || (rec(c, t) && rec(c, t + 1) && rec(c, t + 2) && rec(c, t + 3)); }
static u32 ref(const Crc& c) { u32 r = 0; for (std::size_t i = 0; i < c.n; ++i) r = step(r, c.d[i]); return r; }
template <typename F> static void crc(bool sse, F fn) {
    Crc c{};
    c.sse = sse;
    c.n = v_size("len4", V_MAX / 4) * 4 + v_split("len_mod_4", 4);
    c.d = (const u8*)v_bytes(c.n, "data");
    if (!v_symbolic()) { v_assert(fn(c) == ref(c), "CRC-32C of the bytes"); return; }
    c.S = (const u32*)v_bytes((c.n + 1) * 4, "ghost_S");
    v_assume(c.S[0] == 0);
    v_axiom(crc_ax, &c); v_loopinv2(crc_inv, &c);
    u32 r = fn(c);
    v_assume(crc_ax(&c, c.n / 4 * 4));
    v_assert(r == c.S[c.n], "CRC-32C of the bytes");
    v_cover("end");
}
extern "C" void h_crc_table() { crc(false, [](Crc& c) { return f::crc32c(std::string_view((const char*)c.d, c.n)); }); }
extern "C" void h_crc_table_ptr() { crc(false, [](Crc& c) { return f::crc32c(c.d, c.n); }); }
extern "C" void h_crc_sse() { crc(true, [](Crc& c) { return f::sse_crc32c(std::string_view((const char*)c.d, c.n)); }); }
extern "C" void h_crc_sse_ptr() { crc(true, [](Crc& c) { return f::sse_crc32c(c.d, c.n); }); }

template <typename T> static void bits(T v) {
    constexpr unsigned W = sizeof(T) * 8;
    unsigned ones = 0, lead = 0;
    for (unsigned i = 0; i < W; ++i) ones += (v >> i) & 1;
    bool top = true;
    for (unsigned i = W; i-- > 0;) { if ((v >> i) & 1) top = false; if (top) ++lead; }
    v_assert(f::clz(v) == lead, "clz counts the leading zero bits");
    v_assert(f::popcount(v) == ones, "popcount counts the set bits");
}
extern "C" void h_bits8() { bits<u8>(v_u8("v")); v_cover("end"); }
extern "C" void h_bits16() { bits<u16>(v_u16("v")); v_cover("end"); }
extern "C" void h_bits32() { bits<u32>(v_u32("v")); v_cover("end"); }
extern "C" void h_bits64() { bits<u64>(v_u64("v")); v_cover("end"); }

extern "C" void h_arith() {
    {   auto x = (std::int64_t)v_u64("x64"); u64 r = f::uabs(x); v_assert(x < 0 ? r + (u64)x == 0 : r == (u64)x, "uabs 64"); v_assert(r <= (u64(1) << 63), "uabs range"); }
    {   auto x = (std::int32_t)v_u32("x32"); std::int64_t m = x; v_assert((std::int64_t)f::uabs(x) == (m < 0 ? -m : m), "uabs 32"); }
    {   auto x = (std::int16_t)v_u16("x16"); std::int64_t m = x; v_assert((std::int64_t)f::uabs(x) == (m < 0 ? -m : m), "uabs 16"); }
    {   auto x = (std::int8_t)v_u8("x8"); std::int64_t m = x; v_assert((std::int64_t)f::uabs(x) == (m < 0 ? -m : m), "uabs 8"); }
    v_cover("end");
}
extern "C" void h_align() {
    std::size_t base = v_size("base", V_MAX);
    int sh = (int)v_size("shift", 20);
    int al = 1 << sh;
    std::size_t up = f::alignUp(base, al);
    v_assert(up >= base && up - base < (std::size_t)al && up % (std::size_t)al == 0, "alignUp is the least multiple not below");
    std::size_t a4 = f::alignUp(base, 4);
    v_assert(a4 >= base && a4 - base < 4 && a4 % 4 == 0, "alignUp to the GLB chunk alignment");
    u8 d = v_u8("div"); v_assume(d != 0);
    u8 b32 = v_u8("b");
    u8 dn = f::alignDown(b32, d);
    v_assert(dn <= b32 && b32 - dn < d && dn % d == 0, "alignDown is the greatest multiple not above");
    v_cover("end");
}
extern "C" void h_le() {   // little-endian header fields
    std::byte b[4]; u32 x = v_u32("x"), y = 0;
    f::writeUint32LE(x, b);
    for (int i = 0; i < 4; ++i) v_assert(u8(b[i]) == u8(x >> 8 * i), "writeUint32LE stores little-endian");
    f::readUint32LE(y, b);
    v_assert(x == y, "readUint32LE inverts writeUint32LE");
    v_cover("end");
}
