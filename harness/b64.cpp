// Contracts for the base64 decoders (src/base64.cpp, include/fastgltf/base64.hpp).
// Spec: RFC 4648 decoding, stated per output byte: for every block q and byte j (ghost, arbitrary) output[3q+j] is
// the byte defined by the four characters of block q.  Memory obligations: nothing outside input / output is touched.
#include "src/base64.cpp"
#include "v.h"
namespace b = fastgltf::base64;
using u8 = std::uint8_t;

static u8 six(u8 c) {
    if (c >= 'A' && c <= 'Z') return c - 'A';
    if (c >= 'a' && c <= 'z') return c - 'a' + 26;
    if (c >= '0' && c <= '9') return c - '0' + 52;
    if (c == '+') return 62;
    if (c == '/') return 63;
    return 0;
}
static bool alpha(u8 c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '+' || c == '/'; }
static u8 spec(const u8* e, std::size_t q, unsigned j) {
    e += q * 4;
    switch (j) {
        case 0: return u8(six(e[0]) << 2 | six(e[1]) >> 4);
        case 1: return u8(six(e[1]) << 4 | six(e[2]) >> 2);
        default: return u8(six(e[2]) << 6 | six(e[3]));
    }
}
struct Ctx { const u8* enc; std::size_t n; u8* out; std::size_t on; std::size_t q; unsigned j; std::size_t pad; };
static Ctx G;
static bool ok(Ctx* x) { return x->out[x->q * 3 + x->j] == spec(x->enc, x->q, x->j); }
extern "C" bool b64_out(void* c, std::uint64_t t) { auto* x = (Ctx*)c; return x->q * 3 >= t || ok(x); }
extern "C" bool b64_in(void* c, std::uint64_t t) { auto* x = (Ctx*)c; return x->q * 4 >= t || ok(x); }

// requires: encoded.size() is a positive multiple of 4, padding <= 2, output has exactly size/4*3-padding bytes
// ghost output byte 3q+j with q = group*s + r: every (r, j) is a separate case
static Ctx setup(unsigned group) {
    std::size_t nb = v_size("blocks", V_MAX);
    v_assume(nb >= 1);
    std::size_t n = nb * 4;
    auto* enc = (u8*)v_bytes(n, "encoded");
    if (!v_symbolic()) for (std::size_t i = 0; i < n; ++i) if (!alpha(enc[i]) && !(i + 2 >= n && enc[i] == '=')) enc[i] = "ABCZabcz0189+/xy"[enc[i] & 15];
    std::size_t pad = v_size("padding", 2);
    std::size_t on = nb * 3 - pad;
    auto* out = (u8*)v_obj(on, "output");
    std::size_t q = v_size("ghost_group", V_MAX / group) * group + v_split("r", group);
    unsigned j = v_split("j", 3);
    v_assume(q < nb);
    v_assume(q * 3 + j < on);
    auto* e = enc + q * 4;
    // '=' (at most two) may only end the last block
    v_assume(alpha(e[0]) && alpha(e[1]) && (alpha(e[2]) || (q == nb - 1 && e[2] == '=')) && (alpha(e[3]) || (q == nb - 1 && e[3] == '=')));
    return Ctx{enc, n, out, on, q, j, pad};
}
static void check_all(Ctx& c) {      // native runs look at every byte
    if (v_symbolic()) { v_assert(ok(&c), "decoded byte equals RFC 4648"); return; }
    for (std::size_t i = 0; i < c.on; ++i) { c.q = i / 3; c.j = i % 3; v_assert(ok(&c), "decoded byte equals RFC 4648"); }
}
extern "C" void h_b64_fallback() {
    Ctx c = setup(1);
    v_loopinv(b64_out, &c); v_loopinv(b64_in, &c);
    b::fallback_decode_inplace({(const char*)c.enc, c.n}, c.out, c.pad);
    check_all(c);
    v_cover("end");
}
// contract of fallback_decode_inplace (proved by h_b64_fallback), used at its call sites in the SIMD decoders
extern "C" void stub_fallback(std::string_view encoded, u8* output, std::size_t padding) {
    std::size_t n = encoded.size();
    v_assert(n >= 4 && n % 4 == 0, "fallback contract: block-aligned input of at least one block");
    v_assert(padding <= 2, "fallback contract: padding");
    std::size_t eo = (const u8*)encoded.data() - G.enc;
    v_assert(eo % 4 == 0 && eo + n <= G.n, "fallback contract: sub-range of the input");
    v_havoc(output, n / 4 * 3 - padding);
    std::size_t b0 = eo / 4;
    if (G.q >= b0 && G.q - b0 < n / 4 && ((G.q - b0) * 3 + G.j) < n / 4 * 3 - padding)
        output[(G.q - b0) * 3 + G.j] = spec(G.enc, G.q, G.j);      // havoc, then constrained to the contracted value
}
extern "C" void h_b64_sse4() {
    G = setup(4);
    v_loopinv(b64_in, &G);
    b::sse4_decode_inplace({(const char*)G.enc, G.n}, G.out, G.pad);
    check_all(G);
    v_cover("end");
}
extern "C" void h_b64_avx2() {
    G = setup(8);
    v_loopinv(b64_in, &G);
    b::avx2_decode_inplace({(const char*)G.enc, G.n}, G.out, G.pad);
    check_all(G);
    v_cover("end");
}
