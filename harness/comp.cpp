// Contracts for component / element decoding and conversion (include/fastgltf/tools.hpp, types.hpp).
#include <cmath>
#include <cstring>
#include <fastgltf/core.hpp>
#include <fastgltf/tools.hpp>
#include "v.h"
namespace f = fastgltf;
namespace m = fastgltf::math;
using u8 = std::uint8_t; using u16 = std::uint16_t; using u32 = std::uint32_t; using u64 = std::uint64_t;
using s8 = std::int8_t; using s16 = std::int16_t; using s32 = std::int32_t;

// ---- reference semantics, written from the glTF 2.0 specification -------------------------------------------
static u64 le(const std::byte* p, unsigned n) { u64 r = 0; for (unsigned i = 0; i < n; ++i) r |= u64(u8(p[i])) << (8 * i); return r; }
template <typename T> static T raw(const std::byte* p) {
    if constexpr (std::is_same_v<T, float>) { u32 b = (u32)le(p, 4); float r; std::memcpy(&r, &b, 4); return r; }
    else if constexpr (std::is_same_v<T, double>) { u64 b = le(p, 8); double r; std::memcpy(&r, &b, 8); return r; }
    else return (T)le(p, sizeof(T));
}
template <typename T> static bool same(T a, T b) {
    if constexpr (std::is_same_v<T, float>) { u32 x, y; std::memcpy(&x, &a, 4); std::memcpy(&y, &b, 4); return x == y || (a != a && b != b); }
    else if constexpr (std::is_same_v<T, double>) { u64 x, y; std::memcpy(&x, &a, 8); std::memcpy(&y, &b, 8); return x == y || (a != a && b != b); }
    else return a == b;
}
template <typename D, typename S> static D conv(S s, bool norm) {
    if constexpr (std::is_floating_point_v<D> && std::is_integral_v<S>) {
        if (norm) { D q = D(s) / D(std::numeric_limits<S>::max()); return q > D(-1) ? q : D(-1); }
    }
    if constexpr (std::is_integral_v<D> && std::is_floating_point_v<S>) {
        if (norm) return D(std::round(s * S(std::numeric_limits<D>::max())));
    }
    return D(s);
}
template <typename D, typename S> static bool fits(S s, bool norm) {   // float -> integer conversions are only defined in range
    if constexpr (std::is_integral_v<D> && std::is_floating_point_v<S>) {
        S x = norm ? std::round(s * S(std::numeric_limits<D>::max())) : s;
        return x > S(std::numeric_limits<D>::min()) - S(1) && x < S(std::numeric_limits<D>::max()) && (std::is_signed_v<D> || x > S(-1));
    }
    return true;
}
struct Ty { f::ComponentType t; unsigned size; };
static const Ty TY[8] = { {f::ComponentType::Byte, 1}, {f::ComponentType::UnsignedByte, 1}, {f::ComponentType::Short, 2}, {f::ComponentType::UnsignedShort, 2},
    {f::ComponentType::Int, 4}, {f::ComponentType::UnsignedInt, 4}, {f::ComponentType::Float, 4}, {f::ComponentType::Double, 8} };
template <typename F> static void withType(std::size_t k, F fn) {
    switch (k) {
        case 0: fn(s8{}); break; case 1: fn(u8{}); break; case 2: fn(s16{}); break; case 3: fn(u16{}); break;
        case 4: fn(s32{}); break; case 5: fn(u32{}); break; case 6: fn(float{}); break; default: fn(double{}); break;
    }
}
// column-major storage, every column of a matrix starts on a 4-byte boundary
static std::size_t at(f::AccessorType t, unsigned cs, std::size_t col, std::size_t row) {
    std::size_t rows = t == f::AccessorType::Mat2 ? 2 : t == f::AccessorType::Mat3 ? 3 : 4;
    std::size_t colBytes = (rows * cs + 3) / 4 * 4;
    return col * colBytes + row * cs;
}

// ---- component: deserialise + convert -----------------------------------------------------------------------
template <typename D> static void comp() {
    std::size_t k = v_split("ctype", 8);
    std::size_t idx = v_size("index", 20);
    bool norm = v_bool("normalized");
    unsigned cs = TY[k].size;
    auto* p = (const std::byte*)v_bytes((idx + 1) * cs, "bytes");
    withType(k, [&](auto tag) {
        using S = decltype(tag);
        S s = raw<S>(p + idx * cs);
        v_assert(same(f::internal::deserializeComponent<S>(p, idx), s), "component is the little-endian value at its index");
        if (std::is_integral_v<D> && std::is_same_v<S, double>) v_assume(!norm);   // not a glTF combination; the float case is kept
        v_assume((fits<D, S>(s, norm)));
        D want = conv<D, S>(s, norm);
        v_assert(same(f::internal::convertComponent<D, S>(s, norm), want), "component conversion follows the glTF normalisation rules");
        v_assert(same(f::internal::getAccessorComponentAt<D>(TY[k].t, f::AccessorType::Vec3, p, idx, norm), want), "getAccessorComponentAt decodes and converts");
    });
    v_cover("end");
}
extern "C" void h_comp_float() { comp<float>(); }
extern "C" void h_comp_double() { comp<double>(); }
extern "C" void h_comp_u8() { comp<u8>(); }
extern "C" void h_comp_s8() { comp<s8>(); }
extern "C" void h_comp_u16() { comp<u16>(); }
extern "C" void h_comp_s16() { comp<s16>(); }
extern "C" void h_comp_u32() { comp<u32>(); }
extern "C" void h_comp_s32() { comp<s32>(); }

// ---- whole elements -------------------------------------------------------------------------------------------
template <typename E, typename G> static void elem(unsigned n, G get) {
    using D = typename f::ElementTraits<E>::component_type;
    std::size_t k = v_split("ctype", 8);
    bool norm = v_bool("normalized");
    unsigned cs = TY[k].size;
    auto* p = (const std::byte*)v_bytes(n * cs, "bytes");
    withType(k, [&](auto tag) {
        using S = decltype(tag);
        if (std::is_integral_v<D> && std::is_floating_point_v<S>) v_assume(!norm);
        for (unsigned i = 0; i < n; ++i) v_assume((fits<D, S>(raw<S>(p + i * cs), norm)));
        E e = f::internal::getAccessorElementAt<E>(TY[k].t, p, norm);
        for (unsigned i = 0; i < n; ++i) v_assert(same(D(get(e, i)), conv<D, S>(raw<S>(p + i * cs), norm)), "element component i is the converted i-th stored component");
    });
    v_cover("end");
}
static auto vecGet = [](auto& e, unsigned i) { return e[i]; };
static auto scGet = [](auto& e, unsigned) { return e; };
extern "C" void h_el_u8() { elem<u8>(1, scGet); }
extern "C" void h_el_u16() { elem<u16>(1, scGet); }
extern "C" void h_el_u32() { elem<u32>(1, scGet); }
extern "C" void h_el_s32() { elem<s32>(1, scGet); }
extern "C" void h_el_float() { elem<float>(1, scGet); }
extern "C" void h_el_fvec2() { elem<m::fvec2>(2, vecGet); }
extern "C" void h_el_fvec3() { elem<m::fvec3>(3, vecGet); }
extern "C" void h_el_fvec4() { elem<m::fvec4>(4, vecGet); }
extern "C" void h_el_fquat() { elem<m::fquat>(4, vecGet); }
extern "C" void h_el_dvec3() { elem<m::dvec3>(3, vecGet); }
extern "C" void h_el_u8vec4() { elem<m::u8vec4>(4, vecGet); }
extern "C" void h_el_s8vec3() { elem<m::s8vec3>(3, vecGet); }
extern "C" void h_el_u16vec4() { elem<m::u16vec4>(4, vecGet); }
extern "C" void h_el_s16vec2() { elem<m::s16vec2>(2, vecGet); }
extern "C" void h_el_u32vec2() { elem<m::u32vec2>(2, vecGet); }
extern "C" void h_el_s32vec3() { elem<m::s32vec3>(3, vecGet); }

template <typename E, f::AccessorType AT> static void elmat(unsigned n) {
    std::size_t k = v_split("ctype", 8);
    bool norm = v_bool("normalized");
    unsigned cs = TY[k].size;
    std::size_t bytes = at(AT, cs, n, 0);
    v_assert(f::getElementByteSize(AT, TY[k].t) == bytes, "matrix element size includes the column padding");
    auto* p = (const std::byte*)v_bytes(bytes, "bytes");
    withType(k, [&](auto tag) {
        using S = decltype(tag);
        E e = f::internal::getAccessorElementAt<E>(TY[k].t, p, norm);
        for (unsigned c = 0; c < n; ++c) for (unsigned r = 0; r < n; ++r) {
            S s = raw<S>(p + at(AT, cs, c, r));
            v_assert(same(float(e.col(c)[r]), conv<float, S>(s, norm)), "matrix column c, row r is read from its padded column");
            v_assert(same(f::internal::getAccessorComponentAt<float>(TY[k].t, AT, p, c * n + r, norm), conv<float, S>(s, norm)), "getAccessorComponentAt, column-major");
            v_assert(same(f::internal::getAccessorComponentAt<float>(TY[k].t, AT, p, r * n + c, norm, true), conv<float, S>(s, norm)), "getAccessorComponentAt, transposed");
        }
    });
    v_cover("end");
}
extern "C" void h_el_mat2() { elmat<m::fmat2x2, f::AccessorType::Mat2>(2); }
extern "C" void h_el_mat3() { elmat<m::fmat3x3, f::AccessorType::Mat3>(3); }
extern "C" void h_el_mat4() { elmat<m::fmat4x4, f::AccessorType::Mat4>(4); }

// ---- type tables ------------------------------------------------------------------------------------------------
extern "C" void h_types() {
    struct A { f::AccessorType t; const char* n; unsigned comps, rows; bool mat; };
    static const A AT[7] = { {f::AccessorType::Scalar, "SCALAR", 1, 1, false}, {f::AccessorType::Vec2, "VEC2", 2, 2, false}, {f::AccessorType::Vec3, "VEC3", 3, 3, false}, {f::AccessorType::Vec4, "VEC4", 4, 4, false},
        {f::AccessorType::Mat2, "MAT2", 4, 2, true}, {f::AccessorType::Mat3, "MAT3", 9, 3, true}, {f::AccessorType::Mat4, "MAT4", 16, 4, true} };
    static const u32 GL[8] = {5120, 5121, 5122, 5123, 5124, 5125, 5126, 5130};
    for (auto& a : AT) {
        v_assert(f::getNumComponents(a.t) == a.comps, "getNumComponents");
        v_assert(f::getElementRowCount(a.t) == a.rows, "getElementRowCount");
        v_assert(f::isMatrix(a.t) == a.mat, "isMatrix");
        std::string_view n = f::getAccessorTypeName(a.t);
        v_assert(n.size() == std::strlen(a.n), "accessor type name length");
        for (unsigned i = 0; i < n.size(); ++i) v_assert(n[i] == a.n[i], "accessor type name");
        v_assert(f::getAccessorType(a.n) == a.t, "getAccessorType inverts getAccessorTypeName");
        for (unsigned k = 0; k < 8; ++k) {
            unsigned cs = TY[k].size;
            unsigned want = a.mat ? (a.comps / a.rows) * ((a.rows * cs + 3) / 4 * 4) : a.comps * cs;
            v_assert(f::getElementByteSize(a.t, TY[k].t) == want, "getElementByteSize");
        }
    }
    for (unsigned k = 0; k < 8; ++k) {
        v_assert(f::getComponentByteSize(TY[k].t) == TY[k].size, "getComponentByteSize");
        v_assert(f::getComponentBitSize(TY[k].t) == 8 * TY[k].size, "getComponentBitSize");
        v_assert(f::getGLComponentType(TY[k].t) == GL[k], "getGLComponentType");
        v_assert(f::getComponentType(u16(GL[k])) == TY[k].t, "getComponentType inverts getGLComponentType");
    }
    v_assert(f::getComponentByteSize(f::ComponentType::Invalid) == 0, "invalid component size");
    u16 any = v_u16("componentType");
    auto c = f::getComponentType(any);
    bool known = false;
    for (unsigned k = 0; k < 8; ++k) known |= any == GL[k];
    v_assert(known == (c != f::ComponentType::Invalid), "every other component type code is Invalid");
    v_cover("end");
}
