// Contracts for reading accessors (include/fastgltf/tools.hpp): random access, range, callback, bulk copy, sparse substitution.
#include <cmath>
#include <cstring>
#include <fastgltf/core.hpp>
#include <fastgltf/tools.hpp>
#include "v.h"
// link: src/fastgltf.cpp src/io.cpp src/base64.cpp
namespace f = fastgltf;
namespace m = fastgltf::math;
using u8 = std::uint8_t; using u16 = std::uint16_t; using u32 = std::uint32_t; using u64 = std::uint64_t;
using s8 = std::int8_t; using s16 = std::int16_t; using s32 = std::int32_t;
using std::size_t;

static const f::ComponentType CT[8] = { f::ComponentType::Byte, f::ComponentType::UnsignedByte, f::ComponentType::Short, f::ComponentType::UnsignedShort,
    f::ComponentType::Int, f::ComponentType::UnsignedInt, f::ComponentType::Float, f::ComponentType::Double };
static const unsigned CS[8] = { 1, 1, 2, 2, 4, 4, 4, 8 };
static const f::ComponentType IT[3] = { f::ComponentType::UnsignedByte, f::ComponentType::UnsignedShort, f::ComponentType::UnsignedInt };
static const unsigned IS[3] = { 1, 2, 4 };

// ---- the sparse index list: strictly increasing (as the glTF specification requires) ---------------------------
struct Sp { const u8 *idx, *all; size_t off; unsigned w; size_t n; size_t g; bool listed; size_t s; };   // g: ghost element; s: its position if listed
static u64 at(const Sp* c, size_t t) {
    if (c->w == 1) return c->idx[t];
    if (c->w == 2) { u16 v; std::memcpy(&v, c->idx + 2 * t, 2); return v; }
    u32 v; std::memcpy(&v, c->idx + 4 * t, 4); return v;
}
// strictly increasing, seen from the ghost element
static bool incr(const Sp* c, u64 t) {
    if (t >= c->n) return true;
    u64 v = at(c, t);
    if (!c->listed) return v != c->g;
    return t < c->s ? v < c->g : t > c->s ? v > c->g : v == c->g;
}
static bool adj(const Sp* c, u64 t) { return t + 1 >= c->n || at(c, t) < at(c, t + 1); }
extern "C" bool sp_ax(void* p, u64 t) { auto* c = (Sp*)p; return t > c->n || (incr(c, t) && incr(c, t - 1) && adj(c, t)); }
extern "C" bool sp_lo(void* p, u64 t) { auto* c = (Sp*)p; return t == 0 || (t <= c->n && at(c, t - 1) < c->g); }
extern "C" bool sp_hi(void* p, u64 t, u64 u) { auto* c = (Sp*)p; return t <= c->n && u <= c->n - t && (t + u == c->n || at(c, t + u) >= c->g); }

static Sp sparse(size_t g, size_t k, bool listed) {
    Sp c{};
    c.w = IS[k];
    c.n = v_size("sparse_count", V_MAX);
    c.off = v_size("index_offset", V_MAX) * c.w;
    c.all = (const u8*)v_words(c.n + c.off / c.w, c.w, "indices");
    c.idx = c.all + c.off;
    if (!v_symbolic()) {        // a concrete list: make it strictly increasing
        u64 prev = 0; auto* w = const_cast<u8*>(c.idx);
        for (size_t i = 0; i < c.n; ++i) {
            u64 v = at(&c, i) % 4 + (i ? prev + 1 : 0);
            v_assume(v < (u64(1) << (8 * c.w)));
            prev = v;
            for (unsigned b = 0; b < c.w; ++b) w[i * c.w + b] = u8(v >> (8 * b));
        }
    }
    c.g = g;
    if (v_symbolic()) {
        c.listed = listed;
        c.s = v_size("position", V_MAX);
        v_assume(c.listed ? c.s < c.n && at(&c, c.s) == c.g : true);
    } else {
        v_size("position", V_MAX);
        for (size_t i = 0; i < c.n; ++i) if (at(&c, i) == c.g) { c.listed = true; c.s = i; }
    }
    return c;
}
extern "C" void h_find() {
    size_t it = v_split("itype", 3), li = v_split("listed", 2);
    Sp c = sparse(v_size("element", V_MAX), it, li);
    v_axiom(sp_ax, &c); v_loopinv(sp_lo, &c); v_loopinv2(sp_hi, &c);
    size_t r = 0;
    bool found = f::internal::findSparseIndex(c.w == 1 ? IT[0] : c.w == 2 ? IT[1] : IT[2], (const std::byte*)c.idx, c.n, c.g, r);
    v_assert(found == c.listed, "an index is found exactly when it is listed");
    if (c.listed) v_assert(r == c.s, "the position of the listed index is returned");
    v_cover("end");
}

// ---- readers -------------------------------------------------------------------------------------------------------
struct Ad {
    f::span<const std::byte> v[3];
    f::span<const std::byte> operator()(const f::Asset&, size_t i) const { v_assert(i < 3, "the adapter is asked for a referenced buffer view"); return v[i]; }
};
template <typename E> struct Setup {
    f::Asset* asset; f::Accessor acc; Ad ad;
    Sp sp; bool sparse, view;
    const std::byte *buf, *vals;       // first element / first sparse value
    size_t len, off, stride, es, g;    // view length, accessor offset, stride in effect, element size, ghost element
    E want() const {
        if (sparse && sp.listed) return f::internal::getAccessorElementAt<E>(acc.componentType, vals + sp.s * es, acc.normalized);
        if (view) return f::internal::getAccessorElementAt<E>(acc.componentType, buf + g * stride, acc.normalized);
        E z; std::memset((void*)&z, 0, sizeof z); return z;
    }
};
template <typename E> static bool eq(const E& a, const E& b) { return std::memcmp(&a, &b, sizeof(E)) == 0; }
// every element lies inside its view (what validation / a well-formed asset guarantees)
template <typename E> static bool in_view(const Setup<E>* c, u64 t) { if (t >= c->acc.count || !c->view) return true;
    u64 room = c->len - c->off, x = t * c->stride;
    return x <= room && c->es <= room - x;
}

template <typename E> static void setup(Setup<E>& s, std::initializer_list<unsigned> types, bool mayBeSparse = true) {
    s.asset = (f::Asset*)v_obj(sizeof(f::Asset), "asset");
    new (&s.asset->bufferViews) decltype(s.asset->bufferViews)(3);
    unsigned k = types.begin()[v_split("ctype", types.size())];
    auto& a = s.acc;
    a.type = f::ElementTraits<E>::type;
    a.componentType = CT[k];
    a.normalized = v_bool("normalized");
    a.count = v_size("count", V_MAX);
    s.es = f::getElementByteSize(a.type, a.componentType);
    s.g = v_size("element", V_MAX);
    v_assume(s.g < a.count);
    size_t kind = v_split("source", mayBeSparse ? 3 : 2);      // no buffer view / tightly packed / byteStride
    s.view = kind != 0;
    s.stride = kind == 2 ? v_size("stride", 252) : s.es;
    if (s.view) {
        v_assume(s.stride >= s.es);
        if (kind == 2) s.asset->bufferViews[0].byteStride = s.stride;
        a.bufferViewIndex = 0;
        s.len = v_size("length", V_MAX);
        s.off = v_size("offset", V_MAX);
        v_assume(s.off <= s.len);
        a.byteOffset = s.off;
        auto* p = (const std::byte*)v_bytes(s.len, "data");
        s.ad.v[0] = f::span<const std::byte>(p, s.len);
        s.buf = p + s.off;
    }
    size_t sk = mayBeSparse ? v_split("sparse", 8) : 0;        // none / empty / index type x listed
    s.sparse = sk > 1;
    if (sk == 1) { a.sparse = f::SparseAccessor{}; a.sparse->count = 0; a.sparse->indexComponentType = IT[1]; a.sparse->indicesBufferView = 1; a.sparse->valuesBufferView = 2; a.sparse->indicesByteOffset = a.sparse->valuesByteOffset = 0; }
    if (sk > 1) {
        s.sp = ::sparse(s.g, (sk - 2) / 2, sk & 1);
        v_assume(s.sp.n > 0);
        size_t vo = v_size("values_offset", V_MAX);
        auto* p = (const std::byte*)v_bytes(vo + s.sp.n * s.es, "values");
        s.vals = p + vo;
        a.sparse = f::SparseAccessor{};
        a.sparse->count = s.sp.n;
        a.sparse->indexComponentType = IT[(sk - 2) / 2];
        a.sparse->indicesBufferView = 1; a.sparse->indicesByteOffset = s.sp.off;
        a.sparse->valuesBufferView = 2; a.sparse->valuesByteOffset = vo;
        s.ad.v[1] = f::span<const std::byte>((const std::byte*)s.sp.all, s.sp.off + s.sp.n * s.sp.w);
        s.ad.v[2] = f::span<const std::byte>(p, vo + s.sp.n * s.es);
    }
}
template <typename E> static void pick(std::initializer_list<unsigned> types) {
    Setup<E> s{};
    setup(s, types);
    v_assume(in_view(&s, s.g));
    if (s.sparse) { v_axiom(sp_ax, &s.sp); v_loopinv(sp_lo, &s.sp); v_loopinv2(sp_hi, &s.sp); }
    E e = f::getAccessorElement<E>(*s.asset, s.acc, s.g, s.ad);
    v_assert(eq(e, s.want()), "getAccessorElement returns the element the accessor defines");
    v_cover("end");
}
extern "C" void h_pick_fvec3() { pick<m::fvec3>({6, 1, 2}); }
extern "C" void h_pick_u32() { pick<u32>({1, 3, 5}); }

// iteration: position i, list cursor u, cached next listed index x
extern "C" bool it_cur(void* p, u64 i, u64 u) {
    auto* c = (Sp*)p;
    return u <= c->n && (u >= c->n || at(c, u) >= i) && (u == 0 || at(c, u - 1) < i) && (!c->listed || (c->g >= i ? u <= c->s : u > c->s));
}
extern "C" bool it_next(void* p, u64 u, u64 x) { auto* c = (Sp*)p; return u <= c->n && x == at(c, u < c->n ? u : c->n - 1); }
template <typename E> struct Seen { Setup<E>* s; E want; E got; size_t k; bool ordered; };
template <typename E> static bool seen(void* p, u64 t) { auto* c = (Seen<E>*)p; return c->k == t && c->ordered && (t <= c->s->g || eq(c->got, c->want)); }
template <typename E> static bool view_ax(void* p, u64 t) { return in_view((Setup<E>*)p, t); }
#define INST(N, E) extern "C" bool seen_##N(void* p, u64 t) { return seen<E>(p, t); } extern "C" bool view_##N(void* p, u64 t) { return view_ax<E>(p, t); }
INST(fvec3, m::fvec3) INST(u32, u32) INST(fmat3, m::fmat3x3) INST(u16, u16)
using Pred = bool (*)(void*, u64);

// how: 0 callback, 1 callback with index, 2 range
template <typename E, int How> static void iter(std::initializer_list<unsigned> types, Pred seenp, Pred viewp) {
    Setup<E> s{};
    setup(s, types);
    Seen<E> c{};
    c.s = &s; c.k = 0; c.ordered = true;
    if (v_symbolic()) v_assume(in_view(&s, s.g)); else for (size_t i = 0; i < s.acc.count; ++i) v_assume(in_view(&s, i));
    c.want = s.want();
    v_axiom(viewp, &s); v_loopinv(seenp, &c);
    if (s.sparse) { v_axiom(sp_ax, &s.sp); v_loopinv2(it_cur, &s.sp); v_loopinv2(it_next, &s.sp); }
    if constexpr (How == 0) f::iterateAccessor<E>(*s.asset, s.acc, [&](E e) { if (c.k == s.g) c.got = e; ++c.k; }, s.ad);
    if constexpr (How == 1) f::iterateAccessorWithIndex<E>(*s.asset, s.acc, [&](E e, size_t i) { c.ordered = c.ordered && i == c.k; if (i == s.g) c.got = e; ++c.k; }, s.ad);
    if constexpr (How == 2) for (auto&& e : f::IterableAccessor<E, Ad>(*s.asset, s.acc, s.ad)) { if (c.k == s.g) c.got = e; ++c.k; }
    v_assert(c.k == s.acc.count, "every element is visited exactly once");
    v_assert(c.ordered, "the index passed along is the element's position");
    v_assert(eq(c.got, c.want), "the g-th visited value is the g-th element the accessor defines");
    v_cover("end");
}
extern "C" void h_cb_fvec3() { iter<m::fvec3, 0>({6, 1, 2}, seen_fvec3, view_fvec3); }
extern "C" void h_cbi_u32() { iter<u32, 1>({1, 3, 5}, seen_u32, view_u32); }
extern "C" void h_range_fvec3() { iter<m::fvec3, 2>({6, 1, 2}, seen_fvec3, view_fvec3); }
extern "C" void h_range_u32() { iter<u32, 2>({1, 3, 5}, seen_u32, view_u32); }
