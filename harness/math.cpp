// Contracts for include/fastgltf/math.hpp and the node transform helpers, over the reals.
#include <fastgltf/core.hpp>
#include <fastgltf/tools.hpp>
#include "v.h"
#include <cmath>
// link: src/fastgltf.cpp src/io.cpp src/base64.cpp
namespace m = fastgltf::math;
using std::size_t;

#ifdef V_SYMBOLIC
static float R(const char* n) { return v_f32(n); }
static double Rd(const char* n) { return v_f64(n); }
template <typename T> static bool eq(T a, T b) { return a == b; }
#else
// native runs use a coarse grid so that rounding cannot be mistaken for an error
template <typename T> static T grid(T f) { if (!std::isfinite(f)) return 0; return std::round(std::fmod(f, T(8)) * 4) / 4; }
static float R(const char* n) { return grid(v_f32(n)); }
static double Rd(const char* n) { return grid(v_f64(n)); }
template <typename T> static bool eq(T a, T b) { return std::fabs(a - b) <= 2e-2 * (1 + std::fabs(a) + std::fabs(b)); }
#endif
template <typename T> static T in(const char* n) { if constexpr (std::is_same_v<T, double>) return Rd(n); else return R(n); }
template <typename T, size_t N> static m::vec<T, N> V(const char* n) { m::vec<T, N> v; for (size_t i = 0; i < N; ++i) v[i] = in<T>(n); return v; }
template <typename T> static m::quat<T> Q(const char* n) { m::quat<T> v; for (size_t i = 0; i < 4; ++i) v[i] = in<T>(n); return v; }
template <typename T, size_t N, size_t M> static m::mat<T, N, M> Mx(const char* n) { m::mat<T, N, M> a; for (size_t c = 0; c < M; ++c) for (size_t r = 0; r < N; ++r) a.col(c)[r] = in<T>(n); return a; }
static void conditioned([[maybe_unused]] double d) {   // native runs only look at well-conditioned operands; the proof covers all
#ifndef V_SYMBOLIC
    v_assume(std::fabs(d) >= 0.05 && std::fabs(d) <= 50);
#endif
}
#ifdef V_SYMBOLIC
static void small(float) {}
#else
static void small(float x) { v_assume(std::fabs(x) <= 20 && (x == 0 || std::fabs(x) >= 0.05)); }
#endif

template <typename T, size_t N> static void vecops() {
    auto a = V<T, N>("a"), b = V<T, N>("b"); T s = in<T>("s");
    v_assume(s != 0); conditioned(s);
    for (size_t i = 0; i < N; ++i) { v_assume(b[i] != 0); conditioned(b[i]); }
    const auto a0 = a, b0 = b;
    auto mul = a * s, mulv = a * b, div = a / s, divv = a / b, add = a + s, addv = a + b, sub = a - s, subv = a - b, neg = -a, pos = +a;
    for (size_t i = 0; i < N; ++i) {
        v_assert(eq(mul[i], a0[i] * s), "v*s"); v_assert(eq(mulv[i], a0[i] * b0[i]), "v*v");
        v_assert(eq(div[i] * s, a0[i]), "v/s"); v_assert(eq(divv[i] * b0[i], a0[i]), "v/v");
        v_assert(eq(add[i], a0[i] + s), "v+s"); v_assert(eq(addv[i], a0[i] + b0[i]), "v+v");
        v_assert(eq(sub[i], a0[i] - s), "v-s"); v_assert(eq(subv[i], a0[i] - b0[i]), "v-v");
        v_assert(neg[i] == -a0[i] && pos[i] == a0[i], "-v +v");
        v_assert(a[i] == a0[i] && b[i] == b0[i], "operands unchanged");
    }
    {   auto t = a; t *= s; auto u = a; u *= b; auto d = a; d /= s; auto e = a; e /= b; auto p = a; p += s; auto q = a; q += b; auto x = a; x -= s; auto y = a; y -= b;
        for (size_t i = 0; i < N; ++i) {
            v_assert(eq(t[i], a0[i] * s) && eq(u[i], a0[i] * b0[i]), "v*="); v_assert(eq(d[i] * s, a0[i]), "v/=s"); v_assert(eq(e[i] * b0[i], a0[i]), "v/=v");
            v_assert(eq(p[i], a0[i] + s) && eq(q[i], a0[i] + b0[i]), "v+="); v_assert(eq(x[i], a0[i] - s) && eq(y[i], a0[i] - b0[i]), "v-=");
        }
    }
    {   auto p = a; auto old = p++; auto q = a; auto old2 = q--;
        for (size_t i = 0; i < N; ++i) { v_assert(eq(p[i], a0[i] + 1) && eq(q[i], a0[i] - 1), "increment decrement"); v_assert(old[i] == a0[i] && old2[i] == a0[i], "postfix returns the old value"); } }
    bool same = true; for (size_t i = 0; i < N; ++i) same = same && a[i] == b[i];
    v_assert((a == b) == same && (a != b) == !same, "comparison");
    T d = 0, sm = 0; for (size_t i = 0; i < N; ++i) { d += a0[i] * b0[i]; sm += a0[i]; }
    v_assert(eq(m::dot(a, b), d), "dot"); v_assert(eq(m::sum(a), sm), "sum");
    v_assert(a.size() == N && a.size_bytes() == N * sizeof(T) && a.data() == &a[0], "size and data");
    T arr[N]; for (size_t i = 0; i < N; ++i) arr[i] = a0[i];
    auto fp = m::vec<T, N>::fromPointer(arr);
    m::vec<T, N> filled(s);
    for (size_t i = 0; i < N; ++i) v_assert(fp[i] == a0[i] && filled[i] == s, "fromPointer and fill");
    v_assert(a.x() == a0[0] && a.y() == a0[1], "x y");
    if constexpr (N >= 3) v_assert(a.z() == a0[2], "z");
    if constexpr (N >= 4) v_assert(a.w() == a0[3], "w");
    v_cover("end");
}
template <typename T, size_t N, size_t K> static void conv1(const m::vec<T, N>& a) {
    m::vec<T, K> c(a), d; d[0] = T(7); d = a;
    for (size_t i = 0; i < K; ++i) { T e = i < N ? a[i] : T(0); v_assert(c[i] == e && d[i] == e, "resizing a vector keeps the leading components and zero-fills"); }
}
template <typename T, size_t N> static void conv() {
    auto a = V<T, N>("a");
    conv1<T, N, 2>(a); conv1<T, N, 3>(a); conv1<T, N, 4>(a);
    using U = std::conditional_t<std::is_same_v<T, float>, double, float>;
    m::vec<U, N> c(a), d; d = a;
    for (size_t i = 0; i < N; ++i) v_assert(c[i] == U(a[i]) && d[i] == U(a[i]), "component type conversion");
    T lo = in<T>("lo"), hi = in<T>("hi"), t = in<T>("t"); v_assume(lo <= hi);
    auto cl = m::clamp(a, lo, hi); auto b = V<T, N>("b"); auto lp = m::lerp(a, b, t);
    for (size_t i = 0; i < N; ++i) {
        v_assert(cl[i] == (a[i] < lo ? lo : a[i] > hi ? hi : a[i]), "clamp");
        v_assert(eq(lp[i], a[i] * (1 - t) + b[i] * t), "lerp");
    }
    v_cover("end");
}
template <typename T, size_t N> static void len() {
    auto a = V<T, N>("a");
    T n2 = 0; for (size_t i = 0; i < N; ++i) n2 += a[i] * a[i];
    conditioned(n2);
    T l = m::length(a);
    v_assert(l >= 0, "length is not negative"); v_assert(eq(l * l, n2), "length squared is the dot product");
    v_assume(l != 0);
    auto u = m::normalize(a);
    for (size_t i = 0; i < N; ++i) v_assert(eq(u[i] * l, a[i]), "normalize divides by the length");
    v_cover("end");
}
#define VEC(N) extern "C" void h_vec##N() { vecops<float, N>(); } extern "C" void h_dvec##N() { vecops<double, N>(); } \
    extern "C" void h_conv##N() { conv<float, N>(); } extern "C" void h_dconv##N() { conv<double, N>(); } extern "C" void h_len##N() { len<float, N>(); } extern "C" void h_dlen##N() { len<double, N>(); }
VEC(2) VEC(3) VEC(4)
template <typename T> static void cross() {
    auto a = V<T, 3>("a"), b = V<T, 3>("b"); auto c = m::cross(a, b);
    v_assert(eq(c[0], a[1] * b[2] - a[2] * b[1]), "cross x"); v_assert(eq(c[1], a[2] * b[0] - a[0] * b[2]), "cross y"); v_assert(eq(c[2], a[0] * b[1] - a[1] * b[0]), "cross z");
    v_cover("end");
}
extern "C" void h_cross() { cross<float>(); } extern "C" void h_dcross() { cross<double>(); }

template <typename T> static void quatops() {
    auto a = Q<T>("a"), b = Q<T>("b"); T s = in<T>("s"); v_assume(s != 0); conditioned(s);
    const auto a0 = a;
    auto mul = a * s, div = a / s, add = a + b, sub = a - b, neg = -a, pos = +a;
    auto t = a; t *= s; auto u = a; u /= s; auto p = a; p += b; auto q = a; q -= b;
    T d = 0;
    for (size_t i = 0; i < 4; ++i) {
        v_assert(eq(mul[i], a0[i] * s) && eq(t[i], a0[i] * s), "q*s"); v_assert(eq(div[i] * s, a0[i]) && eq(u[i] * s, a0[i]), "q/s");
        v_assert(eq(add[i], a0[i] + b[i]) && eq(p[i], a0[i] + b[i]), "q+q"); v_assert(eq(sub[i], a0[i] - b[i]) && eq(q[i], a0[i] - b[i]), "q-q");
        v_assert(neg[i] == -a0[i] && pos[i] == a0[i] && a[i] == a0[i], "-q +q");
        d += a0[i] * b[i];
    }
    v_assert(eq(m::dot(a, b), d), "quaternion dot");
    bool same = true; for (size_t i = 0; i < 4; ++i) same = same && a[i] == b[i];
    v_assert((a == b) == same && (a != b) == !same, "comparison");
    m::quat<T> id; v_assert(id[0] == 0 && id[1] == 0 && id[2] == 0 && id[3] == 1, "default quaternion is the identity");
    m::quat<T> k(a0[0], a0[1], a0[2], a0[3]);
    v_assert(k.x() == a0[0] && k.y() == a0[1] && k.z() == a0[2] && k.w() == a0[3], "constructor order x y z w");
    T arr[4] = { a0[0], a0[1], a0[2], a0[3] }; v_assert(m::quat<T>::fromPointer(arr) == k, "fromPointer");
    v_assert(k.size() == 4 && k.size_bytes() == 4 * sizeof(T) && k.data() == &k[0], "size");
    v_cover("end");
}
extern "C" void h_quat() { quatops<float>(); } extern "C" void h_dquat() { quatops<double>(); }
template <typename T> static void qnorm() {
    auto a = Q<T>("a"); T n2 = 0; for (size_t i = 0; i < 4; ++i) n2 += a[i] * a[i];
    v_assume(n2 != 0); conditioned(n2);
    auto u = m::normalize(a);
    T un = 0, ua = 0; for (size_t i = 0; i < 4; ++i) { un += u[i] * u[i]; ua += u[i] * a[i]; }
    v_assert(eq(un, T(1)), "normalized quaternion has length 1");
    for (size_t i = 0; i < 4; ++i) for (size_t j = 0; j < i; ++j) v_assert(eq(u[i] * a[j], u[j] * a[i]), "normalized quaternion keeps its direction");
    v_assert(eq(ua * ua, n2), "normalized quaternion is a rescaling");
    v_cover("end");
}
extern "C" void h_qnorm() { qnorm<float>(); } extern "C" void h_dqnorm() { qnorm<double>(); }

// the rotation of a unit quaternion, column c, row r (v -> q v q*)
template <typename T> static T rotEntry(const m::quat<T>& q, size_t c, size_t r) {
    T x = q[0], y = q[1], z = q[2], w = q[3];
    T v[3] = { T(c == 0), T(c == 1), T(c == 2) };
    T tx = 2 * (y * v[2] - z * v[1]), ty = 2 * (z * v[0] - x * v[2]), tz = 2 * (x * v[1] - y * v[0]);
    T o[3] = { v[0] + w * tx + (y * tz - z * ty), v[1] + w * ty + (z * tx - x * tz), v[2] + w * tz + (x * ty - y * tx) };
    return o[r];
}
template <typename T> static m::quat<T> unit() {
    auto q = Q<T>("q"); T n2 = q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3];
#ifdef V_SYMBOLIC
    v_assume(n2 == 1);
#else
    v_assume(n2 > 0.01); T l = std::sqrt(n2); for (size_t i = 0; i < 4; ++i) q[i] /= l;
#endif
    return q;
}
template <typename T> static void qmat() {
    auto q = unit<T>(); auto M = m::asMatrix(q);
    for (size_t c = 0; c < 3; ++c) for (size_t r = 0; r < 3; ++r) v_assert(eq(M.col(c)[r], rotEntry(q, c, r)), "matrix of a unit quaternion is its rotation");
    for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) { T d = 0; for (size_t r = 0; r < 3; ++r) d += M.col(i)[r] * M.col(j)[r]; v_assert(eq(d, T(i == j)), "rotation matrix is orthonormal"); }
    v_assert(eq(m::determinant(M), T(1)), "rotation matrix has determinant 1");
    v_cover("end");
}
extern "C" void h_qmat() { qmat<float>(); } extern "C" void h_dqmat() { qmat<double>(); }

template <typename T, size_t N, size_t M> static void matops() {
    auto a = Mx<T, N, M>("a"), b = Mx<T, N, M>("b"); T s = in<T>("s"); v_assume(s != 0); conditioned(s);
    const auto a0 = a;
    auto mul = a * s, div = a / s, neg = -a; auto tr = m::transpose(a);
    m::mat<T, N, M> id, dg(s);
    for (size_t c = 0; c < M; ++c) for (size_t r = 0; r < N; ++r) {
        T x = a0.col(c)[r];
        v_assert(eq(mul.col(c)[r], x * s), "M*s"); v_assert(eq(div.col(c)[r] * s, x), "M/s"); v_assert(neg.col(c)[r] == -x, "-M");
        v_assert(tr.col(r)[c] == x, "transpose"); v_assert(a.row(r)[c] == x, "row"); v_assert(a[c][r] == x && a.data()[c * N + r] == x, "column-major element access");
        v_assert(id[c][r] == T(c == r) && dg[c][r] == (c == r ? s : T(0)), "diagonal constructor");
    }
    bool same = true; for (size_t c = 0; c < M; ++c) for (size_t r = 0; r < N; ++r) same = same && a[c][r] == b[c][r];
    v_assert((a == b) == same && (a != b) == !same, "matrix comparison looks at every element");
    v_assert(a.columns() == M && a.rows() == N && a.size() == N * M && a.size_bytes() == N * M * sizeof(T), "dimensions");
    v_cover("end");
}
template <typename T, size_t N, size_t M, size_t... I> static m::mat<T, N, M> build(const T* e, std::index_sequence<I...>) { return m::mat<T, N, M>(e[I]...); }
template <typename T, size_t N, size_t M, size_t... I> static m::mat<T, N, M> buildc(const m::vec<T, N>* e, std::index_sequence<I...>) { return m::mat<T, N, M>(e[I]...); }
template <typename T, size_t N, size_t M> static void matctor() {
    T e[N * M]; for (auto& x : e) x = in<T>("e");
    auto a = build<T, N, M>(e, std::make_index_sequence<N * M>());
    m::vec<T, N> cs[M]; for (size_t c = 0; c < M; ++c) for (size_t r = 0; r < N; ++r) cs[c][r] = e[c * N + r];
    auto b = buildc<T, N, M>(cs, std::make_index_sequence<M>());
    for (size_t c = 0; c < M; ++c) for (size_t r = 0; r < N; ++r) v_assert(a.col(c)[r] == e[c * N + r] && b.col(c)[r] == e[c * N + r], "element constructor is column-major");
    v_cover("end");
}
template <typename T, size_t N, size_t M, size_t Q> static void matmul() {
    auto a = Mx<T, N, M>("a"); auto b = Mx<T, M, Q>("b"); auto p = a * b;
    for (size_t c = 0; c < Q; ++c) for (size_t r = 0; r < N; ++r) { T s = 0; for (size_t k = 0; k < M; ++k) s += a.col(k)[r] * b.col(c)[k]; v_assert(eq(p.col(c)[r], s), "matrix product"); }
    if constexpr (N == M) { auto v = V<T, M>("v"); auto u = a * v; for (size_t r = 0; r < N; ++r) { T s = 0; for (size_t k = 0; k < M; ++k) s += a.col(k)[r] * v[k]; v_assert(eq(u[r], s), "matrix times vector"); } }
    v_cover("end");
}
#define MAT(N, M) extern "C" void h_mat##N##M() { matops<float, N, M>(); } extern "C" void h_matc##N##M() { matctor<float, N, M>(); } extern "C" void h_dmat##N##M() { matops<double, N, M>(); }
MAT(2, 2) MAT(2, 3) MAT(2, 4) MAT(3, 2) MAT(3, 3) MAT(3, 4) MAT(4, 2) MAT(4, 3) MAT(4, 4)
#define MUL(N, M, Q) extern "C" void h_mul##N##M##Q() { matmul<float, N, M, Q>(); } extern "C" void h_dmul##N##M##Q() { matmul<double, N, M, Q>(); }
MUL(2, 2, 2) MUL(3, 3, 3) MUL(4, 4, 4) MUL(2, 3, 4) MUL(4, 3, 2) MUL(3, 4, 2)
// determinant by permutation expansion
template <typename T, size_t N> static T det(const m::mat<T, N, N>& a) {
    size_t p[N]; for (size_t i = 0; i < N; ++i) p[i] = i;
    T s = 0;
    size_t total = 1; for (size_t i = 0; i < N; ++i) { size_t t = 1; for (size_t j = 0; j < N; ++j) t *= N; (void)t; total *= N; }
    for (size_t k = 0; k < total; ++k) {
        size_t x = k; unsigned seen = 0; int inv = 0; T prod = 1;
        for (size_t i = 0; i < N; ++i) { p[i] = x % N; x /= N; seen |= 1u << p[i]; for (size_t j = 0; j < i; ++j) inv += p[j] > p[i]; }
        if (seen != (1u << N) - 1) continue;
        for (size_t i = 0; i < N; ++i) prod *= a.col(i)[p[i]];
        s += inv % 2 ? -prod : prod;
    }
    return s;
}
template <typename T, size_t N> static void inverse() {
    auto a = Mx<T, N, N>("a"); T d = det(a);
    v_assert(eq(m::determinant(a), d), "determinant");
    v_assume(d != 0); conditioned(d);
#ifndef V_SYMBOLIC
    for (size_t c = 0; c < N; ++c) for (size_t r = 0; r < N; ++r) small(a[c][r]);
#endif
    auto b = m::inverse(a);
    for (size_t c = 0; c < N; ++c) for (size_t r = 0; r < N; ++r) {
        T s = 0, t = 0; for (size_t k = 0; k < N; ++k) { s += a.col(k)[r] * b.col(c)[k]; t += b.col(k)[r] * a.col(c)[k]; }
        v_assert(eq(s, T(c == r)), "M * inverse(M) is the identity"); v_assert(eq(t, T(c == r)), "inverse(M) * M is the identity");
    }
    v_cover("end");
}
#define INV(N) extern "C" void h_inv##N() { inverse<float, N>(); } extern "C" void h_dinv##N() { inverse<double, N>(); }
INV(2) INV(3) INV(4)
template <typename T> static void affine() {
    auto a = Mx<T, 4, 4>("a");
    for (size_t c = 0; c < 4; ++c) a.col(c)[3] = T(c == 3);
    T d = det(a); v_assume(d != 0); conditioned(d);
#ifndef V_SYMBOLIC
    for (size_t c = 0; c < 4; ++c) for (size_t r = 0; r < 3; ++r) small(a[c][r]);
#endif
    auto b = m::affineInverse(a);
    for (size_t c = 0; c < 4; ++c) for (size_t r = 0; r < 4; ++r) {
        T s = 0, t = 0; for (size_t k = 0; k < 4; ++k) { s += a.col(k)[r] * b.col(c)[k]; t += b.col(k)[r] * a.col(c)[k]; }
        v_assert(eq(s, T(c == r)), "M * affineInverse(M) is the identity"); v_assert(eq(t, T(c == r)), "affineInverse(M) * M is the identity");
    }
    v_cover("end");
}
extern "C" void h_affine() { affine<float>(); } extern "C" void h_daffine() { affine<double>(); }
template <size_t N, size_t Q> static void resize() {
    auto a = Mx<float, N, N>("a"); m::mat<float, Q, Q> b(a);
    for (size_t c = 0; c < Q; ++c) for (size_t r = 0; r < Q; ++r) v_assert(b[c][r] == (c < N && r < N ? a[c][r] : float(c == r)), "resized matrix keeps its block and is padded with the identity");
}
extern "C" void h_resize() { resize<4, 3>(); resize<4, 2>(); resize<3, 2>(); resize<2, 3>(); resize<2, 4>(); resize<3, 4>(); v_cover("end"); }

template <typename T> static void slerp() {   // linear branch only: libm functions are uninterpreted
    auto q = Q<T>("a"); auto p = Q<T>("b");
    T d = m::dot(q, p); v_assume(d > T(0.9996));
    auto z = m::slerp(q, p, T(0)), o = m::slerp(q, p, T(1)); auto nz = m::normalize(q), no = m::normalize(p);
    for (size_t i = 0; i < 4; ++i) { v_assert(eq(z[i], nz[i]), "slerp at 0 starts at the first quaternion"); v_assert(eq(o[i], no[i]), "slerp at 1 ends at the second quaternion"); }
    v_cover("end");
}
extern "C" void h_slerp() { slerp<float>(); }

// ---------------------------------------------------------------- P06
template <typename T> static void elementary() {
    auto a = Mx<T, 4, 4>("a"); auto t = V<T, 3>("t"), s = V<T, 3>("s"); auto q = Q<T>("q");
    auto tr = m::translate(a, t), sc = m::scale(a, s), ro = m::rotate(a, q); auto R = m::asMatrix(q);
    for (size_t r = 0; r < 4; ++r) {
        for (size_t c = 0; c < 3; ++c) {
            v_assert(tr.col(c)[r] == a.col(c)[r], "translate keeps the linear part"); v_assert(eq(sc.col(c)[r], a.col(c)[r] * s[c]), "scale multiplies the columns");
            T x = 0; for (size_t k = 0; k < 3; ++k) x += a.col(k)[r] * R.col(c)[k];
            v_assert(eq(ro.col(c)[r], x), "rotate is M * R");
        }
        v_assert(eq(tr.col(3)[r], a.col(0)[r] * t[0] + a.col(1)[r] * t[1] + a.col(2)[r] * t[2] + a.col(3)[r]), "translate is M * T");
        v_assert(eq(sc.col(3)[r], a.col(3)[r]) && eq(ro.col(3)[r], a.col(3)[r]), "scale and rotate keep the translation column");
    }
    v_cover("end");
}
extern "C" void h_elem() { elementary<float>(); } extern "C" void h_delem() { elementary<double>(); }
struct Trs { m::fvec3 t; m::fquat q; m::fvec3 s; };
static Trs trs() { Trs x; x.t = V<float, 3>("t"); x.q = unit<float>(); x.s = V<float, 3>("s"); return x; }
static float entry(const Trs& x, size_t c, size_t r) { return c == 3 ? (r == 3 ? 1.f : x.t[r]) : r == 3 ? 0.f : rotEntry(x.q, c, r) * x.s[c]; }
extern "C" void h_local() {     // getLocalTransformMatrix / getTransformMatrix of a TRS node
    auto x = trs();
    auto* n = new (v_obj(sizeof(fastgltf::Node), "node")) fastgltf::Node();
    fastgltf::TRS k; k.translation = x.t; k.rotation = x.q; k.scale = x.s;
    n->transform = k;
    auto M = fastgltf::getLocalTransformMatrix(*n);
    auto B = Mx<float, 4, 4>("base");
    auto G = fastgltf::getTransformMatrix(*n, B);
    for (size_t c = 0; c < 4; ++c) for (size_t r = 0; r < 4; ++r) {
        v_assert(eq(M.col(c)[r], entry(x, c, r)), "local matrix is T*R*S");
        float g = 0; for (size_t i = 0; i < 4; ++i) g += B.col(i)[r] * entry(x, c, i);
        v_assert(eq(G.col(c)[r], g), "global matrix is base * T*R*S");
    }
    v_cover("end");
}
extern "C" void h_localm() {    // ... of a matrix node
    auto A = Mx<float, 4, 4>("m"); auto B = Mx<float, 4, 4>("base");
    auto* n = new (v_obj(sizeof(fastgltf::Node), "node")) fastgltf::Node();
    n->transform = A;
    auto M = fastgltf::getLocalTransformMatrix(*n); auto G = fastgltf::getTransformMatrix(*n, B);
    for (size_t c = 0; c < 4; ++c) for (size_t r = 0; r < 4; ++r) {
        v_assert(M.col(c)[r] == A.col(c)[r], "local matrix is the node's matrix");
        float g = 0; for (size_t i = 0; i < 4; ++i) g += B.col(i)[r] * A.col(c)[i];
        v_assert(eq(G.col(c)[r], g), "global matrix is base * matrix");
    }
    v_cover("end");
}
extern "C" void h_qneg() {      // q and -q denote the same rotation
    auto x = trs(), y = x; y.q = -x.q;
    for (size_t i = 0; i < 4; ++i) v_assert(y.q[i] == -x.q[i], "negated quaternion");
    for (size_t c = 0; c < 4; ++c) for (size_t r = 0; r < 4; ++r) v_assert(eq(entry(y, c, r), entry(x, c, r)), "the matrix does not depend on the quaternion's sign");
    v_cover("end");
}
extern "C" void h_decompose() {
    // the cases cover every unit quaternion whose largest component is positive; -q is the same rotation (h_qneg)
    size_t sg = v_split("signs", 8), big = v_split("largest", 4);
    sg = big == 0 ? sg << 1 : big == 1 ? (sg & 1) | (sg & 6) << 1 : big == 2 ? (sg & 3) | (sg & 4) << 1 : sg;
    auto x = trs();
    static const size_t rank[4] = { 1, 2, 3, 0 };
    auto mag = [&](size_t i) { return sg >> i & 1 ? -x.q[i] : x.q[i]; };
    for (size_t i = 0; i < 4; ++i) v_assume(i == big || sg >> i & 1 ? mag(i) > 0 : mag(i) >= 0);
    for (size_t i = 0; i < 4; ++i) if (i != big) v_assume(rank[i] < rank[big] ? mag(big) > mag(i) : mag(big) >= mag(i));
    for (size_t i = 0; i < 3; ++i) { v_assume(x.s[i] > 0); conditioned(x.s[i]); }
    m::fmat4x4 M; for (size_t c = 0; c < 4; ++c) for (size_t r = 0; r < 4; ++r) M.col(c)[r] = entry(x, c, r);
    m::fvec3 s, t; m::fquat q;
    m::decomposeTransformMatrix(M, s, q, t);
    for (size_t i = 0; i < 3; ++i) { v_assert(t[i] == x.t[i], "translation is recovered"); v_assert(eq(s[i], x.s[i]), "scale is recovered"); }
#ifdef V_SYMBOLIC
    bool same = true; for (size_t i = 0; i < 4; ++i) for (size_t j = 0; j <= i; ++j) same &= q[i] * q[j] == x.q[i] * x.q[j];
    v_assert(same, "rotation is recovered up to the sign of the quaternion");
#else
    for (size_t i = 0; i < 4; ++i) for (size_t j = 0; j <= i; ++j) v_assert(std::fabs(q[i] * q[j] - x.q[i] * x.q[j]) < 5e-3f, "rotation is recovered up to the sign of the quaternion");
#endif
    v_cover("end");
}
