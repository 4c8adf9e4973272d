// Native meaning of the harness primitives: executes the same harness (same real code) on concrete inputs.
//   VROOT=<harness> ./bin --replay FILE     inputs by name, as written by the verifier from a solver model
//   VROOT=<harness> ./bin [libFuzzer args]  bounded search for a failing input
#include <dlfcn.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>
#include "v.h"

namespace {
struct Reject {};
const std::uint8_t* D; std::size_t L, Pos;
bool replay;
std::map<std::string, std::deque<std::vector<std::uint8_t>>> named;
std::vector<void*> allocs;
std::vector<std::string> used;
bool trace;
std::uint64_t execs, accepted;
void (*root)();

std::uint8_t byte() { return Pos < L ? D[Pos++] : 0; }
bool take(const char* name, void* dst, std::size_t n) {
    if (!replay) return false;
    auto it = named.find(name);
    if (it == named.end() || it->second.empty()) { std::memset(dst, 0, n); return true; }
    auto v = it->second.front(); it->second.pop_front();
    std::memset(dst, 0, n);
    std::memcpy(dst, v.data(), v.size() < n ? v.size() : n);
    return true;
}
void log(const char* ty, const char* name, const void* p, std::size_t n) {
    if (!trace) return;
    std::string s = std::string(ty) + " " + name + " ";
    char b[4];
    auto* q = static_cast<const std::uint8_t*>(p);
    for (std::size_t i = 0; i < n && i < 65536; ++i) { std::snprintf(b, 4, "%02x", q[i]); s += b; }
    std::printf("  input %s\n", s.c_str());
}
template <typename T> T raw() { T t = 0; for (std::size_t i = 0; i < sizeof(T); ++i) t |= T(T(byte()) << (8 * i)); return t; }
template <typename T> T integer(const char* name, const char* ty) {
    T t;
    if (!take(name, &t, sizeof t)) {
        if constexpr (sizeof(T) <= 2) t = raw<T>();
        else switch (byte() & 7) {
            case 0: t = raw<T>(); break;
            case 1: t = T(0) - T(byte()); break;
            case 2: t = T(T(1) << (byte() % (8 * sizeof(T)))); break;
            case 3: t = T(T(T(1) << (byte() % (8 * sizeof(T)))) - 1); break;
            case 4: t = T(raw<std::uint16_t>()); break;
            default: t = byte();
        }
    }
    log(ty, name, &t, sizeof t);
    return t;
}
}
extern "C" {
std::uint8_t v_u8(const char* n) { return integer<std::uint8_t>(n, "u8"); }
std::uint16_t v_u16(const char* n) { return integer<std::uint16_t>(n, "u16"); }
std::uint32_t v_u32(const char* n) { return integer<std::uint32_t>(n, "u32"); }
std::uint64_t v_u64(const char* n) { return integer<std::uint64_t>(n, "u64"); }
bool v_bool(const char* n) { return integer<std::uint8_t>(n, "u8") & 1; }
float v_f32(const char* n) {
    std::uint32_t u;
    if (!take(n, &u, 4)) {
        static const float T[] = {0.f, -0.f, 1.f, -1.f, 0.5f, 2.f, 3.4e38f, -3.4e38f, 1e-45f, 255.f, 65535.f, 127.f, 32767.f};
        std::uint8_t s = byte();
        float f;
        if (s < 120) { u = raw<std::uint32_t>(); }
        else { if (s < 140) f = T[s % 13]; else f = float(std::int8_t(byte())) / float(1 << (s & 7)); std::memcpy(&u, &f, 4); }
    }
    log("f32", n, &u, 4);
    float f; std::memcpy(&f, &u, 4); return f;
}
double v_f64(const char* n) {
    std::uint64_t u;
    if (!take(n, &u, 8)) {
        std::uint8_t s = byte();
        if (s < 120) u = raw<std::uint64_t>();
        else { double f = double(std::int16_t(raw<std::uint16_t>())) / double(1 << (s & 7)); std::memcpy(&u, &f, 8); }
    }
    log("f64", n, &u, 8);
    double f; std::memcpy(&f, &u, 8); return f;
}
std::size_t v_size(const char* n, std::size_t max) {
    std::uint64_t t;
    if (!take(n, &t, 8)) {
        std::uint8_t s = byte();
        if (max < 256) t = s % (max + 1);
        else if (s < 200) t = s % 20;
        else if (s < 250) t = byte();
        else if (s < 253) t = raw<std::uint16_t>() % 4096;
        else t = raw<std::uint16_t>() * std::uint64_t(1 + byte() % 4);
        if (t > max) t = max;
    }
    if (t > max) throw Reject{};
    log("u64", n, &t, 8);
    return t;
}
std::size_t v_split(const char* n, std::size_t k) {
    std::uint64_t t;
    if (!take(n, &t, 8)) t = byte();
    t %= k;
    log("u64", n, &t, 8);
    return t;
}
void* v_bytes(std::size_t n, const char* name);
void* v_words(std::size_t n, std::size_t w, const char* name) { return v_bytes(n * w, name); }
void* v_bytes(std::size_t n, const char* name) {
    if (n > (replay ? std::size_t(1) << 33 : std::size_t(1) << 20)) throw Reject{};
    auto* p = static_cast<std::uint8_t*>(std::malloc(n ? n : 1));
    if (!n) { std::free(p); p = static_cast<std::uint8_t*>(std::malloc(0)); }
    allocs.push_back(p);
    if (!take(name, p, n)) {
        static const char b64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
        static const char js[] = "{}[]:,\"\\ \n\tab1";
        std::uint8_t m = byte() & 7;
        std::uint32_t r = m >= 3 ? byte() * 2654435761u + 12345u : 0;
        for (std::size_t i = 0; i < n; ++i) {
            r = r * 1664525u + 1013904223u;
            std::uint8_t x = std::uint8_t(r >> 24);
            switch (m) {
                case 0: p[i] = byte(); break;
                case 1: p[i] = byte(); if (p[i] > 127) p[i] &= 15; break;
                case 2: p[i] = std::uint8_t(b64[byte() & 63]); break;
                case 3: p[i] = std::uint8_t(b64[x & 63]); break;
                case 4: p[i] = x; break;
                case 5: p[i] = std::uint8_t(js[(x ^ byte()) % 14]); break;
                case 6: p[i] = x & 3; break;
                default: p[i] = std::uint8_t(i + (x & 1)); break;
            }
        }
    }
    log("bytes", name, p, n);
    return p;
}
void* v_obj(std::size_t n, const char*) {
    if (n > (replay ? std::size_t(1) << 33 : std::size_t(1) << 22)) throw Reject{};
    auto* p = static_cast<std::uint8_t*>(std::malloc(n));
    if (n <= (1u << 24)) std::memset(p, 0xA5, n);
    allocs.push_back(p);
    return p;
}
void v_havoc(void*, std::size_t) {}
void v_assume(bool c) { if (!c) throw Reject{}; }
void v_assert(bool c, const char* label) {
    if (c) return;
    std::printf("VFAIL %s\n", label);
    std::fflush(stdout);
    std::fprintf(stderr, "VFAIL %s\n", label);
    std::abort();
}
void v_cover(const char*) {}
void v_loopinv(bool (*)(void*, std::uint64_t), void*) {}
void v_loopinv2(bool (*)(void*, std::uint64_t, std::uint64_t), void*) {}
void v_inv(bool (*)(void*, std::uint64_t), void*) {}
void v_loopinv_clear() {}
void v_axiom(bool (*)(void*, std::uint64_t), void*) {}
void v_inst(const void*) {}
bool v_symbolic() { return false; }
void v_report() { std::fprintf(stderr, "VSTAT execs=%llu accepted=%llu\n", (unsigned long long)execs, (unsigned long long)accepted); }

static void once() {
    ++execs;
    try { root(); ++accepted; } catch (const Reject&) { if (trace) std::printf("  precondition not met\n"); }
    for (auto* p : allocs) std::free(p);
    allocs.clear();
}

int LLVMFuzzerInitialize(int* argc, char*** argv) {
    const char* r = std::getenv("VROOT");
    if (!r) { std::fprintf(stderr, "VROOT not set\n"); _Exit(3); }
    root = reinterpret_cast<void (*)()>(dlsym(RTLD_DEFAULT, r));
    if (!root) { std::fprintf(stderr, "no harness %s\n", r); _Exit(3); }
    std::atexit(v_report);
    trace = std::getenv("VTRACE") != nullptr;
    if (*argc >= 3 && std::string((*argv)[1]) == "--replay") {
        std::ifstream f((*argv)[2]);
        std::string line;
        while (std::getline(f, line)) {
            std::istringstream is(line);
            std::string k, name, hex;
            is >> k;
            if (k != "in") continue;
            is >> name >> hex;
            std::vector<std::uint8_t> v;
            if (hex != "-") for (std::size_t i = 0; i + 1 < hex.size(); i += 2) v.push_back(std::uint8_t(std::stoi(hex.substr(i, 2), nullptr, 16)));
            named[name].push_back(v);
        }
        replay = true;
        once();
        std::printf("REPLAY ran to completion: accepted=%llu\n", (unsigned long long)accepted);
        std::fflush(stdout);
        _Exit(0);
    }
    return 0;
}
int LLVMFuzzerTestOneInput(const std::uint8_t* d, std::size_t n) {
    D = d; L = n; Pos = 0;
    once();
    return 0;
}
}
