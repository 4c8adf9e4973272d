// Harness vocabulary.  Under llvc (the verifier) these are symbolic; under V_NATIVE they are executed
// (replay of a counterexample, or bounded search for a concrete failing input).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
std::uint8_t v_u8(const char* name);
std::uint16_t v_u16(const char* name);
std::uint32_t v_u32(const char* name);
std::uint64_t v_u64(const char* name);
bool v_bool(const char* name);
float v_f32(const char* name);
double v_f64(const char* name);
std::size_t v_size(const char* name, std::size_t max);       // arbitrary value <= max
std::size_t v_split(const char* name, std::size_t n);          // case split: every value 0..n-1 is verified separately
void* v_bytes(std::size_t n, const char* name);               // fresh object of n bytes, arbitrary content (an input)
void* v_words(std::size_t n, std::size_t w, const char* name);  // the same for n words of w bytes (a power of two)
void* v_obj(std::size_t n, const char* name);                 // fresh writable object, content unspecified
void v_havoc(void* p, std::size_t n);                         // contract stubs: forget content
void v_assume(bool);
void v_assert(bool, const char* label);
void v_cover(const char* label);                              // must be reachable (guards against vacuity)
void v_loopinv(bool (*pred)(void* ctx, std::uint64_t t), void* ctx);
void v_loopinv2(bool (*pred)(void* ctx, std::uint64_t t, std::uint64_t u), void* ctx);
void v_inv(bool (*pred)(void* ctx, std::uint64_t), void* ctx);
void v_axiom(bool (*pred)(void* ctx, std::uint64_t t), void* ctx);   // definitional fact about a ghost input, instantiated at loop terms
void v_loopinv_clear();
void v_inst(const void* p);
bool v_symbolic();
}
#define V_MAX (std::size_t(1) << 46)
