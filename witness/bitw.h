// Inputs and sinks of the bit-precise analyser.
#pragma once
#include <cstdint>
#include <cstddef>
#include <type_traits>
#include <limits>
extern "C" {
#define VF_PURE __attribute__((const, nothrow))
VF_PURE uint8_t bv_sym8(int);
VF_PURE uint16_t bv_sym16(int);
VF_PURE uint32_t bv_sym32(int);
VF_PURE uint64_t bv_sym64(int);
__attribute__((nothrow)) void bv_eq(const char*, uint64_t, uint64_t);
__attribute__((nothrow)) void bv_true(const char*, bool);
__attribute__((nothrow)) void bv_gf2(const char*, uint64_t);
}
template<typename T> struct bsym_;
template<> struct bsym_<uint8_t> { static uint8_t of(int k) { return bv_sym8(k); } };
template<> struct bsym_<uint16_t> { static uint16_t of(int k) { return bv_sym16(k); } };
template<> struct bsym_<uint32_t> { static uint32_t of(int k) { return bv_sym32(k); } };
template<> struct bsym_<uint64_t> { static uint64_t of(int k) { return bv_sym64(k); } };
template<typename T> __attribute__((always_inline)) inline T bsym(int k) { return (T)bsym_<typename std::make_unsigned<T>::type>::of(k); }
#define W(n) extern "C" void w_##n()
#define INL __attribute__((always_inline)) inline
