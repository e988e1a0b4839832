// Opaque element type for the value-numbering witnesses: every operation is an extern *pure* function that the
// analyser interprets; the compiler knows nothing about it except that it has no side effects.
//
// With -DVF_CTX every element additionally carries a context handle (the way a run-time modulus does): arithmetic keeps
// the context of its left operand, elements made from a bare integer have no context.  The EQ obligations then compare
// contexts instead of values.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <type_traits>
extern "C" {
#define VF_PURE __attribute__((const, nothrow))
VF_PURE uint64_t ring_add(uint64_t, uint64_t);
VF_PURE uint64_t ring_sub(uint64_t, uint64_t);
VF_PURE uint64_t ring_mul(uint64_t, uint64_t);
VF_PURE uint64_t ring_div(uint64_t, uint64_t);
VF_PURE uint64_t ring_mod(uint64_t, uint64_t);
VF_PURE uint64_t ring_neg(uint64_t);
VF_PURE uint64_t ring_cst(int64_t);
VF_PURE uint64_t ring_sym(int64_t);
VF_PURE uint64_t ring_fn(int64_t, uint64_t);
VF_PURE uint64_t ring_fn2(int64_t, uint64_t, uint64_t);
VF_PURE uint64_t ring_hash(uint64_t);
VF_PURE uint64_t ring_conj(uint64_t);
VF_PURE bool ring_eq(uint64_t, uint64_t);
VF_PURE bool ring_lt(uint64_t, uint64_t);
VF_PURE int int_sym(int64_t);
VF_PURE uint64_t i64_sym(int64_t);
VF_PURE bool bool_sym(int64_t);
__attribute__((nothrow)) void vf_eq(const char*, uint64_t, uint64_t);
__attribute__((nothrow)) void vf_ieq(const char*, uint64_t, uint64_t);
__attribute__((nothrow)) void vf_iff(const char*, bool, bool);
__attribute__((nothrow)) void vf_true(const char*, bool);
__attribute__((nothrow)) void vf_may_throw(bool);
__attribute__((nothrow)) bool vf_any(); // another unknown bit every time
__attribute__((nothrow)) void vf_assume(bool); // restricts the inputs considered
[[noreturn]] __attribute__((nothrow)) void vf_throw();
}
// THROWS(nm, cond, expr): expr throws exactly when cond holds.  A throw anywhere else is a violation.
// It is tried on a branch of its own, so that what follows is also analysed when it throws.
#define THROWS(nm, cond, expr) if (vf_any()) do { bool t_ = (cond); vf_may_throw(t_); (void)(expr); vf_may_throw(false); vf_true(nm " throws exactly when it should", !t_); } while (0)
#include <stdexcept>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <iterator>
#include <algorithm>
struct vf_thrower { template<class E> [[noreturn]] void operator=(E&&) const { vf_throw(); } };
#define throw vf_thrower() =
#ifdef VF_CTX
#define VF_C(x) x
#define VF_NOCTX ring_sym(-7)
#else
#define VF_C(x)
#endif
struct R {
    uint64_t h;
    VF_C(uint64_t m;)
    R() : h(ring_cst(0)) { VF_C(m = VF_NOCTX;) }
    R(int v) : h(ring_cst(v)) { VF_C(m = VF_NOCTX;) }
    R(const R& r) : h(r.h) { VF_C(m = r.m;) }
    // a moved-from element is unusable: reading it afterwards shows up as a poisoned value number
    R(R&& r) : h(r.h) { VF_C(m = r.m; r.m = ring_sym(-998);) r.h = ring_sym(-999); }
    R& operator=(const R& r) { h = r.h; VF_C(m = r.m;) return *this; }
    R& operator=(R&& r) { uint64_t t = r.h; r.h = ring_sym(-999); h = t; VF_C(t = r.m; r.m = ring_sym(-998); m = t;) return *this; }
    R& operator+=(const R& r) { h = ring_add(h, r.h); return *this; }
    R& operator-=(const R& r) { h = ring_sub(h, r.h); return *this; }
    R& operator*=(const R& r) { h = ring_mul(h, r.h); return *this; }
    R& operator/=(const R& r) { h = ring_div(h, r.h); return *this; }
    R& operator%=(const R& r) { h = ring_mod(h, r.h); return *this; }
    R operator-() const { R t(*this); t.h = ring_neg(h); return t; }
    R operator+() const { return *this; }
};
inline R rsym(int k) { R r; r.h = ring_sym(k); VF_C(r.m = ring_sym(900);) return r; }
inline R rhandle(const R& like, uint64_t h) { R r(like); r.h = h; return r; }
inline R operator+(const R& a, const R& b) { R t = a; t += b; return t; }
inline R operator-(const R& a, const R& b) { R t = a; t -= b; return t; }
inline R operator*(const R& a, const R& b) { R t = a; t *= b; return t; }
inline R operator/(const R& a, const R& b) { R t = a; t /= b; return t; }
inline R operator%(const R& a, const R& b) { R t = a; t %= b; return t; }
inline bool operator==(const R& a, const R& b) { return ring_eq(a.h, b.h); }
inline bool operator!=(const R& a, const R& b) { return !ring_eq(a.h, b.h); }
inline bool operator<(const R& a, const R& b) { return ring_lt(a.h, b.h); }
inline bool operator>(const R& a, const R& b) { return ring_lt(b.h, a.h); }
inline bool operator<=(const R& a, const R& b) { return !ring_lt(b.h, a.h); }
inline bool operator>=(const R& a, const R& b) { return !ring_lt(a.h, b.h); }
namespace std { template<> struct hash<R> { size_t operator()(const R& r) const { return ring_hash(r.h); } }; }
#ifdef VF_CTX
// both sides must carry the context of the operands
inline uint64_t vf_side(const R& r) { return r.m; }
#define EQ(name, a, b) do { (void)(b); vf_eq(name " {context}", R(a).m, ring_sym(900)); } while (0)
#define IFF(name, a, b) do { } while (0)
#define TRUE_(name, a) do { } while (0)
#else
#define EQ(name, a, b) vf_eq(name, R(a).h, R(b).h)
#define IFF(name, a, b) vf_iff(name, (a), (b))
#define TRUE_(name, a) vf_true(name, (a))
#endif
#define W(n) extern "C" void w_##n()
#define INL __attribute__((always_inline)) inline
// the library's element traits for R
#ifndef VF_NO_TRAITS
#include "altruct/algorithm/math/base.h"
namespace altruct { namespace math {
template<> struct identityT<R> { static R of(const R& x) { return rhandle(x, ring_cst(1)); } };
template<> struct zeroT<R> { static R of(const R& x) { return rhandle(x, ring_cst(0)); } };
template<> struct castT<R, int> { static R of(const int& x) { return R(x); } static R of(const R& ref, const int& x) { return rhandle(ref, ring_cst(x)); } };
template<> struct castT<R, R> : nopCastT<R> {};
template<> struct conjugateT<R> { static R of(const R& x) { return rhandle(x, ring_conj(x.h)); } };
template<> inline R sqrtT(R x, R, size_t) { return rhandle(x, ring_fn(1, x.h)); }
template<> inline R gcd(R a, R b) { return rhandle(a, ring_fn2(2, a.h, b.h)); }
}}
#endif
