#include "bitw.h"
#ifndef VF_DIGIT
#include "algorithm/math/bits.cpp"
// the start-up tables, whose contents B01 establishes
template<typename T> INL int s_ilog2(T x) { int r = 0; for (int i = 0; i < (int)sizeof(T) * 8; i++) if ((x >> i) & 1) r = i; return r; }
template<typename T> INL int s_cnt(T x) { int r = 0; for (int i = 0; i < (int)sizeof(T) * 8; i++) r += (int)((x >> i) & 1); return r; }
template<typename T> INL T s_rev(T x) { T r = 0; const int n = sizeof(T) * 8; for (int i = 0; i < n; i++) r |= T(T((x >> i) & 1) << (n - 1 - i)); return r; }
extern "C" uint32_t spec_ilog2(uint32_t i) { return s_ilog2(uint16_t(i)); }
extern "C" uint32_t spec_cnt1(uint32_t i) { return s_cnt(uint16_t(i)); }
extern "C" uint32_t spec_rev8(uint32_t i) { return s_rev(uint8_t(i)); }
extern "C" uint32_t spec_rev16(uint32_t i) { return s_rev(uint16_t(i)); }
#endif
#include <string>
#include "altruct/structure/math/double_int.h"
using namespace altruct::math;
// a machine word of K bits; the repository's prim_int for K = 8, 16, 32, 64
#ifdef VF_DIGIT
template<int K> struct digit { static const int type_bits = K; static const unsigned MASK = (1u << K) - 1; unsigned char v; INL digit(int x = 0) : v(x & MASK) {}
  INL bool is_negative() const { return (v >> (K - 1)) & 1; } INL int sv() const { return is_negative() ? (int)v - (int)(MASK + 1) : v; }
  INL bool operator==(const digit& r) const { return v == r.v; } INL bool operator!=(const digit& r) const { return v != r.v; } INL bool operator<(const digit& r) const { return sv() < r.sv(); } INL bool operator>(const digit& r) const { return sv() > r.sv(); }
  INL bool unsigned_lt(const digit& r) const { return v < r.v; } INL bool unsigned_gt(const digit& r) const { return v > r.v; } INL bool unsigned_lte(const digit& r) const { return v <= r.v; } INL bool unsigned_gte(const digit& r) const { return v >= r.v; }
  INL digit& assign_adc(const digit& r, int& c) { unsigned s = v + r.v + c; v = s & MASK; c = s >> K; return *this; } INL digit& assign_sbb(const digit& r, int& b) { unsigned s = v - r.v - b; v = s & MASK; b = (s >> K) & 1; return *this; }
  INL digit& operator+=(const digit& r) { v = (v + r.v) & MASK; return *this; } INL digit& operator&=(const digit& r) { v &= r.v; return *this; } INL digit& operator|=(const digit& r) { v |= r.v; return *this; } INL digit& operator^=(const digit& r) { v ^= r.v; return *this; } INL digit operator~() const { return digit(~v & MASK); }
  INL digit& operator<<=(int c) { v = (v << c) & MASK; return *this; } INL digit operator<<(int c) const { digit r(*this); return r <<= c; } INL digit& assign_unsigned_shr(int c) { v >>= c; return *this; } INL digit& assign_extended_shr(int c, int e) { v = ((v | ((unsigned)(e & MASK) << K)) >> c) & MASK; return *this; }
  INL int leading_zeros_count() const { int n = 0; for (int i = K - 1; i >= 0; i--) { if ((v >> i) & 1) return n; n++; } return n; } INL uint64_t to_uint64() const { return v; }
  static INL double_int<digit> unsigned_mul_full(const digit& a, const digit& b) { unsigned p = a.v * b.v; return double_int<digit>(digit(p >> K), digit(p & MASK)); } static INL digit unsigned_mul(const digit& a, const digit& b) { return digit((a.v * b.v) & MASK); } };
#else
template<typename U, typename UU> struct intr { INL U adc(U x, U y, int& c) const { UU s = (UU)x + y + c; c = (int)(s >> (8 * sizeof(U))); return (U)s; } INL U sbb(U x, U y, int& b) const { UU s = (UU)x - y - b; b = (int)(s >> (8 * sizeof(U))) & 1; return (U)s; } INL U umul(U x, U y, U* hi) const { UU p = (UU)x * y; *hi = (U)(p >> (8 * sizeof(U))); return (U)p; } };
#endif
// conversions between nested representations and plain integers
template<typename T> struct io; 
#ifdef VF_DIGIT
template<int K> struct io<digit<K>> { static INL digit<K> of(uint64_t x) { return digit<K>((int)(x & digit<K>::MASK)); } static INL uint64_t val(const digit<K>& d) { return d.v; } };
#else
template<typename S, typename U, typename I> struct io<prim_int<S, U, I>> { static INL prim_int<S, U, I> of(uint64_t x) { return prim_int<S, U, I>((U)x); } static INL uint64_t val(const prim_int<S, U, I>& d) { return (U)d.v; } };
#endif
template<typename T> struct io<double_int<T>> { static INL double_int<T> of(uint64_t x) { return double_int<T>(io<T>::of(x >> T::type_bits), io<T>::of(x)); } static INL uint64_t val(const double_int<T>& d) { return (io<T>::val(d.hi) << T::type_bits) | io<T>::val(d.lo); } };
template<typename D> struct tst {
  static const int N = D::type_bits; static INL uint64_t msk() { return N == 64 ? ~0ull : (1ull << (N & 63)) - 1; }
  static INL int64_t sx(uint64_t x) { return (int64_t)(x << (64 - N)) >> (64 - N); }
  static INL void sums() { uint64_t x = bsym<uint64_t>(0) & msk(), y = bsym<uint64_t>(1) & msk(); D a = io<D>::of(x), b = io<D>::of(y); bv_eq("representation", io<D>::val(a), x);
    bv_eq("+", io<D>::val(a + b), (x + y) & msk()); bv_eq("-", io<D>::val(a - b), (x - y) & msk()); bv_eq("negation", io<D>::val(-a), (0 - x) & msk()); bv_eq("unary +", io<D>::val(+a), x); { D t = a; t.negate(); bv_eq("negate", io<D>::val(t), (0 - x) & msk()); }
    D t = a; t += b; bv_eq("+=", io<D>::val(t), (x + y) & msk()); t = a; t -= b; bv_eq("-=", io<D>::val(t), (x - y) & msk()); t = a; t += t; bv_eq("+= itself", io<D>::val(t), (x + x) & msk()); t = a; t -= t; bv_eq("-= itself", io<D>::val(t), 0);
    { D p = a; D q = ++p; bv_eq("++ prefix", io<D>::val(p), (x + 1) & msk()); bv_eq("++ prefix result", io<D>::val(q), (x + 1) & msk()); } { D p = a; D q = --p; bv_eq("-- prefix", io<D>::val(p), (x - 1) & msk()); bv_eq("-- prefix result", io<D>::val(q), (x - 1) & msk()); }
    { D p = a; D q = p++; bv_eq("++ postfix", io<D>::val(p), (x + 1) & msk()); bv_eq("++ postfix result", io<D>::val(q), x); } { D p = a; D q = p--; bv_eq("-- postfix", io<D>::val(p), (x - 1) & msk()); bv_eq("-- postfix result", io<D>::val(q), x); }
    for (int c = 0; c < 2; c++) { D p = a; int cy = c; p.assign_adc(b, cy); bv_eq("sum with carry", io<D>::val(p), (x + y + c) & msk()); bv_eq("carry out", (uint32_t)cy, (uint32_t)(N < 64 ? ((x + y + c) >> (N & 63)) & 1 : (x + y + c < x || (c && y == ~0ull)))); p = a; cy = c; p.assign_sbb(b, cy); bv_eq("difference with borrow", io<D>::val(p), (x - y - c) & msk()); bv_eq("borrow out", (uint32_t)cy, (uint32_t)(x < y || (c && x == y))); }
    if (N <= 64) bv_eq("to_uint64", a.to_uint64(), x); bv_eq("identity", io<D>::val(identityT<D>::of(a)), 1); bv_eq("zero", io<D>::val(zeroT<D>::of(a)), 0); }
  static INL void order() { uint64_t x = bsym<uint64_t>(0) & msk(), y = bsym<uint64_t>(1) & msk(); D a = io<D>::of(x), b = io<D>::of(y); int64_t u = sx(x), v = sx(y);
    bv_true("==", (a == b) == (x == y)); bv_true("!=", (a != b) == (x != y)); bv_true("<", (a < b) == (u < v)); bv_true(">", (a > b) == (u > v)); bv_true("<=", (a <= b) == (u <= v)); bv_true(">=", (a >= b) == (u >= v)); bv_true("unsigned <", a.unsigned_lt(b) == (x < y)); bv_true("unsigned >", a.unsigned_gt(b) == (x > y)); bv_true("unsigned <=", a.unsigned_lte(b) == (x <= y)); bv_true("unsigned >=", a.unsigned_gte(b) == (x >= y)); bv_true("is_negative", a.is_negative() == (u < 0));
    bv_eq("and", io<D>::val(a & b), x & y); bv_eq("or", io<D>::val(a | b), x | y); bv_eq("xor", io<D>::val(a ^ b), x ^ y); bv_eq("complement", io<D>::val(~a), ~x & msk()); D t = a; t &= b; bv_eq("&=", io<D>::val(t), x & y); t = a; t |= b; bv_eq("|=", io<D>::val(t), x | y); t = a; t ^= b; bv_eq("^=", io<D>::val(t), x ^ y);
    int n = 0; bool seen = false; for (int i = N - 1; i >= 0; i--) { seen = seen || ((x >> i) & 1); n += !seen; } bv_eq("leading zeros", (uint32_t)a.leading_zeros_count(), (uint32_t)n); }
  static INL void shifts() { uint64_t x = bsym<uint64_t>(0) & msk(); D a = io<D>::of(x); int64_t u = sx(x); 
    for (int c = 0; c <= N + 2; c++) { uint64_t l = c >= N ? 0 : (x << c) & msk(), r = c >= N ? 0 : x >> c, s = (uint64_t)(u >> (c >= N ? N - 1 : c)) & msk(); bv_eq("<<", io<D>::val(a << c), l); D t = a; t <<= c; bv_eq("<<=", io<D>::val(t), l); bv_eq(">> keeps the sign", io<D>::val(a >> c), s); t = a; t >>= c; bv_eq(">>=", io<D>::val(t), s); t = a; t.assign_unsigned_shr(c); bv_eq("unsigned right shift", io<D>::val(t), r); t = a; t.assign_extended_shr(c, -1); bv_eq("right shift filling with ones", io<D>::val(t), (c >= N ? msk() : r | (msk() & ~(msk() >> c)))); } }
  static INL void prods() { uint64_t x = bsym<uint8_t>(0), y = bsym<uint8_t>(1); D a = io<D>::of(x), b = io<D>::of(y); auto f = D::unsigned_mul_full(a, b); bv_eq("full product, low half", io<D>::val(f.lo), (x * y) & msk()); bv_eq("full product, high half", io<D>::val(f.hi), (x * y) >> N); bv_eq("product", io<D>::val(a * b), (x * y) & msk()); bv_eq("unsigned_mul", io<D>::val(D::unsigned_mul(a, b)), (x * y) & msk()); D t = a; t *= b; bv_eq("*=", io<D>::val(t), (x * y) & msk()); t = a; t *= t; bv_eq("*= itself", io<D>::val(t), (x * x) & msk()); }
};
#define ALL(n, T) W(n##_sums) { tst<T>::sums(); } W(n##_order) { tst<T>::order(); } W(n##_shifts) { tst<T>::shifts(); }
#ifdef VF_DIGIT
typedef double_int<digit<4>> D8; typedef double_int<double_int<digit<2>>> E8; typedef double_int<double_int<digit<4>>> D16; typedef double_int<double_int<double_int<digit<1>>>> F8;
ALL(d8, D8) ALL(e8, E8) ALL(d16, D16) ALL(f8, F8)
W(d8_prods) { tst<D8>::prods(); } W(e8_prods) { tst<E8>::prods(); }
#else
typedef prim_int<int8_t, uint8_t, intr<uint8_t, uint16_t>> P8; typedef double_int<P8> Q16; typedef double_int<Q16> Q32; typedef double_int<prim_int<int16_t, uint16_t, intr<uint16_t, uint32_t>>> R32; typedef double_int<prim_int<int32_t, uint32_t, intr<uint32_t, uint64_t>>> S64;
ALL(q16, Q16) ALL(q32, Q32) ALL(r32, R32) ALL(s64, S64)
W(p8) { uint8_t x = bsym<uint8_t>(0), y = bsym<uint8_t>(1); P8 a(x), b(y); bv_eq("word product", (uint8_t)P8::unsigned_mul(a, b).v, (uint8_t)(x * y)); Q16 f = P8::unsigned_mul_full(a, b); bv_eq("word full product", io<Q16>::val(f), (uint64_t)(x * y)); if (y != 0) { P8 r, q = P8::unsigned_div(a, b, &r); bv_true("word division", (uint8_t)q.v * y + (uint8_t)r.v == x && (uint8_t)r.v < y); }
  P8 t = a; t.negate(); bv_eq("word negation", (uint8_t)t.v, (uint8_t)-x); for (int c = 0; c < 8; c++) { bv_eq("word <<", (uint8_t)(a << c).v, (uint8_t)(x << c)); bv_eq("word >>", (a >> c).v, (int8_t)((int8_t)x >> c)); t = a; t.assign_unsigned_shr(c); bv_eq("word unsigned shift", (uint8_t)t.v, (uint8_t)(x >> c)); } bv_eq("word ++", (uint8_t)(++(t = a)).v, (uint8_t)(x + 1)); bv_eq("word --", (uint8_t)(--(t = a)).v, (uint8_t)(x - 1)); t = a; P8 o = t++; bv_true("word ++ postfix", (uint8_t)o.v == x && (uint8_t)t.v == (uint8_t)(x + 1)); }
#endif
