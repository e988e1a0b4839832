#include "bitw.h"
#include "algorithm/math/bits.cpp"
using namespace altruct::math;
// specifications, written bit by bit
template<typename T> INL int s_ilog2(T x) { int r = 0; for (int i = 0; i < (int)sizeof(T) * 8; i++) if ((x >> i) & 1) r = i; return r; }
template<typename T> INL int s_cnt(T x) { int r = 0; for (int i = 0; i < (int)sizeof(T) * 8; i++) r += (int)((x >> i) & 1); return r; }
template<typename T> INL T s_rev(T x) { T r = 0; const int n = sizeof(T) * 8; for (int i = 0; i < n; i++) r |= T(T((x >> i) & 1) << (n - 1 - i)); return r; }
extern "C" uint32_t spec_ilog2(uint32_t i) { return s_ilog2(uint16_t(i)); }
extern "C" uint32_t spec_cnt1(uint32_t i) { return s_cnt(uint16_t(i)); }
extern "C" uint32_t spec_rev8(uint32_t i) { return s_rev(uint8_t(i)); }
extern "C" uint32_t spec_rev16(uint32_t i) { return s_rev(uint16_t(i)); }
template<typename T> INL int top(T x) { return s_ilog2(x); }
#define FORALL(N) N(8) N(16) N(32) N(64)
#define U(N) uint##N##_t
#define ILOG(N) W(ilog2_##N) { U(N) x = bsym<U(N)>(0); bv_eq("ilog2(uint" #N ") is the index of the highest set bit", ilog2(x), s_ilog2(x)); bv_eq("ilog2(int" #N ")", ilog2((int##N##_t)x), s_ilog2(x)); } \
W(count_##N) { U(N) x = bsym<U(N)>(0); bv_eq("bit_cnt1(uint" #N ") is the number of set bits", bit_cnt1(x), s_cnt(x)); } \
W(reverse_##N) { U(N) x = bsym<U(N)>(0); bv_eq("bit_reverse(uint" #N ") mirrors the bits", bit_reverse(x), s_rev(x)); bv_eq("bit_reverse twice (uint" #N ")", bit_reverse(bit_reverse(x)), x); }
FORALL(ILOG)
#define WORD(N, T, TAG) \
W(down_##TAG) { T x = bsym<T>(0); const int n = N; U(N) o = 0, e = 0; { bool a = false, p = false; for (int i = n - 1; i >= 0; i--) { bool b = ((U(N))x >> i) & 1; a |= b; p ^= b; o |= U(N)(U(N)(a) << i); e |= U(N)(U(N)(p) << i); } } \
  if (std::is_unsigned<T>::value) { bv_eq(#TAG " or_down", (U(N))or_down(x), o); bv_eq(#TAG " xor_down", (U(N))xor_down(x), e); bv_eq(#TAG " gray_to_bin", (U(N))gray_to_bin(x), e); bv_eq(#TAG " gray_to_bin(bin_to_gray)", (U(N))gray_to_bin(bin_to_gray(x)), (U(N))x); bv_eq(#TAG " bin_to_gray(gray_to_bin)", (U(N))bin_to_gray(gray_to_bin(x)), (U(N))x); \
    bv_eq(#TAG " hi_bit", (U(N))hi_bit(x), x == 0 ? U(N)(0) : U(N)(U(N)(1) << s_ilog2((U(N))x))); bv_eq(#TAG " next_pow2", (U(N))next_pow2(x), x == 0 ? U(N)(1) : s_ilog2((U(N))x) == n - 1 ? U(N)(0) : U(N)(U(N)(1) << (s_ilog2((U(N))x) + 1))); } } \
W(low_##TAG) { T x = bsym<T>(0); U(N) u = (U(N))x, l = 0; for (int i = N - 1; i >= 0; i--) if ((u >> i) & 1) l = U(N)(U(N)(1) << i); bool p2 = s_cnt(u) <= 1; \
  bv_eq(#TAG " lo_bit", (U(N))lo_bit(x), l); bv_eq(#TAG " neg", (U(N))neg(x), U(N)(0 - u)); if (std::is_unsigned<T>::value) { bv_true(#TAG " is_pow2", is_pow2(x) == p2); bv_true(#TAG " is_not_pow2", is_not_pow2(x) == !p2); } } \
W(single_##TAG) { T x = bsym<T>(0), y = bsym<T>(2), m = bsym<T>(3); const int n = N; if (std::is_unsigned<T>::value) for (int pos = 0; pos < n; pos++) { \
  bv_eq(#TAG " make_bit", (U(N))make_bit<T>(pos), U(N)(U(N)(1) << pos)); bv_eq(#TAG " make_ones", (U(N))make_ones<T>(pos + 1), U(N)(U(N)(~U(N)(0)) >> (n - 1 - pos))); if (pos == 0) bv_eq(#TAG " make_ones(0)", (U(N))make_ones<T>(0), U(N)(0)); bv_eq(#TAG " get_bit", (U(N))get_bit(x, pos), U(N)(((U(N))x >> pos) & 1)); \
  for (int i = 0; i < n; i++) { bool b = ((U(N))x >> i) & 1, q = i == pos, up = i + 1 < n ? ((U(N))x >> (i + 1 < n ? i + 1 : 0)) & 1 : 0; bv_true(#TAG " set_bit", bool(((U(N))set_bit(x, pos) >> i) & 1) == (q | b)); bv_true(#TAG " flip_bit", bool(((U(N))flip_bit(x, pos) >> i) & 1) == (q ^ b)); bv_true(#TAG " clear_bit", bool(((U(N))clear_bit(x, pos) >> i) & 1) == (!q & b)); bv_true(#TAG " erase_bit", bool(((U(N))erase_bit(x, pos) >> i) & 1) == (i < pos ? b : up)); } } \
  for (int i = 0; i < n; i++) bv_true(#TAG " mix_bits", bool(((U(N))mix_bits(x, y, m) >> i) & 1) == ((((U(N))m >> i) & 1) ? bool(((U(N))y >> i) & 1) : bool(((U(N))x >> i) & 1))); }
WORD(8, uint8_t, uint8) WORD(16, uint16_t, uint16) WORD(32, uint32_t, uint32) WORD(64, uint64_t, uint64)
#define CNT(N) W(zeros_##N) { U(N) x = bsym<U(N)>(0); int t = N, l = N; for (int i = N - 1; i >= 0; i--) if ((x >> i) & 1) t = i; for (int i = 0; i < N; i++) if ((x >> i) & 1) l = N - 1 - i; bv_eq("lzc uint" #N, lzc(x), l); bv_eq("tzc uint" #N, tzc(x), t); } \
W(signmag_##N) { U(N) x = bsym<U(N)>(0); const U(N) H = U(N)(U(N)(1) << (N - 1)); U(N) s = sign_mag(x); bv_eq("sign_mag keeps non-negative values (uint" #N ")", (x & H) ? U(N)(0) : s, (x & H) ? U(N)(0) : x); if ((x & H) && x != H) { bv_eq("sign_mag of a negative value has its magnitude (uint" #N ")", U(N)(s & ~H), U(N)(0 - x)); bv_eq("sign_mag keeps the sign (uint" #N ")", U(N)(s & H), H); bv_eq("sign_mag is an involution (uint" #N ")", sign_mag(s), x); } }
FORALL(CNT)
// next combination: v > x, same number of ones, and nothing with the same number of ones lies between
#define COMB(N, SZ) W(comb_##N##_##SZ) { U(N) x = bsym<U(N)>(0), z = bsym<U(N)>(1); U(N) lim = SZ == N ? U(N)(~U(N)(0)) : U(N)((U(N)(1) << (SZ % N)) - 1); if (x == 0) { U(N) y = x; bv_true("next_combination of nothing is the last one (uint" #N ", " #SZ ")", !next_combination(y, SZ) && y == 0); } if (x != 0 && x <= lim) { U(N) y = x; bool more = next_combination(y, SZ); int ones = s_cnt(x); \
  bv_true("next_combination keeps the number of ones (uint" #N ", " #SZ ")", s_cnt(y) == ones); bv_true("next_combination stays in range (uint" #N ", " #SZ ")", y <= lim); bv_true("next_combination advances (uint" #N ", " #SZ ")", more ? y > x : y <= x); \
  if (z <= lim && s_cnt(z) == ones) { if (more) bv_true("next_combination skips nothing (uint" #N ", " #SZ ")", z <= x || z >= y); else { bv_true("next_combination stops at the last one (uint" #N ", " #SZ ")", z <= x); bv_true("next_combination restarts at the first one (uint" #N ", " #SZ ")", z >= y); } } } }
COMB(8, 8) COMB(16, 16) COMB(32, 32) COMB(64, 33) COMB(8, 7) COMB(8, 5) COMB(16, 15) COMB(16, 9) COMB(32, 31) COMB(32, 20)
