#include "bitw.h"
#include <string>
#include <functional>
#include <algorithm>
#include "altruct/structure/math/galois_field_2.h"
#include "altruct/structure/math/nimber.h"
#include "altruct/algorithm/random/random.h"
#include "altruct/algorithm/random/xorshift.h"
using namespace altruct::math;
#define FOR4(N) N(8) N(16) N(32) N(64)
#define U(N) uint##N##_t
// GF(2), one element per bit
#define GF(N) W(gf2_##N) { typedef galois_field_2<U(N)> G; U(N) x = bsym<U(N)>(0), y = bsym<U(N)>(1), z = bsym<U(N)>(2); G a(x), b(y), c(z); const U(N) ones = (U(N))~(U(N))0; bv_eq("+", (a + b).v, (U(N))(x ^ y)); bv_eq("-", (a - b).v, (U(N))(x ^ y)); bv_eq("*", (a * b).v, (U(N))(x & y)); bv_eq("negation", (-a).v, x); \
  bv_eq("one", (a * identityT<G>::of(a)).v, x); bv_eq("zero", (a + zeroT<G>::of(a)).v, x); bv_eq("division undoes multiplication", (a * b / b).v | (U(N))~y, x | (U(N))~y); bv_eq("multiplication undoes division", ((a / b) * b).v, (U(N))(x & y)); \
  G t = a; t += b; bv_eq("+=", t.v, (a + b).v); t = a; t -= b; bv_eq("-=", t.v, (a - b).v); t = a; t *= b; bv_eq("*=", t.v, (a * b).v); t = a; t /= b; bv_eq("/=", t.v, (a / b).v); t = a; t += t; bv_eq("+= itself", t.v, 0); t = a; t *= t; bv_eq("*= itself", t.v, x); t = a; t /= t; bv_eq("/= itself is one where it exists", t.v | (U(N))~x, ones); \
  bv_true("==", (a == b) == (x == y)); bv_true("!=", (a != b) == (x != y)); bv_true("<", (a < b) == (x < y)); bv_true(">", (a > b) == (x > y)); bv_true("<=", (a <= b) == (x <= y)); bv_true(">=", (a >= b) == (x >= y)); }
FOR4(GF)
// nimbers: the specification multiplies by the rule for Fermat powers F = 2^(2^k): F*x = F.x for x < F and F*F = F ^ (F/2)
constexpr uint64_t nm(uint64_t a, uint64_t b, int k) { return a == 0 || b == 0 ? 0 : a == 1 ? b : b == 1 ? a : k == 0 ? (a & b) : ((nm((a >> (1 << (k - 1))) ^ (a & ((1ull << (1 << (k - 1))) - 1)), (b >> (1 << (k - 1))) ^ (b & ((1ull << (1 << (k - 1))) - 1)), k - 1) ^ nm(a & ((1ull << (1 << (k - 1))) - 1), b & ((1ull << (1 << (k - 1))) - 1), k - 1)) << (1 << (k - 1)))
  ^ nm(nm(a >> (1 << (k - 1)), b >> (1 << (k - 1)), k - 1), 1ull << ((1 << (k - 1)) - 1), k - 1) ^ nm(a & ((1ull << (1 << (k - 1))) - 1), b & ((1ull << (1 << (k - 1))) - 1), k - 1); }
static_assert(nm(2, 2, 1) == 3 && nm(2, 3, 1) == 1 && nm(4, 4, 2) == 6 && nm(16, 16, 3) == 24 && nm(7, 16, 3) == 112, "rule for Fermat powers");
template<int K> struct basis { uint64_t t[1 << K][1 << K]; constexpr basis() : t() { for (int i = 0; i < (1 << K); i++) for (int j = 0; j < (1 << K); j++) t[i][j] = nm(1ull << i, 1ull << j, K); } };
static constexpr basis<3> B3; static constexpr basis<4> B4; static constexpr basis<5> B5;
template<typename T, typename B> INL T spec_mul(T a, T b, const B& t) { T r = 0; const int n = sizeof(T) * 8; for (int i = 0; i < n; i++) { T s = 0; for (int j = 0; j < n; j++) s ^= ((b >> j) & 1) ? (T)t.t[i][j] : (T)0; r ^= ((a >> i) & 1) ? s : (T)0; } return r; }
#ifdef VF_NIM
W(nim_mul_8) { uint8_t x = bsym<uint8_t>(0), y = bsym<uint8_t>(1); typedef nimber<uint8_t> N; N a(x), b(y); uint8_t r = spec_mul(x, y, B3); bv_eq("nimber product", (a * b).v, r); bv_eq("nimber product by halves", N::mul2(a, b).v, r); N t = a; t *= b; bv_eq("*=", t.v, r); t = a; t *= t; bv_eq("*= itself", t.v, spec_mul(x, x, B3)); }
W(nim_div_8) { uint8_t x = bsym<uint8_t>(0); typedef nimber<uint8_t> N; N a(x); uint8_t i = a.inverse().v; bv_eq("inverse", spec_mul(x, i, B3), x == 0 ? 0 : 1); uint8_t s = a.sqrt().v; bv_eq("square root", spec_mul(s, s, B3), x); bv_eq("quotient by itself", (a / a).v, x == 0 ? 0 : 1); N t = a; t /= t; bv_eq("/= itself", t.v, x == 0 ? 0 : 1); uint8_t one = 1; bv_eq("reciprocal", (N(one) / a).v, i); }
W(nim_ring_8) { uint8_t x = bsym<uint8_t>(0), y = bsym<uint8_t>(1); typedef nimber<uint8_t> N; N a(x), b(y); bv_eq("nimber sum", (a + b).v, (uint8_t)(x ^ y)); bv_eq("nimber difference", (a - b).v, (uint8_t)(x ^ y)); bv_eq("negation", (-a).v, x); bv_eq("remainder", (a % b).v, 0); bv_eq("one", identityT<N>::of(a).v, 1); bv_eq("zero", zeroT<N>::of(a).v, 0);
  N t = a; t += b; bv_eq("+=", t.v, (uint8_t)(x ^ y)); t = a; t -= b; bv_eq("-=", t.v, (uint8_t)(x ^ y)); bv_true("<", (a < b) == (x < y)); bv_true(">", (a > b) == (x > y)); bv_true("<=", (a <= b) == (x <= y)); bv_true(">=", (a >= b) == (x >= y)); bv_true("==", (a == b) == (x == y)); bv_true("!=", (a != b) == (x != y));
  for (int k = 0; k < 3; k++) if (x < (1 << (1 << k))) bv_eq("lift multiplies by the half power", N::lift(a, k).v, spec_mul(x, (uint8_t)(1 << ((1 << k) - 1)), B3)); }
#endif
#ifdef VF_NIM16
W(nim_mul_16) { uint16_t x = bsym<uint16_t>(0), y = bsym<uint16_t>(1); typedef nimber<uint16_t> N; bv_eq("nimber product (16 bits)", (N(x) * N(y)).v, spec_mul(x, y, B4)); }
#endif
#ifdef VF_NIM32
// powers of two, and one power of two by anything: products are sums of these
#define NP(N, K) W(nim_pow_##N) { typedef nimber<U(N)> M; U(N) y = bsym<U(N)>(0); for (int i = 0; i < N; i++) { U(N) r = 0; for (int j = 0; j < N; j++) r ^= ((y >> j) & 1) ? (U(N))B##K.t[i][j] : (U(N))0; bv_eq("power of two by anything (" #N " bits)", (M((U(N))((U(N))1 << i)) * M(y)).v, r); } }
NP(16, 4) NP(32, 5)
#endif
#ifdef VF_INV16
W(nim_inv_16) { uint16_t x = bsym<uint16_t>(0); typedef nimber<uint16_t> N; bv_eq("inverse (16 bits)", spec_mul(x, N(x).inverse().v, B4), x == 0 ? 0 : 1); }
#endif
#ifdef VF_SQRT
W(nim_sqrt_16) { uint16_t x = bsym<uint16_t>(0); typedef nimber<uint16_t> N; uint16_t s = N(x).sqrt().v; bv_eq("square root (16 bits)", spec_mul(s, s, B4), x); }
W(nim_sqrt_32) { uint32_t x = bsym<uint32_t>(0); typedef nimber<uint32_t> N; uint32_t s = N(x).sqrt().v; bv_eq("square root (32 bits)", spec_mul(s, s, B5), x); }
#endif
// random numbers
#define RANGEU(N) W(range_##N) { U(N) v = bsym<U(N)>(0), lo = bsym<U(N)>(1), hi = bsym<U(N)>(2); if (lo <= hi) { U(N) r = altruct::random::integer_to_range<U(N), U(N)>(v, lo, hi); bv_true("result within the range (uint" #N ")", lo <= r && r <= hi); if (v <= (U(N))(hi - lo)) bv_eq("small values keep their place (uint" #N ")", (U(N))(r - lo), v); if (lo == 0 && (U(N))(hi + 1) == 0) bv_eq("full range keeps the value (uint" #N ")", r, v); } }
RANGEU(8) RANGEU(16) RANGEU(32) RANGEU(64)
W(multiple_8) { uint8_t w = bsym<uint8_t>(0); uint8_t m = altruct::random::biggest_multiple<uint8_t>(w); if (w != 0) { uint8_t q = 0; for (unsigned k = 1; k <= 256; k++) if (w * k <= 256) q = (uint8_t)(w * k); bv_eq("largest multiple of the width up to 256", m, q); } else bv_eq("no multiple for the full range", m, 0); }
