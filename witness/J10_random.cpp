#include "ring.h"
#include "sorts.h"
#include "altruct/algorithm/random/xorshift.h"
#include "altruct/algorithm/random/mersenne_twister.h"
using namespace altruct::random;
typedef uint32_t u32; typedef uint64_t u64;
// the published recurrence, one word at a time
struct mt { u32 s[624]; int i;
  INL void init(u32 x) { s[0] = x; for (int k = 1; k < 624; k++) s[k] = 1812433253u * (s[k - 1] ^ (s[k - 1] >> 30)) + k; i = 624; }
  INL void init(const u32* key, int len) { init(19650218u); int a = 1, b = 0; for (int k = 624 > len ? 624 : len; k; k--) { s[a] = (s[a] ^ ((s[a - 1] ^ (s[a - 1] >> 30)) * 1664525u)) + key[b] + b; a++; b++; if (a >= 624) { s[0] = s[623]; a = 1; } if (b >= len) b = 0; } for (int k = 623; k; k--) { s[a] = (s[a] ^ ((s[a - 1] ^ (s[a - 1] >> 30)) * 1566083941u)) - a; a++; if (a >= 624) { s[0] = s[623]; a = 1; } } s[0] = 0x80000000u; i = 624; }
  INL u32 next() { if (i >= 624) { for (int k = 0; k < 624; k++) { u32 y = (s[k] & 0x80000000u) | (s[(k + 1) % 624] & 0x7fffffffu); s[k] = s[(k + 397) % 624] ^ (y >> 1) ^ (y & 1 ? 0x9908b0dfu : 0); } i = 0; } u32 y = s[i++]; y ^= y >> 11; y ^= (y << 7) & 0x9d2c5680u; y ^= (y << 15) & 0xefc60000u; return y ^ (y >> 18); } };
#define MT(TAG, SEED) W(twister_##TAG) { mtrand r((u32)SEED); mt m; m.init((u32)SEED); bool ok = true; for (int k = 0; k < 1300; k++) { ok = ok && r.randInt() == m.next(); if (k % 100 == 99) vf_true("the published sequence", ok); } r.seed((u32)SEED + 1); m.init((u32)SEED + 1); for (int k = 0; k < 10; k++) ok = ok && r.randInt() == m.next(); vf_true("seeding anew", ok); }
MT(0, 0) MT(1, 5489) MT(2, 0xffffffff)
#define MTA(LEN) W(twister_array_##LEN) { u32 key[LEN]; for (int k = 0; k < LEN; k++) key[k] = 0x123u * (k + 1) + ((u32)k << 27); mtrand r(key, LEN); mt m; m.init(key, LEN); bool ok = true; for (int k = 0; k < 640; k++) ok = ok && r.randInt() == m.next(); vf_true("the published sequence", ok); }
MTA(1) MTA(4) MTA(624) MTA(700)
// copies and saved states go on where the original was, on their own
#define MTC(K) W(twister_copy_##K) { mtrand r((u32)77); for (int k = 0; k < K; k++) r.randInt(); mtrand c(r), d((u32)3); d = r; u32 st[mtrand::SAVE]; r.save(st); mtrand e((u32)9); e.randInt(); e.load(st); mt m; m.init(77); for (int k = 0; k < K; k++) m.next(); bool a = true, b = true, f = true, g = true; u32 x[630]; for (int k = 0; k < 630; k++) x[k] = m.next(); \
  for (int k = 0; k < 630; k++) a = a && c.randInt() == x[k]; for (int k = 0; k < 630; k++) b = b && d.randInt() == x[k]; for (int k = 0; k < 630; k++) f = f && e.randInt() == x[k]; for (int k = 0; k < 630; k++) g = g && r.randInt() == x[k]; vf_true("copy", a); vf_true("assignment", b); vf_true("loaded state", f); vf_true("the original is not disturbed", g); }
MTC(0) MTC(1) MTC(600) MTC(623) MTC(624) MTC(625)
// every access goes through the same sequence and stays in its range
W(twister_ranges) { for (u32 n : std::initializer_list<u32>{ 0, 1, 2, 3, 6, 7, 8, 9, 100, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu }) { mtrand r((u32)123); mt m; m.init(123); u32 u = 0; while (u < n) u = u * 2 + 1; for (int k = 0; k < 20; k++) { u32 w; do w = m.next() & u; while (w > n); vf_true("bounded integer", r.randInt(n) == w); } } }
W(twister_reals) { mtrand r((u32)321); mt m; m.init(321); for (int k = 0; k < 40; k++) { double a = r.rand(), b = r.rand(3.0), c = r.randExc(), d = r.randExc(5.0), e = r.randDblExc(), f = r.randDblExc(2.0); double x = m.next() / 4294967295.0, y = m.next() / 4294967295.0, z = m.next() / 4294967296.0, w = m.next() / 4294967296.0, s = (m.next() + 0.5) / 4294967296.0, t = (m.next() + 0.5) / 4294967296.0;
  vf_true("[0, 1]", a >= 0 && a <= 1 && a - x < 1e-15 && x - a < 1e-15); vf_true("[0, n]", b >= 0 && b <= 3 && b - 3 * y < 1e-14 && 3 * y - b < 1e-14); vf_true("[0, 1)", c == z && c >= 0 && c < 1); vf_true("[0, n)", d == w * 5 && d < 5); vf_true("(0, 1)", e == s && e > 0 && e < 1); vf_true("(0, n)", f == t * 2 && f > 0 && f < 2);
  double g = r.rand53(); u32 p = m.next() >> 5, q = m.next() >> 6; vf_true("53 bits", g == (p * 67108864.0 + q) / 9007199254740992.0 && g >= 0 && g < 1); double h = r(); vf_true("[0, 1]", h >= 0 && h <= 1); m.next(); } }
// xorshift
INL u64 x64(u64& x) { x ^= x >> 12; x ^= x << 25; x ^= x >> 27; return x * 2685821657736338717ull; }
#define XS(A) W(xorshift_##A) { for (int k = A; k < A + 17; k++) { u64 s = k < 64 ? 1ull << k : 0x9e3779b97f4a7c15ull * k; xorshift_64star r(s), z; z.seed(s); u64 x = s; bool ok = true; for (int t = 0; t < 12; t++) { u64 e = x64(x); ok = ok && r.next() == e; ok = ok && (t % 2 ? z() : z.next()) == e; } u64 e = x64(x); ok = ok && r.next(5, 11) == 5 + e % 7; e = x64(x); ok = ok && r.next(0, ~0ull) == e; vf_true("the published sequence", ok); } }
XS(0) XS(17) XS(34) XS(51)
#define XK(A) W(xorshift1024_##A) { for (int k = A; k < A + 12; k++) { u64 s[16]; for (int i = 0; i < 16; i++) s[i] = k < 64 ? ((i * 5 + k) % 16 == 0 || k == 63 ? 1ull << k : 0x0123456789abcdefull * i) : ~(u64)i * k; xorshift_1024star r(s); int p = 0; bool ok = true; for (int t = 0; t < 40; t++) { u64 a = s[p], b = s[p = (p + 1) & 15]; b ^= b << 31; b ^= b >> 11; a ^= a >> 30; s[p] = a ^ b; ok = ok && r.next() == s[p] * 1181783497276652981ull; } vf_true("the published sequence", ok); \
  u64 y = 77 + k; xorshift_1024star q(y), w; w.seed(y); for (int i = 0; i < 16; i++) s[i] = x64(y); p = 0; for (int t = 0; t < 20; t++) { u64 a = s[p], b = s[p = (p + 1) & 15]; b ^= b << 31; b ^= b >> 11; a ^= a >> 30; s[p] = a ^ b; u64 e = s[p] * 1181783497276652981ull; ok = ok && q.next() == e && w() == e; } vf_true("seeded from one word", ok); } }
XK(0) XK(20) XK(40) XK(55)
W(xorshift_ranges) { xorshift_64star r((u64)5), c = r; xorshift_1024star k((u64)5), d = k; for (u64 n : std::initializer_list<u64>{ 0, 1, 2, 9, 1000, 1ull << 40, (1ull << 63) - 1, 1ull << 63, ~0ull - 3, ~0ull - 2 }) for (int t = 0; t < 5; t++) { u64 lo = 3 * (n <= ~0ull - 3), hi = lo + n, w = n + 1, top = (0 - w) % w, lim = 0 - top, e; do e = c.next(); while (lim != 0 && e >= lim); vf_true("uniform bounded integer", r.next_uniform(lo, hi) == lo + e % w); do e = d.next(); while (lim != 0 && e >= lim); vf_true("uniform bounded integer", k.next_uniform(lo, hi) == lo + e % w); vf_true("bounded integer", k.next(lo, hi) == lo + d.next() % w); }
  for (int t = 0; t < 10; t++) { double a = r.next_0_1(), b = k.next_0_1(); double x = c.next() / 18446744073709551615.0, y = d.next() / 18446744073709551615.0; vf_true("[0, 1]", a >= 0 && a <= 1 && b >= 0 && b <= 1 && a - x < 1e-15 && x - a < 1e-15 && b - y < 1e-15 && y - b < 1e-15); } vf_true("whole range", xorshift_64star::min() == 0 && xorshift_64star::max() == ~0ull && xorshift_1024star::min() == 0 && xorshift_1024star::max() == ~0ull); }
