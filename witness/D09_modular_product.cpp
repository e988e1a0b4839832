#include "ring.h"
#include "sorts.h"
#include "algorithm/math/base.cpp"
#include "altruct/algorithm/math/polynom_mod.h"
using namespace altruct::math;
typedef modulo<int, 1000000007, modulo_storage::CONSTANT> M1;
typedef modulo<uint32_t, 4294967291u, modulo_storage::CONSTANT> M2;
typedef modulo<int, 2147483647, modulo_storage::CONSTANT> M3;
typedef modulo<int64_t, 4294967291ll, modulo_storage::CONSTANT> M4;
typedef modulo<int, 10, modulo_storage::CONSTANT> M5;
typedef modulo<int, 1, modulo_storage::INSTANCE> MX;
INL uint64_t lcg(uint64_t& s) { s = s * 6364136223846793005ull + 1442695040888963407ull; return s >> 30; }
template<class M> INL M mk(uint64_t v, uint64_t m) { return M(typename std::decay<decltype(M(0).v)>::type(v % m)); }
template<> INL MX mk<MX>(uint64_t v, uint64_t m) { return MX(int(v % m), int(m)); }
// every kernel, every admissible length of the result; the element after the last one must stay as it is
template<class M> INL void prod(uint64_t m, int l1, int l2, int seed) {
  M a[40], b[40], r[80]; uint64_t s = seed, av[40], bv[40]; const uint64_t xa[2] = { 0xFFFFFFFAu, 0x01010000u }, xb[2] = { 0x01800000u, 0xFFFF0000u }; /* seed 2: the parts recombine to more than 64 bits */ for (int i = 0; i <= l1; i++) { av[i] = seed == 0 ? m - 1 : seed == 2 ? xa[i & 1] % m : lcg(s) % m; a[i] = mk<M>(av[i], m); } for (int i = 0; i <= l2; i++) { bv[i] = seed == 0 ? m - 1 : seed == 2 ? xb[i & 1] % m : lcg(s) % m; b[i] = mk<M>(bv[i], m); }
  for (int lr = l1; lr <= l1 + l2; lr += lr == l1 && l2 > 2 ? l2 - 1 : 1) for (int k = 0; k < 6; k++) { for (int i = 0; i <= lr + 1; i++) r[i] = mk<M>(12345 + i, m);
    switch (k) { case 0: polynom_mul<M>::_mul_fft(r, lr, a, l1, b, l2); break; case 1: polynom_mul<M>::_mul_fft_big(r, lr, a, l1, b, l2); break; case 2: polynom_mul<M>::_mul_fft_crt(r, lr, a, l1, b, l2); break; case 3: polynom_mul<M>::impl(r, lr, a, l1, b, l2); break; case 4: polynom<M>::_mul_karatsuba(r, lr, a, l1, b, l2); break; default: polynom<M>::_mul_long(r, lr, a, l1, b, l2); }
    bool ok = true; for (int i = 0; i <= lr; i++) { uint64_t t = 0; for (int j = 0; j <= l1; j++) if (i - j >= 0 && i - j <= l2) t = (t + av[j] * bv[i - j] % m) % m; ok = ok && (uint64_t)r[i].v == t && (uint64_t)r[i].M() == m; }
    const char* nm = "product"; (void)nm; if (k == 0) vf_true("product by transforms of two blocks", ok); else if (k == 1) vf_true("product by transforms of three blocks", ok); else if (k == 2) vf_true("product by transforms modulo two primes", ok); else if (k == 3) vf_true("product", ok); else if (k == 4) vf_true("product by splitting", ok); else vf_true("product term by term", ok);
    vf_true("nothing past the result is written", (uint64_t)r[lr + 1].v == (12345 + lr + 1) % m); } }
#define PROD(TAG, M, m) W(product_##TAG) { for (int s = 0; s < 2; s++) { prod<M>(m, 0, 0, s); prod<M>(m, 1, 0, s); prod<M>(m, 1, 1, s); prod<M>(m, 2, 1, s); prod<M>(m, 3, 2, s); prod<M>(m, 4, 4, s); prod<M>(m, 7, 3, s); } prod<M>(m, 1, 1, 2); prod<M>(m, 3, 2, 2); }
PROD(1e9, M1, 1000000007) PROD(uint, M2, 4294967291u) PROD(mersenne, M3, 2147483647) PROD(int64, M4, 4294967291ull) PROD(ten, M5, 10) PROD(instance, MX, 998244353)
// transforms that are longer, and products of polynomials as such
W(longer) { prod<M1>(1000000007, 12, 11, 5); prod<M2>(4294967291u, 17, 9, 0); prod<M3>(2147483647, 15, 15, 7); }
W(polynomials) { for (int n = 0; n < 5; n++) for (int k = 0; k < 5; k++) { polynom<M1> p, q; uint64_t s = n * 7 + k; for (int i = 0; i < n; i++) p[i] = M1(int(lcg(s) % 1000000007)); for (int i = 0; i < k; i++) q[i] = M1(int(lcg(s) % 1000000007)); auto r = p * q; bool ok = true; for (int i = 0; i < n + k + 1; i++) { M1 t(0); for (int j = 0; j <= i; j++) t += p.at(j) * q.at(i - j); ok = ok && r.at(i).v == t.v; } vf_true("product of polynomials", ok); } }
#ifdef VF_BIG
INL void big(int l1, int l2) { std::vector<M1> a(l1 + 1), b(l2 + 1), r(l1 + l2 + 1); uint64_t s = 3; for (auto& x : a) x.v = int(lcg(s) % 1000000007); for (auto& x : b) x.v = int(lcg(s) % 1000000007); polynom_mul<M1>::impl(r.data(), l1 + l2, a.data(), l1, b.data(), l2); bool ok = true; for (int i = 0; i <= l1 + l2; i += i < 10 || i > l1 + l2 - 10 ? 1 : 7) { uint64_t t = 0; for (int j = std::max(0, i - l2); j <= std::min(l1, i); j++) t = (t + (uint64_t)a[j].v * b[i - j].v) % 1000000007; ok = ok && (uint64_t)r[i].v == t; } vf_true("product", ok); }
W(threshold_47) { big(47, 47); } W(threshold_48) { big(60, 48); } W(threshold_100) { big(120, 100); } W(threshold_450) { big(450, 100); }
#endif
