#include "ring.h"
#include "altruct/algorithm/hash/polynomial_hash.h"
#include "altruct/algorithm/hash/std_hash_combine.h"
#include "altruct/algorithm/hash/std_tuple_hash.h"
#include "altruct/structure/graph/graph.h"
using namespace altruct::hash;
INL int pick(int i, int n) { int v = 0; for (int b = 0; (1 << b) < n; b++) v += bool_sym(8 * i + b) ? 1 << b : 0; vf_assume(v < n); return v; }
typedef polynomial_hash1<101, 7, 29> H1; // 7 * 29 = 203 = 2 * 101 + 1
typedef polynomial_hash<1> HK; template<> int32_t HK::M[1] = { 101 }; template<> int32_t HK::B[1] = { 7 }; template<> int32_t HK::BI[1] = { 29 };
typedef polynomial_hash<2> H2; template<> int32_t H2::M[2] = { 101, 97 }; template<> int32_t H2::B[2] = { 7, 5 }; template<> int32_t H2::BI[2] = { 29, 39 };
static const int MO[2] = { 101, 97 }, BA[2] = { 7, 5 };
template<class H> struct Of; 
template<> struct Of<H1> { enum { K = 1 }; static INL int at(const H1& h, int) { return h.h; } static INL H1 make(int a, int) { return H1(a); } };
template<> struct Of<HK> { enum { K = 1 }; static INL int at(const HK& h, int k) { return h.h[k]; } static INL HK make(int a, int) { return HK{ a }; } };
template<> struct Of<H2> { enum { K = 2 }; static INL int at(const H2& h, int k) { return h.h[k]; } static INL H2 make(int a, int b) { return H2{ a, b }; } };
// the tables start empty (their memory is returned at the end)
template<class H> struct Start; typedef std::vector<int32_t> IV;
template<> struct Start<H1> { INL Start() { new (&H1::W) IV(); new (&H1::WI) IV(); } INL ~Start() { H1::W.~IV(); H1::WI.~IV(); } };
template<class H, int K> struct StartK { INL StartK() { H::M[0] = 101; H::B[0] = 7; H::BI[0] = 29; if (K > 1) H::M[K - 1] = 97, H::B[K - 1] = 5, H::BI[K - 1] = 39; for (int k = 0; k < K; k++) { new (&H::W[k]) IV(); new (&H::WI[k]) IV(); } } INL ~StartK() { for (int k = 0; k < K; k++) { H::W[k].~IV(); H::WI[k].~IV(); } } };
template<> struct Start<HK> : StartK<HK, 1> {}; template<> struct Start<H2> : StartK<H2, 2> {};
INL int pw(int k, int n) { int r = 1; for (int i = 0; i < n; i++) r = r * BA[k] % MO[k]; return r; }
template<class H> INL void is(const H& h, const int (&e)[2]) { for (int k = 0; k < Of<H>::K; k++) vf_true("value of the hash", Of<H>::at(h, k) == e[k]); }
// two hashes, three values each (the ends of the range among them)
INL int some(int i, int k) { int v[3] = { 0, 40, MO[k] - 1 }; int p = pick(i, 3), r = 0; for (int j = 0; j < 3; j++) if (p == j) r = v[j]; return r; }
#define FOR2(E) { int e[2]; for (int k = 0; k < 2; k++) { int x = a[k], y = b[k], m = MO[k]; e[k] = (E); }
#define ARITH(H) W(arith_##H) { Start<H> st; int a[2] = { some(0, 0), some(1, 1) }, b[2] = { some(2, 0), some(3, 1) }; const H p = Of<H>::make(a[0], a[1]), q = Of<H>::make(b[0], b[1]); \
  FOR2((x + y) % m) is(p + q, e); H t = p; vf_true("+= returns the object", &(t += q) == &t); is(t, e); } FOR2((x - y + m) % m) is(p - q, e); H t = p; vf_true("-= returns the object", &(t -= q) == &t); is(t, e); } FOR2(x * y % m) is(p * q, e); H t = p; vf_true("*= returns the object", &(t *= q) == &t); is(t, e); } is(p, a); is(q, b); \
  bool lt = false, eq = true; for (int k = 0; k < Of<H>::K; k++) { lt = lt || (eq && a[k] < b[k]); eq = eq && a[k] == b[k]; } vf_true("==", (p == q) == eq); vf_true("<", (p < q) == lt); vf_true("equal hashes, equal hash values", !(p == q) || p.hash() == q.hash()); }
ARITH(H1) ARITH(HK) ARITH(H2)
#define SHIFT(H) W(shift_##H) { Start<H> st; int a[2] = { some(0, 0), some(1, 1) }, b[2] = { some(2, 0), some(3, 1) }; const H p = Of<H>::make(a[0], a[1]), q = Of<H>::make(b[0], b[1]); const int order[7] = { 3, 0, 5, 1, 9, 2, 9 }; for (int i = 0; i < 7; i++) { int n = order[i]; FOR2(x * pw(k, n) % m) is(p << n, e); H t = p; vf_true("<<= returns the object", &(t <<= n) == &t); is(t, e); is(t >> n, a); vf_true(">>= returns the object", &(t >>= n) == &t); is(t, a); } \
  FOR2((x + y * pw(k, n)) % m) H t = p; vf_true("add returns the object", &t.add(q, n) == &t); is(t, e); vf_true("sub_shr returns the object", &t.sub_shr(p, n) == &t); is(t, b); } } is(p, a); }
SHIFT(H1) SHIFT(HK) SHIFT(H2)
// cumulative hashes: any text over three letters, pieces equal exactly to their own hash
template<class H> INL H direct(const int* s, int n) { int e[2] = { 0, 0 }; for (int k = 0; k < 2; k++) for (int i = n; i > 0; i--) e[k] = (e[k] * BA[k] + s[i - 1]) % MO[k]; return Of<H>::make(e[0], e[1]); }
template<class H> INL void pieces(const cumulative_hash<H>& c, const int* s, int n) { vf_true("size", (int)c.size() == n); for (int b = 0; b <= n; b++) for (int e = b; e <= n; e++) { H w = direct<H>(s + b, e - b), g = c.get(b, e); for (int k = 0; k < Of<H>::K; k++) vf_true("hash of a piece is the hash of its text", Of<H>::at(g, k) == Of<H>::at(w, k)); vf_true("hashes of equal pieces are equal", g == w && !(g < w) && !(w < g)); } }
#define TEXT(H, N) W(text_##H##_##N) { Start<H> st; int s[N + 1]; for (int i = 0; i < N; i++) s[i] = 60 + 20 * pick(i, 3); cumulative_hash<H> c(s, s + N); pieces(c, s, N); s[N] = 99; c.push_back(s[N]); pieces(c, s, N + 1); c.pop_back(); pieces(c, s, N); s[N] = 1; c.push_back(1); pieces(c, s, N + 1); cumulative_hash<H> d; vf_true("empty", d.size() == 0); for (int i = 0; i <= N; i++) { d.push_back(s[i]); } pieces(d, s, N + 1); d.assign(s + 1, s + 1 + N); pieces(d, s + 1, N); cumulative_hash<H> f(d); f.push_back(5); pieces(d, s + 1, N); f.assign(s, s); pieces(f, s, 0); }
TEXT(H1, 1) TEXT(H1, 2) TEXT(H1, 3) TEXT(HK, 2) TEXT(H2, 1) TEXT(H2, 2) TEXT(H2, 3)
// scalar operands act on every base
#define SCALAR(H) W(scalar_##H) { Start<H> st; int a[2] = { some(0, 0), some(1, 1) }; const H p = Of<H>::make(a[0], a[1]); int v[4] = { 0, 1, 50, 96 }; for (int i = 0; i < 4; i++) { int c = v[i]; int b[2] = { c, c }; FOR2((x + y) % m) is(p + c, e); } FOR2((x + m - y) % m) is(p - c, e); } FOR2(x * y % m) is(p * c, e); } FOR2((x + y * pw(k, 4)) % m) H t = p; t.add(c, 4); is(t, e); t.sub_shr(p, 4); is(t, b); H u = p; u.add(p, 4); u.sub_shr(c, 0); int f[2]; for (int j = 0; j < 2; j++) f[j] = (a[j] + a[j] * pw(j, 4) + MO[j] - c) % MO[j]; is(u, f); } } }
SCALAR(HK) SCALAR(H2)
// constructors
W(make) { Start<H2> st; H2 z; int e[2] = { 0, 0 }; is(z, e); H2 a{ 12 }; e[0] = 12; is(a, e); H2 b{ 5, 6 }; int f[2] = { 5, 6 }; is(b, f); H2 c{ 5, 6, 7 }; is(c, f); is(c.clone(), f); H1 y; vf_true("empty hash", y.h == 0 && y.clone() == y); }
// standard hashes of pairs, tuples and edges: equal values have equal hashes, and every part counts
W(std_hash) { int a = int_sym(0), b = int_sym(1), c = int_sym(2); typedef std::tuple<int, int> T2; typedef std::pair<int, int> P2; vf_true("pair", std::hash<P2>()(P2(a, b)) == std::hash<P2>()(P2(a, b))); vf_true("tuple", std::hash<T2>()(T2(a, b)) == std::hash<T2>()(T2(a, b))); altruct::graph::full_edge e(a, b), g(a, b); std::hash<altruct::graph::full_edge> h; vf_true("edge", h(e) == h(g)); }
