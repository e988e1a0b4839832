#include "bitw.h"
#include <string>
#include <vector>
#include <iterator>
#include <functional>
#include <algorithm>
#include <initializer_list>
#include "altruct/algorithm/math/bits.h"
// stand-in for std::vector with fixed room: same meaning, every index checked, fresh elements zero, cells never given hold nothing
namespace std { template<typename T> struct vf_vector { enum { CAP = VF_CAP }; T d[CAP]; size_t n;
  vf_vector() : n(0) {} explicit vf_vector(size_t k) : n(0) { resize(k); } vf_vector(const vf_vector& r) : n(r.n) { for (size_t i = 0; i < r.n; i++) d[i] = r.d[i]; } vf_vector& operator=(const vf_vector& r) { n = r.n; for (size_t i = 0; i < r.n; i++) d[i] = r.d[i]; return *this; }
  void resize(size_t k) { if (k > CAP) __builtin_trap(); for (size_t i = n; i < k; i++) d[i] = 0; n = k; } size_t size() const { return n; } T& at(size_t i) { if (i >= n) __builtin_trap(); return d[i]; } T& operator[](size_t i) { if (i >= n) __builtin_trap(); return d[i]; } const T& operator[](size_t i) const { if (i >= n) __builtin_trap(); return d[i]; }
  T& back() { if (n == 0) __builtin_trap(); return d[n - 1]; } const T& back() const { if (n == 0) __builtin_trap(); return d[n - 1]; } bool empty() const { return n == 0; } void clear() { n = 0; } void assign(size_t k, T v) { n = 0; resize(k); for (size_t i = 0; i < k; i++) d[i] = v; } void push_back(T v) { resize(n + 1); d[n - 1] = v; } void pop_back() { if (n == 0) __builtin_trap(); n--; }
  void swap(vf_vector& r) { vf_vector t(r); r = *this; *this = t; } T* data() { return d; } const T* data() const { return d; } T* begin() { return d; } T* end() { return d + n; } const T* begin() const { return d; } const T* end() const { return d + n; } void reserve(size_t) {} };
struct vf_string { enum { CAP = 8 * VF_CAP * sizeof(uint64_t) + 70 }; char d[CAP]; size_t n; vf_string() : n(0) {} vf_string(const vf_string& r) : n(r.n) { for (size_t i = 0; i < n; i++) d[i] = r.d[i]; } void reserve(size_t) {} void push_back(char c) { if (n >= CAP) __builtin_trap(); d[n++] = c; } vf_string& operator+=(char c) { push_back(c); return *this; } void resize(size_t k) { if (k > n) __builtin_trap(); n = k; } size_t size() const { return n; } char operator[](size_t i) const { if (i >= n) __builtin_trap(); return d[i]; } char& operator[](size_t i) { if (i >= n) __builtin_trap(); return d[i]; } }; }
// the bit-level helpers have their own property; here they are given by their meaning
namespace altruct { namespace math {
#define REV(T) T bit_reverse(T x) { T r = 0; const int n = sizeof(T) * 8; for (int i = 0; i < n; i++) r |= T(T((x >> i) & 1) << (n - 1 - i)); return r; } int bit_cnt1(T x) { int r = 0; for (int i = 0; i < (int)sizeof(T) * 8; i++) r += (int)((x >> i) & 1); return r; }
REV(uint8_t) REV(uint16_t) REV(uint32_t) REV(uint64_t) } }
#define vector vf_vector
#define string vf_string
#include "altruct/structure/container/bit_vector.h"
#undef vector
#undef string
#ifndef VF_W
#define VF_W uint8_t
#endif
typedef VF_W word; typedef altruct::container::bit_vector<word> BV; enum { L = sizeof(word) * 8 };
#ifndef VF_SIZES
#define VF_SIZES 0, 1, 7, 8, 9, 15, 16, 17, 20, 24, 26
#endif
enum { MAXN = L * VF_CAP };
struct bits { bool b[MAXN]; size_t n; INL bool at(size_t i) const { return i < n ? b[i] : false; } };
INL word in(int k) { return bsym<word>(k); }
// a vector of n unknown bits, and the same as a plain sequence
INL void make(size_t n, int k, BV& v, bits& m) { v = BV(n); m.n = n; for (size_t i = 0; i * L < n; i++) { word w = in(k + (int)i); for (size_t j = 0; j < L && i * L + j < n; j++) { bool b = (w >> j) & 1; m.b[i * L + j] = b; } if (n - i * L < L) w &= (word)(((word)1 << (n - i * L)) - 1); v.words[i] = w; } }
INL bool same(const BV& v, const bits& m) { bool ok = v.size() == m.n && v.words.size() >= (m.n + L - 1) / L + 1; for (size_t i = 0; i < v.words.size(); i++) for (size_t j = 0; j < L; j++) ok &= (((v.words[i] >> j) & 1) != 0) == m.at(i * L + j); return ok; }
static const int SIZES[] = { VF_SIZES }; enum { NS = sizeof(SIZES) / sizeof(SIZES[0]) };
#define EACH(n) for (int i_##n = 0; i_##n < NS; i_##n++) if (const size_t n = SIZES[i_##n] + 1) for (size_t n##_ = n - 1, o_ = 0; o_ < 1; o_++)
// positions worth looking at: all for small words, around word boundaries otherwise
INL bool pos(size_t p, size_t n) { return L == 8 || p == n || p % L <= 1 || p % L == L - 1 || p % L == L / 2 + 1; }
#define RANGE(b, e, n) for (size_t b = 0; b <= n; b++) if (pos(b, n)) for (size_t e = b; e <= n; e++) if (pos(e, n))
#ifndef VF_N
#define VF_N 0
#endif
enum { N = VF_N };
W(build) { BV v; bits m; make(N, 0, v, m); bool a[N + 1]; for (size_t i = 0; i < N; i++) a[i] = m.b[i]; bv_true("constructed from a sequence", same(BV(a, a + N), m)); bits z; z.n = N; for (size_t i = 0; i < N; i++) z.b[i] = false; bv_true("constructed by size", same(BV(N), z)); bv_true("copy", same(v.clone(), m)); BV c(v); bv_true("copy", same(c, m)); bool r = true;
  for (size_t i = 0; i < N; i++) { r &= v.bit_at(i) == (int)m.b[i] && (int)v[i] == (int)m.b[i]; } bv_true("bits read back", r); auto s = v.to_string(0, N); bool q = s.size() == N; for (size_t i = 0; i < N; i++) q &= s[i] == '0' + (m.b[i] ? 1 : 0); bv_true("to_string", q); }
W(set) { for (size_t p = 0; p < N; p++) { BV v; bits m; make(N, 0, v, m); int x = in(60) & 1; BV a = v; a.set(p, x); bits k = m; k.b[p] = x; bv_true("set", same(a, k)); a = v; a.set(p, -1); k.b[p] = !m.b[p]; bv_true("flip", same(a, k));
  a = v; a[p] = x; k.b[p] = x; bv_true("[] =", same(a, k)); a = v; a[p] ^= x; k.b[p] = m.b[p] != (x != 0); bv_true("[] ^=", same(a, k)); a = v; a[p] |= x; k.b[p] = m.b[p] || x; bv_true("[] |=", same(a, k)); a = v; a[p] &= x; k.b[p] = m.b[p] && x; bv_true("[] &=", same(a, k));
  size_t q = (p * 5 + 3) % N; a = v; a[p] = a[q]; k.b[p] = m.b[q]; bv_true("[] = []", same(a, k)); a = v; a[p] = v[q]; bv_true("[] = [] of another", same(a, k)); } }
W(resize) { for (size_t k = 0; k <= 2 * L + 3; k++) if (pos(k, N)) { BV v; bits m; make(N, 0, v, m); v.resize(k); bits t = m; for (size_t i = N; i < k; i++) t.b[i] = false; t.n = k; bv_true("resize", same(v, t)); make(N, 0, v, m); v.reserve(k); if (k < N) t = m; bv_true("reserve", same(v, t)); v.resize(N); bits u = k < N ? m : m; bv_true("reserve and back", same(v, u)); }
  BV v; bits m; make(N, 0, v, m); int x = in(60) & 1; v.push_back(x); bits t = m; t.b[N] = x; t.n = N + 1; bv_true("push_back", same(v, t)); v.pop_back(); bv_true("pop_back", same(v, m)); if (N > 0) { v.pop_back(); t = m; t.n = N - 1; bv_true("pop_back", same(v, t)); v.push_back(0); t.n = N; t.b[N - 1] = false; bv_true("push_back after pop_back", same(v, t)); } }
W(shift) { for (size_t c = 0; c <= N + L + 1; c++) if (pos(c, N)) { BV v, a; bits m, t; make(N, 0, v, m); t.n = N; for (size_t i = 0; i < N; i++) t.b[i] = m.at(i + c); bv_true(">>", same(v >> (int)c, t)); a = v; a >>= (int)c; bv_true(">>=", same(a, t)); for (size_t i = 0; i < N; i++) t.b[i] = i >= c ? m.b[i - c] : false; bv_true("<<", same(v << (int)c, t)); a = v; a <<= (int)c; bv_true("<<=", same(a, t)); } }
W(logic) { BV v; bits m; make(N, 0, v, m); bits t = m; for (size_t i = 0; i < N; i++) t.b[i] = !m.b[i]; bv_true("~", same(~v, t)); for (int j = 0; j < NS; j++) { size_t M = SIZES[j]; BV w; bits q, r; make(M, 20, w, q); r.n = M > N ? M : N; for (size_t i = 0; i < r.n; i++) r.b[i] = m.at(i) && q.at(i); bv_true("&", same(v & w, r)); for (size_t i = 0; i < r.n; i++) r.b[i] = m.at(i) || q.at(i); bv_true("|", same(v | w, r)); for (size_t i = 0; i < r.n; i++) r.b[i] = m.at(i) != q.at(i); bv_true("^", same(v ^ w, r)); }
  BV a = v; a &= a; bv_true("&= itself", same(a, m)); a |= a; bv_true("|= itself", same(a, m)); a ^= a; for (size_t i = 0; i < N; i++) t.b[i] = false; bv_true("^= itself", same(a, t)); }
W(reverse) { RANGE(b, e, N) { BV v; bits m; make(N, 0, v, m); bits t = m; for (size_t i = b; i < e; i++) t.b[i] = m.b[b + e - 1 - i]; v.reverse(b, e); bv_true("reverse", same(v, t)); } }
W(rotate) { RANGE(b, e, N) for (size_t c = 0; c <= e - b + 1; c++) if (pos(c, e - b) || c == 1) { if (L == 8 && N > 17 && c != 1 && c != 3 && c != 8 && c + 1 != e - b) continue; BV v, a; bits m; make(N, 0, v, m); bits t = m, s = m; for (size_t i = b; i < e; i++) t.b[i] = m.b[b + (i - b + c) % (e - b)], s.b[b + (i - b + c) % (e - b)] = m.b[i]; a = v; a.rotate_left(b, e, c); bv_true("rotate_left", same(a, t)); a = v; a.rotate_right(b, e, c); bv_true("rotate_right", same(a, s)); } }
W(swap) { RANGE(b, e, N) for (size_t c = e; c <= N; c++) if (pos(c, N)) for (size_t f = c; f <= N; f++) if (pos(f, N) && (L == 8 ? N <= 12 || ((b + e) % 5 == 0 && (c + f) % 3 == 0) : (b + c) % 3 == 0)) { BV v, a; bits m; make(N, 0, v, m); bits t = m; size_t k = b; for (size_t i = c; i < f; i++) t.b[k++] = m.b[i]; for (size_t i = e; i < c; i++) t.b[k++] = m.b[i]; for (size_t i = b; i < e; i++) t.b[k++] = m.b[i]; a = v; a.swap(b, e, c, f); bv_true("swap of ranges", same(a, t)); a = v; a.swap(c, f, b, e); bv_true("swap of ranges, the later one first", same(a, t)); } }
W(apply) { RANGE(b, e, N) { BV v, a; bits m; make(N, 0, v, m); bits t = m; for (size_t i = b; i < e; i++) t.b[i] = !m.b[i]; a = v; a.apply(b, e, BV::op_flip); bv_true("flip a range", same(a, t)); a = v; a.apply(b, e, BV::op_flip, true); bv_true("flip a range backwards", same(a, t)); for (size_t i = b; i < e; i++) t.b[i] = true; a = v; a.apply(b, e, BV::op_set1); bv_true("set a range", same(a, t)); for (size_t i = b; i < e; i++) t.b[i] = false; a = v; a.apply(b, e, BV::op_set0); bv_true("clear a range", same(a, t)); a = v; a.apply(b, e, BV::op_nop); bv_true("keep a range", same(a, m));
  // the operation sees every bit of the range at its position
  int seen[N + 1]; bool good = true; for (size_t i = 0; i <= N; i++) seen[i] = 0; a = v; a.apply(b, e, [&](word w, size_t p, int l) { for (int j = 0; j < l; j++) if (p + j < e - b) { seen[b + p + j]++; good &= (((w >> j) & 1) != 0) == m.b[b + p + j]; } return w; }); for (size_t i = 0; i < N; i++) good &= seen[i] == (i >= b && i < e ? 1 : 0); bv_true("apply visits the range once", good && same(a, m)); } }
W(apply2) { RANGE(b, e, N) for (size_t c = 0; c + (e - b) <= N; c++) if (pos(c, N) && (L != 8 || N <= 9 || (b + e) % 3 == 0)) { size_t l = e - b; BV v, w, a; bits m, q; make(N, 0, v, m); make(N, 20, w, q); bits t = m;
#define AP(OP, E) { t = m; for (size_t i = 0; i < l; i++) { bool x = m.b[b + i], y = q.b[c + i]; t.b[b + i] = E; } a = v; BV::apply(a, b, w, c, l, BV::OP); bv_true(#OP, same(a, t)); }
  AP(op_set, y) AP(op_xor, x != y) AP(op_nand, !(x && y)) AP(op_and, x && y) AP(op_or, x || y) AP(op_nor, !(x || y)) AP(op_eq, x == y) AP(op_setn, !y)
  t = m; for (size_t i = 0; i < l; i++) t.b[b + i] = m.b[c + i]; a = v; BV::apply(a, b, a, c, l, BV::op_set); bv_true("move within one vector", same(a, t)); t = m; for (size_t i = 0; i < l; i++) t.b[b + i] = m.b[b + i] != m.b[c + i]; a = v; BV::apply(a, b, a, c, l, BV::op_xor); bv_true("combine within one vector", same(a, t)); } }
W(scan) { RANGE(b, e, N) { BV v; bits m; make(N, 0, v, m); size_t at = 0; bool good = true; bool r = v.scan(b, e, [&](word w, size_t p, int l) { if (l == 0) return true; good &= p == at; for (int j = 0; j < l; j++) good &= b + p + j < e && (((w >> j) & 1) != 0) == m.at(b + p + j); at += l; return true; }); bv_true("scan visits the range in order", good && at == e - b && r);
  if (L == 8 && e - b > L) { size_t calls = 0; bool r2 = v.scan(b, e, [&](word, size_t, int) { calls++; return false; }); bv_true("scan stops when told", calls == 1 && !r2); } } }
W(compare) { RANGE(b, e, N) for (size_t c = 0; c <= N; c++) if (pos(c, N)) for (int d = -1; d <= 1; d++) { size_t l1 = e - b, l2 = l1 + d; if ((d < 0 && l1 == 0) || c + l2 > N || (L == 8 && N > 9 && (b * 3 + e + c) % 7) || (N > 9 && b != c && (l1 > 5 || (L == 8 && (b + e * 2 + c * 5) % 13)))) continue; BV v, w; bits m, q; make(N, 0, v, m); make(N, 20, w, q); int r = 0; for (size_t i = (l1 < l2 ? l1 : l2); i-- > 0;) r = m.b[b + i] != q.b[c + i] ? (m.b[b + i] ? 1 : -1) : r; if (r == 0) r = d < 0 ? 1 : d > 0 ? -1 : 0; int g = BV::compare(v, b, e, w, c, c + l2); bv_true("compare", (g < 0) == (r < 0) && (g > 0) == (r > 0)); } }
W(hamming) { RANGE(b, e, N) for (size_t c = 0; c + (e - b) <= N; c++) if (pos(c, N)) { if ((L == 8 && N > 9 && (b * 3 + e + c) % 7) || e - b > 20 || (N > 9 && b != c && (e - b > 6 || (L == 8 && (b + e * 2 + c * 5) % 13)))) continue; BV v, w; bits m, q; make(N, 0, v, m); make(N, 20, w, q); size_t h = 0; for (size_t i = 0; i < e - b; i++) h += m.b[b + i] != q.b[c + i]; bv_true("hamming_distance", BV::hamming_distance(v, b, w, c, e - b) == h); } }
W(order) { for (int j = 0; j < NS; j++) { size_t M = SIZES[j]; BV v, w; bits m, q; make(N, 0, v, m); make(M, 20, w, q); int r = 0; for (size_t i = (N < M ? N : M); i-- > 0;) r = m.b[i] != q.b[i] ? (m.b[i] ? 1 : -1) : r; if (r == 0) r = N < M ? -1 : N > M ? 1 : 0; bv_true("==", (v == w) == (r == 0)); bv_true("!=", (v != w) == (r != 0)); bv_true("<", (v < w) == (r < 0)); bv_true(">", (v > w) == (r > 0)); bv_true("<=", (v <= w) == (r <= 0)); bv_true(">=", (v >= w) == (r >= 0)); } }
