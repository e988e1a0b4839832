#include "ring.h"
#include "altruct/algorithm/math/convolutions.h"
#include "altruct/algorithm/math/fft.h"
// bit_cnt1 is decided for every value by B01
namespace altruct { namespace math { int bit_cnt1(uint32_t x) { return __builtin_popcount(x); } int bit_cnt1(uint64_t x) { return __builtin_popcountll(x); } } }
using namespace altruct::math;
INL R rc(int c) { return rhandle(rsym(0), ring_cst(c)); }
// expected convolution by a grouping function, computed from the definition
template<int N, class K> INL void by_def(R* e, const R* f, const R* g, K kf) { for (int i = 0; i < N; i++) e[i] = rc(0); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { int k = kf(i, j); if (k >= 0) e[k] += f[i] * g[j]; } }
template<int N> INL void syms(R* f, int k) { for (int i = 0; i < N; i++) f[i] = rsym(k + i); }
template<int N> INL void zero(R* f) { for (int i = 0; i < N; i++) f[i] = rc(0); }
template<int N> INL void same(const char* nm, const R* a, const R* b) { for (int i = 0; i < N; i++) vf_eq(nm, a[i].h, b[i].h); }
#define ARR R f[N], g[N], r[N], e[N], F[N], G[N]; syms<N>(f, 0); syms<N>(g, N); syms<N>(F, 0); syms<N>(G, N); syms<N>(r, 500);
#define CONV(nm, L, KF) W(conv_##nm##_##L) { const int N = 1 << L; auto kf = [](int i, int j) { return KF; }; ARR by_def<N>(e, F, G, kf); \
  nm##_convolution(r, f, g, L); same<N>(#nm " convolution", r, e); \
  syms<N>(f, 0); syms<N>(g, N); nm##_convolution(f, f, g, L); same<N>(#nm " convolution into the first operand", f, e); \
  syms<N>(f, 0); syms<N>(g, N); nm##_convolution(g, f, g, L); same<N>(#nm " convolution into the second operand", g, e); \
  by_def<N>(e, F, F, kf); syms<N>(f, 0); nm##_convolution(r, f, f, L); same<N>(#nm " convolution with itself", r, e); \
  syms<N>(f, 0); nm##_convolution(f, f, f, L); same<N>(#nm " convolution with itself in place", f, e); } \
W(slow_##nm##_##L) { const int N = 1 << L; ARR by_def<N>(e, F, G, [](int i, int j) { return KF; }); zero<N>(r); slow_##nm##_convolution(r, f, g, L); same<N>("slow " #nm " convolution", r, e); }
#define LOGS(M, ...) M(__VA_ARGS__)
CONV(and, 0, i & j) CONV(and, 1, i & j) CONV(and, 2, i & j) CONV(and, 3, i & j)
CONV(or, 0, i | j) CONV(or, 1, i | j) CONV(or, 2, i | j) CONV(or, 3, i | j)
CONV(xor, 0, i ^ j) CONV(xor, 1, i ^ j) CONV(xor, 2, i ^ j) CONV(xor, 3, i ^ j)
#define MAXC(N_) W(max_##N_) { const int N = N_; auto kf = [](int i, int j) { return i > j ? i : j; }; ARR by_def<N>(e, F, G, kf); max_convolution(r, f, g, N); same<N>("max convolution", r, e); \
  syms<N>(f, 0); syms<N>(g, N); max_convolution(f, f, g, N); same<N>("max convolution into the first operand", f, e); syms<N>(f, 0); syms<N>(g, N); max_convolution(g, f, g, N); same<N>("max convolution into the second operand", g, e); \
  by_def<N>(e, F, F, kf); syms<N>(f, 0); max_convolution(f, f, f, N); same<N>("max convolution with itself in place", f, e); } \
W(slow_max_##N_) { const int N = N_; ARR by_def<N>(e, F, G, [](int i, int j) { return i > j ? i : j; }); zero<N>(r); slow_max_convolution(r, f, g, N); same<N>("slow max convolution", r, e); } \
W(slow_cyclic_##N_) { const int N = N_; ARR by_def<N>(e, F, G, [](int i, int j) { return (i + j) % N_; }); zero<N>(r); slow_cyclic_convolution(r, f, g, N); same<N>("slow cyclic convolution", r, e); }
MAXC(1) MAXC(2) MAXC(3) MAXC(4) MAXC(5) MAXC(6)
#define SUBSET(L) W(subset_##L) { const int N = 1 << L; ARR for (int k = 0; k < N; k++) { e[k] = rc(0); for (int i = 0; i < N; i++) if ((i & k) == i) e[k] += F[i]; } \
  fast_subset_sum(r, f, L); same<N>("fast subset sum", r, e); same<N>("fast subset sum keeps its operand", f, F); syms<N>(r, 500); slow_subset_sum(r, f, L); same<N>("slow subset sum", r, e); fast_subset_sum(f, f, L); same<N>("fast subset sum in place", f, e); \
  fast_subset_sum_inverse(r, f, L); same<N>("subset sum inverse", r, F); fast_subset_sum_inverse(f, f, L); same<N>("subset sum inverse in place", f, F); } \
W(subset_conv_##L) { const int N = 1 << L; ARR by_def<N>(e, F, G, [](int i, int j) { return (i & j) == 0 ? (i | j) : -1; }); slow_subset_convolution(r, f, g, L); same<N>("slow subset convolution", r, e); \
  syms<N>(r, 500); fast_subset_convolution(r, f, g, L); same<N>("fast subset convolution", r, e); fast_subset_convolution(f, f, g, L); same<N>("fast subset convolution in place", f, e); } \
W(transforms_##L) { const int N = 1 << L; ARR syms<N>(r, 0); fast_walsh_hadamard_transform(r, L); for (int k = 0; k < N; k++) { e[k] = rc(0); for (int i = 0; i < N; i++) if (__builtin_popcount(i & k) & 1) e[k] -= F[i]; else e[k] += F[i]; } same<N>("Walsh-Hadamard transform", r, e); \
  syms<N>(r, 0); fast_arith_transform_plus(r, L); for (int k = 0; k < N; k++) { e[k] = rc(0); for (int i = 0; i < N; i++) if ((i & k) == i) e[k] += F[i]; } same<N>("arithmetic transform", r, e); fast_arith_transform_minus(r, L); same<N>("inverse arithmetic transform", r, F); }
SUBSET(0) SUBSET(1) SUBSET(2) SUBSET(3)
// Fourier: elements of R[x] / (x^H + 1); x is a principal 2H-th root of unity
template<int H> struct Cy { R c[H]; INL Cy() { for (int i = 0; i < H; i++) c[i] = rc(0); } INL Cy(int v) { c[0] = rc(v); for (int i = 1; i < H; i++) c[i] = rc(0); } Cy(const Cy&) = default; Cy& operator=(const Cy&) = default;
  INL Cy& operator+=(const Cy& o) { for (int i = 0; i < H; i++) c[i] += o.c[i]; return *this; } INL Cy& operator-=(const Cy& o) { for (int i = 0; i < H; i++) c[i] -= o.c[i]; return *this; }
  INL Cy operator+(const Cy& o) const { Cy t(*this); return t += o; } INL Cy operator-(const Cy& o) const { Cy t(*this); return t -= o; }
  INL Cy operator*(const Cy& o) const { Cy t; for (int i = 0; i < H; i++) for (int j = 0; j < H; j++) if (i + j < H) t.c[i + j] += c[i] * o.c[j]; else t.c[i + j - H] -= c[i] * o.c[j]; return t; } INL Cy& operator*=(const Cy& o) { return *this = *this * o; }
  INL Cy operator/(const Cy& o) const { Cy t(*this); for (int i = 0; i < H; i++) t.c[i] /= o.c[0]; return t; /* only ever divided by an integer */ } INL Cy& operator/=(const Cy& o) { return *this = *this / o; }
  static INL Cy root(int k) { Cy t; k %= 2 * H; if (k < H) t.c[k] = rc(1); else t.c[k - H] = rc(-1); return t; } };
template<int H> INL void cysyms(Cy<H>* d, int n, int k) { for (int i = 0; i < n; i++) { d[i] = Cy<H>(); d[i].c[0] = rsym(k + i); } }
template<int H> INL void cysame(const char* nm, const Cy<H>* a, const Cy<H>* b, int n) { for (int i = 0; i < n; i++) for (int j = 0; j < H; j++) vf_eq(nm, a[i].c[j].h, b[i].c[j].h); }
#define FFT(N_, H_) W(fft_##N_##_##H_) { const int N = N_, H = H_; typedef Cy<H> C; const int st = 2 * H / N; C d[N], s[N], e[N], o[N]; cysyms<H>(d, N, 0); cysyms<H>(s, N, 0); cysyms<H>(o, N, 0); C w = C::root(st); \
  for (int k = 0; k < N; k++) { e[k] = C(); for (int j = 0; j < N; j++) e[k] += o[j] * C::root(st * j * k); } fft(d, N, w); cysame<H>("fft", d, e, N); fft_rec(d, s, N, w); cysame<H>("fft_rec", d, e, N); cysame<H>("fft_rec keeps its source", s, o, N); } \
W(fftconv_##N_##_##H_) { const int N = N_, H = H_; typedef Cy<H> C; C f[N], g[N], r[N], e[N]; cysyms<H>(f, N, 0); cysyms<H>(g, N, N); for (int i = 0; i < N; i++) e[i] = C(); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) e[(i + j) % N] += f[i] * g[j]; fft_cyclic_convolution(r, f, g, N, C::root(1), 2 * H); cysame<H>("fft_cyclic_convolution", r, e, N); }
FFT(1, 1) FFT(2, 1) FFT(2, 2) FFT(4, 2) FFT(4, 4) FFT(8, 4)
#define LIN(A, B, H_) W(convolution_##A##_##B) { const int H = H_; typedef Cy<H> C; C u[A], v[B], e[A + B - 1]; cysyms<H>(u, A, 0); cysyms<H>(v, B, A); for (int i = 0; i < A + B - 1; i++) e[i] = C(); for (int i = 0; i < A; i++) for (int j = 0; j < B; j++) e[i + j] += u[i] * v[j]; \
  auto r = convolution<C>(u, u + A, v, v + B, C::root(1), 2 * H); vf_ieq("convolution length", r.size(), A + B - 1); cysame<H>("convolution", r.data(), e, A + B - 1); } \
W(cyclic_##A##_##B) { const int H = H_; typedef Cy<H> C; C u[A], v[B], e[A + B - 1]; cysyms<H>(u, A, 0); cysyms<H>(v, B, A); for (int k = 0; k < A + B - 1; k++) { e[k] = C(); for (int i = 0; i < A; i++) e[k] += u[i] * v[(((k - i) % B) + B) % B]; } \
  auto r = cyclic_convolution<C>(u, u + A, v, v + B, C::root(1), 2 * H); vf_ieq("cyclic convolution length", r.size(), A + B - 1); cysame<H>("cyclic convolution", r.data(), e, A + B - 1); }
LIN(1, 1, 1) LIN(1, 2, 2) LIN(2, 1, 2) LIN(2, 2, 2) LIN(2, 3, 2) LIN(3, 2, 4) LIN(1, 4, 2) LIN(3, 3, 4) LIN(2, 4, 4) LIN(4, 2, 4) LIN(3, 5, 4)
