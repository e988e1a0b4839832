// Oracle: the Clifford algebra generated from its basis (sign by counting transpositions, metric by squaring).
#pragma once
#include "ring.h"
template<int N, int NULLMASK> // N generators; generators in NULLMASK square to 0, all others to +1
struct Cl {
    static const int D = 1 << N;
    R c[D];
    Cl() { 
#pragma clang loop unroll(full)
        for (int i = 0; i < D; i++) c[i] = rhandle(rsym(0), ring_cst(0)); }
    static constexpr int sign(int a, int b) { // sign of e_a e_b, or 0
        if (a & b & NULLMASK) return 0;
        int s = 0; for (int t = a >> 1; t; t >>= 1) s += __builtin_popcount(t & b);
        return (s & 1) ? -1 : 1;
    }
    static constexpr int grade(int a) { return __builtin_popcount(a); }
};
#include <utility>
// MODE 0 geometric, 1 outer (grade r+s part), 2 inner (grade |r-s| part)
template<typename C, int I, int J, int MODE> __attribute__((always_inline)) inline int clstep(C& r, const C& a, const C& b) {
    constexpr int k = I ^ J, s = C::sign(I, J), gi = C::grade(I), gj = C::grade(J), gk = C::grade(k);
    constexpr bool use = MODE == 0 ? true : MODE == 1 ? gk == gi + gj : gk == (gi > gj ? gi - gj : gj - gi);
    if (use && s == 1) r.c[k] += a.c[I] * b.c[J];
    if (use && s == -1) r.c[k] -= a.c[I] * b.c[J];
    return 0;
}
template<int MODE, typename C, size_t... K> __attribute__((always_inline)) inline C clmul_(const C& a, const C& b, std::index_sequence<K...>) {
    C r; int x[] = { clstep<C, int(K) / C::D, int(K) % C::D, MODE>(r, a, b)... }; (void)x; return r;
}
template<int MODE, typename C> __attribute__((always_inline)) inline C clmul(const C& a, const C& b) { return clmul_<MODE>(a, b, std::make_index_sequence<C::D * C::D>()); }
template<typename C> __attribute__((always_inline)) C cladd(const C& a, const C& b, int s = 1) { C r;
#pragma clang loop unroll(full)
    for (int i = 0; i < C::D; i++) r.c[i] = s == 1 ? a.c[i] + b.c[i] : a.c[i] - b.c[i];
    return r; }
template<typename C> __attribute__((always_inline)) C clscale(const C& a, const R& t) { C r;
#pragma clang loop unroll(full)
    for (int i = 0; i < C::D; i++) r.c[i] = a.c[i] * t;
    return r; }
// grade involutions: rev (-1)^{k(k-1)/2}, conj (-1)^{k(k+1)/2}
template<typename C> __attribute__((always_inline)) C clrev(const C& a) { C r;
#pragma clang loop unroll(full)
    for (int i = 0; i < C::D; i++) { int k = C::grade(i); r.c[i] = ((k * (k - 1) / 2) & 1) ? -a.c[i] : a.c[i]; }
    return r; }
template<typename C> __attribute__((always_inline)) C clconj(const C& a) { C r;
#pragma clang loop unroll(full)
    for (int i = 0; i < C::D; i++) { int k = C::grade(i); r.c[i] = ((k * (k + 1) / 2) & 1) ? -a.c[i] : a.c[i]; }
    return r; }
// one obligation per pair of multivectors: the two linear forms sum c_i*u_i (u_i fresh symbols) are equal iff all coefficients are
template<typename C> INL R clform(const C& a) { R s = rhandle(rsym(0), ring_cst(0));
#pragma clang loop unroll(full)
    for (int i = 0; i < C::D; i++) s += a.c[i] * rsym(500 + i);
    return s; }
template<typename C> INL bool clctx(const C& a) { bool r = true;
#ifdef VF_CTX
#pragma clang loop unroll(full)
    for (int i = 0; i < C::D; i++) r = r & ring_eq(a.c[i].m, ring_sym(900));
#endif
    return r; }
#ifdef VF_CTX
#define CHKC(name, got, exp) do { auto x_ = (got); auto g_ = up(x_); vf_true(name " {context}", clctx(g_)); } while (0)
#else
#define CHKC(name, got, exp) do { auto x_ = (got); auto g_ = up(x_); auto e_ = (exp); vf_eq(name, clform(g_).h, clform(e_).h); } while (0)
#endif
