#include "ring.h"
#include "altruct/structure/math/matrix.h"
using namespace altruct::math;
typedef matrix<R> M;
INL R rc(int c) { return rhandle(rsym(0), ring_cst(c)); }
INL bool nz(const R& x) { return !(x == rc(0)); }
INL M mat(int n, int m, int k) { M a(n, m, rc(0)); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) a[i][j] = rsym(k + i * m + j); return a; }
INL R pr(const M& a, const M& b, int i, int j, int m) { R s = rc(0); for (int k = 0; k < m; k++) s += a[i][k] * b[k][j]; return s; }
#define ALL(nm, n_, m_, x, e) do { const M& x_ = (x); vf_ieq(nm " rows", x_.rows(), n_); vf_ieq(nm " cols", x_.cols(), m_); for (int i = 0; i < (n_); i++) for (int j = 0; j < (m_); j++) EQ(nm, x_[i][j], e); } while (0)
#define ARI(N, K) W(arith_##N##_##K) { M a = mat(N, K, 0), b = mat(N, K, 30); R s = rsym(90); ALL("A + B", N, K, a + b, a[i][j] + b[i][j]); ALL("A - B", N, K, a - b, a[i][j] - b[i][j]); ALL("-A", N, K, -a, -a[i][j]); ALL("+A", N, K, +a, a[i][j]); ALL("A * s", N, K, a * s, a[i][j] * s); if (nz(s)) ALL("A / s", N, K, a / s, a[i][j] / s); \
  M t = a; M& u = (t += b); vf_true("A += B returns the target", &u == &t); ALL("A += B", N, K, t, a[i][j] + b[i][j]); t = a; t -= b; ALL("A -= B", N, K, t, a[i][j] - b[i][j]); t = a; t += t; ALL("A += A", N, K, t, a[i][j] + a[i][j]); t = a; t -= t; ALL("A -= A", N, K, t, rc(0)); t = a; t *= s; ALL("A *= s", N, K, t, a[i][j] * s); \
  for (int x = 0; x < N; x++) for (int y = 0; y < K; y++) { t = a; t *= t[x][y]; ALL("A *= own element", N, K, t, a[i][j] * a[x][y]); if (nz(a[x][y])) { t = a; t /= t[x][y]; ALL("A /= own element", N, K, t, a[i][j] / a[x][y]); } } \
  ALL("transpose", K, N, a.transpose(), a[j][i]); ALL("zero", N, K, zeroOf(a), rc(0)); for (int r = 0; r < N; r++) for (int c = 0; c < K; c++) { ALL("tail block", N - r, K - c, M(a, r, c), a[r + i][c + j]); ALL("block", 1, 1, M(a, r, c, 1, 1), a[r][c]); } \
  M w = mat(1, 2, 60); t = a; t.swap(w); ALL("swap", N, K, w, a[i][j]); ALL("swap", 1, 2, t, rsym(60 + j)); t = w; ALL("assignment", N, K, t, a[i][j]); M mv = std::move(t); ALL("move", N, K, mv, a[i][j]); IFF("A == B", a == b, [&] { bool e = true; for (int i = 0; i < N; i++) for (int j = 0; j < K; j++) e = e & (a[i][j] == b[i][j]); return e; }()); ALL("operand is unchanged", N, K, b, rsym(30 + i * K + j)); }
ARI(1, 1) ARI(1, 3) ARI(2, 1) ARI(2, 2) ARI(2, 3) ARI(3, 2) ARI(3, 3)
#define MUL(N, K, P) W(mul_##N##_##K##_##P) { M a = mat(N, K, 0), b = mat(K, P, 30); ALL("A * B", N, P, a * b, pr(a, b, i, j, K)); M t = a; t *= b; ALL("A *= B", N, P, t, pr(a, b, i, j, K)); ALL("left operand is unchanged", N, K, a, rsym(i * K + j)); ALL("right operand is unchanged", K, P, b, rsym(30 + i * P + j)); }
MUL(1, 1, 1) MUL(1, 2, 1) MUL(2, 1, 2) MUL(2, 2, 2) MUL(2, 3, 2) MUL(3, 2, 1) MUL(1, 3, 3) MUL(3, 3, 3) MUL(2, 3, 4)
// determinant by the permutation expansion
INL R det1(const M& a) { return a[0][0]; }
INL R det2(const M& a) { return a[0][0] * a[1][1] - a[0][1] * a[1][0]; }
INL R det3(const M& a) { return a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]); }
#define SQ(N) W(square_##N) { M a = mat(N, N, 0), b = mat(N, N, 30); M t = a; t *= t; ALL("A *= A", N, N, t, pr(a, a, i, j, N)); ALL("identity", N, N, identityOf(a), rc(i == j)); ALL("identity(n)", N, N, M::identity(N, rc(1)), rc(i == j)); ALL("pow 0", N, N, a.pow(0), rc(i == j)); ALL("pow 1", N, N, a.pow(1), a[i][j]); M p2 = a * a, p3 = p2 * a, p5 = p3 * p2; ALL("pow 2", N, N, a.pow(2), p2[i][j]); ALL("pow 3", N, N, a.pow(3), p3[i][j]); ALL("pow 5", N, N, a.pow(5), p5[i][j]); ALL("cast", N, N, castOf(a, 7), i == j ? rc(7) : rc(0)); } \
W(det_##N) { M a = mat(N, N, 0); EQ("determinant", a.det(), det##N(a)); ALL("operand is unchanged", N, N, a, rsym(i * N + j)); }
#define INVERSE(N) W(inverse_##N) { M a = mat(N, N, 0), b = mat(N, N, 30); if (nz(det##N(a))) { M v = a.inverse(); M x = a * v, y = v * a; ALL("A * A.inverse()", N, N, x, rc(i == j)); ALL("A.inverse() * A", N, N, y, rc(i == j)); M q = b / a; M z = q * a; ALL("(B / A) * A", N, N, z, b[i][j]); M w = a; w /= w; ALL("A /= A", N, N, w, rc(i == j)); M n = a.pow(-1); ALL("pow -1", N, N, n, v[i][j]); } }
SQ(1) SQ(2) SQ(3) INVERSE(1) INVERSE(2)
W(inverse_3) { M a = mat(3, 3, 0); if (nz(det3(a))) { M v = a.inverse(); M x = a * v; ALL("A * A.inverse()", 3, 3, x, rc(i == j)); } }
#ifndef VF_CTX
INL bool zero2(const M& a, int n) { bool z = true; for (int i = 0; i < n; i++) for (int k = 0; k < i; k++) for (int j = 0; j < n; j++) for (int l = 0; l < j; l++) z = z & (a[i][j] * a[k][l] == a[i][l] * a[k][j]); return z; }
INL bool zero1(const M& a, int n) { bool z = true; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) z = z & (a[i][j] == rc(0)); return z; }
W(rank_1) { M a = mat(1, 1, 0); IFF("rank 0", a.rank() == 0, zero1(a, 1)); IFF("rank 1", a.rank() == 1, nz(det1(a))); }
W(rank_2) { M a = mat(2, 2, 0); int r = a.rank(); if (nz(det2(a))) vf_true("rank 2", r == 2); else { if (zero1(a, 2)) vf_true("rank 0", r == 0); else vf_true("rank 1", r == 1); } }
W(rank_3) { M a = mat(3, 3, 0); int r = a.rank(); if (nz(det3(a))) vf_true("rank 3", r == 3); else { if (zero2(a, 3)) { if (zero1(a, 3)) vf_true("rank 0", r == 0); else vf_true("rank 1", r == 1); } else vf_true("rank 2", r == 2); } }
#endif
