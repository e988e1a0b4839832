#include "ring.h"
#include "altruct/structure/container/segment_tree.h"
#include "altruct/structure/container/lazy_segment_tree.h"
using namespace altruct::container;
INL R rc(int c) { return rhandle(rsym(0), ring_cst(c)); }
// affine maps x -> a x + b under composition: associative, not commutative, no relations that a wrong order could hide behind
struct Af { R a, b; };
INL Af af(int k) { return Af{rsym(2 * k), rsym(2 * k + 1)}; }
INL Af idt() { return Af{rc(1), rc(0)}; }
inline Af comb(const Af& x, const Af& y) { return Af{x.a * y.a, x.a * y.b + x.b}; }
struct F { Af operator()(const Af& x, const Af& y) const { return comb(x, y); } };
typedef segment_tree<Af, F> T;
#define SAME(nm, x, y) do { Af x_ = (x), y_ = (y); EQ(nm, x_.a, y_.a); EQ(nm, x_.b, y_.b); } while (0)
INL Af fold(const Af* m, int b, int e) { Af r = idt(); for (int i = b; i < e; i++) r = comb(r, m[i]); return r; }
// every range query against the fold of a model array
#define QUERY(nm, t, m, N) do { for (int b = 0; b <= N; b++) for (int e = b; e <= N; e++) SAME(nm, t.get(b, e), fold(m, b, e)); for (int i = 0; i < N; i++) { SAME(nm " element", t.get(i), m[i]); SAME(nm " element", ((const T&)t)[i], m[i]); } } while (0)
#define SEG(N) W(segment_##N) { Af m[N + 1]; for (int i = 0; i < N; i++) m[i] = af(i); T t(m, m + N, F(), idt()); vf_true("capacity", t.size() >= N); QUERY("query after construction", t, m, N); \
  for (int i = 0; i < N; i++) { T u = t; Af k = m[i]; m[i] = af(40 + i); u.set(i, m[i]); QUERY("query after set", u, m, N); m[i] = k; } \
  { T u = t; for (int i = 0; i < N; i++) u.set(i, af(50 + i)); u.set(0, af(70)); Af w[N + 1]; for (int i = 0; i < N; i++) w[i] = af(50 + i); w[0] = af(70); QUERY("query after several sets", u, w, N); } \
  { T u(N, F(), idt()); Af w[N + 1]; for (int i = 0; i < N; i++) w[i] = idt(); QUERY("query of an empty tree", u, w, N); for (int i = N - 1; i >= 0; i--) u[i] = m[i]; u.rebuild(); QUERY("query after rebuild", u, m, N); } \
  for (int i = 0; i < N; i++) { T u = t; Af k = m[i]; u[i] = m[i] = af(60 + i); u.rebuild(i); QUERY("query after rebuild of one element", u, m, N); m[i] = k; } }  \
W(rebuild_##N) { Af m[N + 1]; for (int i = 0; i < N; i++) m[i] = af(i); T t(m, m + N, F(), idt()); for (int b = 0; b < N; b++) for (int e = b + 1; e <= N; e++) { T u = t; Af w[N + 1]; for (int i = 0; i < N; i++) { w[i] = m[i]; if (i >= b && i < e) u[i] = w[i] = af(40 + i); } u.rebuild(b, e); QUERY("query after rebuild of a range", u, w, N); } }
SEG(1) SEG(2) SEG(3) SEG(4) SEG(5) SEG(7) SEG(8)
// lazy tree with pending affine updates x -> p x + q over an aggregate that depends on the order: s = Sum[x_i z^(number of elements after i)],
// n = Sum[z^(number of elements after i)], w = z^(number of elements), c the number of elements
struct Nd { R s, n, w; int c; R p, q; };
INL R rz() { return rsym(60); }
INL Nd leaf(int k) { return Nd{rsym(k), rc(1), rz(), 1, rc(1), rc(0)}; }
INL Nd none() { return Nd{rc(0), rc(0), rc(1), 0, rc(1), rc(0)}; }
struct Up { void operator()(Nd& x, const Nd& l, const Nd& r) const { R s = l.s * r.w + r.s, n = l.n * r.w + r.n, w = l.w * r.w; x.c = l.c + r.c; x.s = s; x.n = n; x.w = w; x.p = rc(1); x.q = rc(0); } };
inline void put(Nd& x, const R& p, const R& q) { x.s = p * x.s + q * x.n; x.q = p * x.q + q; x.p = p * x.p; }
struct Down { void operator()(Nd& x, Nd& l, Nd& r) const { put(l, x.p, x.q); put(r, x.p, x.q); x.p = rc(1); x.q = rc(0); } };
typedef lazy_segment_tree<Nd, Up, Down> L;
inline R lfold(const R* m, int b, int e) { R s = rc(0); for (int i = b; i < e; i++) s = s * rz() + m[i]; return s; }
#define LQ(nm, t, m, N) do { for (int b = 0; b <= N; b++) for (int e = b; e <= N; e++) { L c = t; EQ(nm, c.get(b, e).s, lfold(m, b, e)); } } while (0)
#define LAZY(N) W(lazy_##N) { Nd a[N + 1]; R m[N + 1]; for (int i = 0; i < N; i++) a[i] = leaf(i), m[i] = rsym(i); L t(a, a + N, Up(), Down(), none()); LQ("query after construction", t, m, N); \
  for (int b = 0; b <= N; b++) for (int e = b; e <= N; e++) { L u = t; u.update(b, e, [](Nd& x) { put(x, rsym(40), rsym(41)); return true; }); R w[N + 1]; for (int i = 0; i < N; i++) w[i] = i >= b && i < e ? rsym(40) * m[i] + rsym(41) : m[i]; LQ("query after a range update", u, w, N); \
    { L x = u; x.restore(0, N); for (int i = 0; i < N; i++) EQ("restore", x[i].s, w[i]); x.rebuild(); LQ("query after restore and rebuild", x, w, N); } \
    { L x = t; x.update(b, e, [](Nd& y) { if (y.c > 1) return false; put(y, rsym(40), rsym(41)); return true; }); LQ("query after an update that descends to the leaves", x, w, N); } \
    if (b < e) { L x = u; x.restore(b, e); for (int i = b; i < e; i++) EQ("restore of a range", x[i].s, w[i]); for (int i = b; i < e; i++) x[i] = leaf(20 + i), w[i] = rsym(20 + i); x.rebuild(b, e); LQ("query after rebuild of a range", x, w, N); } } } \
W(lazy_twice_##N) { Nd a[N + 1]; for (int i = 0; i < N; i++) a[i] = leaf(i); L t(a, a + N, Up(), Down(), none()); for (int b = 0; b < N; b++) for (int e = b + 1; e <= N; e++) { L u = t; u.update(b, e, [](Nd& x) { put(x, rsym(40), rsym(41)); return true; }); for (int c = 0; c < N; c++) for (int d = c + 1; d <= N; d++) { L x = u; x.update(c, d, [](Nd& y) { put(y, rsym(42), rsym(43)); return true; }); \
    R w[N + 1]; for (int i = 0; i < N; i++) { w[i] = i >= b && i < e ? rsym(40) * rsym(i) + rsym(41) : rsym(i); if (i >= c && i < d) w[i] = rsym(42) * w[i] + rsym(43); } EQ("query across two updates", x.get(b, d > b ? d : b).s, lfold(w, b, d > b ? d : b)); for (int i = 0; i < N; i++) EQ("element after two updates", x.get(i, i + 1).s, w[i]); EQ("total after two updates", x.get(0, N).s, lfold(w, 0, N)); } } }
LAZY(1) LAZY(2) LAZY(3) LAZY(4) LAZY(5) LAZY(7) LAZY(8)
