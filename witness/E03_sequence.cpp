#include "ring.h"
#include <limits>
#include "altruct/structure/container/rope.h"
#include "altruct/structure/container/lazy_treap.h"
using namespace altruct::container;
struct Rnd { int k; Rnd(int k = 0) : k(k) {} Rnd(int(*)()) : k(0) {} int operator()() { return int_sym(100 + k++); } };
typedef rope<R, Rnd> Rope;
struct Seq { R a[8]; int n = 0; INL void insert(int p, const R& v) { for (int i = n; i > p; i--) a[i] = a[i - 1]; a[p] = v; n++; } INL void erase(int p) { for (int i = p; i + 1 < n; i++) a[i] = a[i + 1]; n--; } };
INL void same(Rope& r, const Seq& s) { const Rope& c = r; vf_true("size", r.size() == s.n); vf_true("empty", r.empty() == (s.n == 0)); int i = 0; for (auto it = r.begin(); it != r.end(); ++it, ++i) if (i < s.n) EQ("element in order", *it, s.a[i]); vf_true("number of elements", i == s.n);
    for (i = 0; i < s.n; i++) { EQ("at", c.at(i), s.a[i]); EQ("operator []", r[i], s.a[i]); EQ("find_kth", *r.find_kth(i), s.a[i]); } vf_true("find_kth at the end", r.find_kth(s.n) == r.end());
    i = s.n; for (auto it = r.end(); it != r.begin(); ) { --it; i--; if (i >= 0) EQ("element in reverse order", *it, s.a[i]); } vf_true("number of elements in reverse", i == 0); }
INL void arith(Rope& r, const Seq& s) { for (int i = 0; i <= s.n; i++) { auto it = r.begin() + i; vf_true("pos", it.pos() == i); vf_true("difference to begin", it - r.begin() == i && r.end() - it == s.n - i); for (int j = 0; j < s.n; j++) { EQ("iterator + offset", *(it + (j - i)), s.a[j]); EQ("iterator - offset", *(it - (i - j)), s.a[j]); EQ("iterator [offset]", it[j - i], s.a[j]); auto jt = r.begin() + j; vf_true("iterator <", (it < jt) == (i < j)); vf_true("iterator ==", (it == jt) == (i == j)); } } }
#define ROPE(N) \
W(push_##N) { Rope r; Seq s; for (int i = 0; i < N; i++) { r.push_back(rsym(i)); s.insert(s.n, rsym(i)); same(r, s); } arith(r, s); } \
W(insert_##N) { for (int p = 0; p <= N; p++) { Rope r; Seq s; for (int i = 0; i < N; i++) { r.push_back(rsym(i)); s.insert(s.n, rsym(i)); } r.insert(p, rsym(9)); s.insert(p, rsym(9)); same(r, s); r[p] = rsym(10); s.a[p] = rsym(10); same(r, s); } } \
W(front_##N) { Rope r; Seq s; for (int i = 0; i < N; i++) { r.insert(0, rsym(i)); s.insert(0, rsym(i)); } same(r, s); arith(r, s); } \
W(middle_##N) { Rope r; Seq s; for (int i = 0; i < N; i++) { r.insert(i / 2, rsym(i)); s.insert(i / 2, rsym(i)); } same(r, s); } \
W(erase_##N) { for (int p = 0; p < N; p++) { Rope r; Seq s; for (int i = 0; i < N; i++) { r.push_back(rsym(i)); s.insert(s.n, rsym(i)); } r.erase(p); s.erase(p); same(r, s); r.insert(p, rsym(9)); s.insert(p, rsym(9)); same(r, s); } } \
W(range_##N) { for (int b = 0; b <= N; b++) for (int e = b; e <= N; e++) { Rope r; Seq s; for (int i = 0; i < N; i++) { r.push_back(rsym(i)); s.insert(s.n, rsym(i)); } r.erase(b, e); for (int i = b; i < e; i++) s.erase(b); same(r, s); } } \
W(copies_##N) { Rope r; Seq s; for (int i = 0; i < N; i++) { r.push_back(rsym(i)); s.insert(s.n, rsym(i)); } Rope u(r); same(u, s); u.push_back(rsym(9)); u.erase(0); same(r, s); Seq w = s; w.insert(w.n, rsym(9)); w.erase(0); same(u, w); u.swap(r); same(r, w); same(u, s); r = u; same(r, s); r = std::move(u); same(r, s); r.clear(); same(r, Seq()); r.push_back(rsym(3)); Seq x; x.insert(0, rsym(3)); same(r, x); \
  R a[N]; for (int i = 0; i < N; i++) a[i] = rsym(i); Rope y(a, a + N); same(y, s); Rope z(y); vf_true("equal copies", y == z && !(y != z) && !(y < z) && y <= z && y >= z && !(y > z)); }
ROPE(1) ROPE(2) ROPE(3) ROPE(4)
#define CMP(N, K) W(order_##N##_##K) { R a[N + 1], b[K + 1]; for (int i = 0; i < N; i++) a[i] = rsym(i); for (int i = 0; i < K; i++) b[i] = rsym(10 + i); Rope x(a, a + N), y(b, b + K); bool lt = false, eq = true; for (int i = 0; i < N && i < K; i++) { lt = lt || (eq && a[i] < b[i]); eq = eq && a[i] == b[i]; } lt = lt || (eq && N < K); eq = eq && N == K; \
  IFF("==", x == y, eq); IFF("!=", x != y, !eq); IFF("<", x < y, lt); IFF("<=", x <= y, lt || eq); IFF(">", x > y, !lt && !eq); IFF(">=", x >= y, !lt); }
CMP(0, 0) CMP(0, 1) CMP(1, 1) CMP(2, 1) CMP(1, 2) CMP(2, 2)
// lazy treap of affine maps: key k, own map o, aggregate g of the subtree (left to right), pending map p (applied to the own maps)
struct E_ { R k, a, b, ga, gb, p; E_() : a(1), b(0), ga(1), gb(0), p(1) { k.h = ring_cst(0); } };
INL E_ leafof(const R& k, int i) { E_ e; e.k = k; e.a = e.ga = rsym(40 + i); e.b = e.gb = rsym(60 + i); return e; }
struct LE { bool operator()(const E_& x, const E_& y) const { return x.k < y.k; } };
// composition: (a, b) then (c, d) = (a c, a d + b)
struct Up { void operator()(E_& x, const E_& l, const E_& r) const { R ca = l.ga * x.a, cb = l.ga * x.b + l.gb; R da = ca * r.ga, db = ca * r.gb + cb; x.ga = da; x.gb = db; } };
struct Down { void operator()(E_& x, E_& l, E_& r) const {} };
typedef lazy_treap<E_, LE, Up, Down, Rnd> LT;
#define LAZY(N) W(lazy_##N) { LT t{Up(), Down(), LE()}; E_ m[N + 1]; int n = 0; for (int i = 0; i < N; i++) { E_ e = leafof(rsym(i), i); t.insert(e); int p = n; for (int j = n; j > 0; j--) if (rsym(i) < m[j - 1].k) p = j - 1; for (int j = n; j > p; j--) m[j] = m[j - 1]; m[p] = e; n++; \
    vf_true("size", t.size() == n); int q = 0; for (auto it = t.begin(); it != t.end(); ++it, ++q) if (q < n) { EQ("key in order", it->k, m[q].k); EQ("value in order", it->a, m[q].a); } vf_true("number of elements", q == n); \
    R ga(1), gb(0); for (int j = 0; j < n; j++) { R x = ga * m[j].b + gb; ga = ga * m[j].a; gb = x; } EQ("aggregate of the whole tree", t.root()->ga, ga); EQ("aggregate of the whole tree", t.root()->gb, gb); } \
  { E_ q = leafof(rsym(9), 9); int lo = 0, hi = 0; for (int j = 0; j < n; j++) { if (m[j].k < q.k) lo = j + 1; if (!(q.k < m[j].k)) hi = j + 1; } auto l = t.lower_bound(q), u = t.upper_bound(q), f = t.find(q); vf_true("find fails iff absent", (f == t.end()) == (lo == hi)); if (lo < hi) EQ("find", f->a, m[lo].a); vf_true("lower_bound at the end", (l == t.end()) == (lo == n)); if (lo < n) EQ("lower_bound", l->a, m[lo].a); vf_true("upper_bound at the end", (u == t.end()) == (hi == n)); if (hi < n) EQ("upper_bound", u->a, m[hi].a); } } \
W(lazy_get_##N) { LT t{Up(), Down(), LE()}; for (int i = 0; i < N; i++) t.insert(leafof(rcst(i), i)); for (int b = 0; b < N; b++) for (int e = b; e <= N; e++) { auto bi = t.begin(), ei = t.begin(); for (int i = 0; i < b; i++) ++bi; for (int i = 0; i < e; i++) ++ei; E_ g = t.get(bi, ei); R ga(1), gb(0); for (int j = b; j < e; j++) { R x = ga * rsym(60 + j) + gb; ga = ga * rsym(40 + j); gb = x; } EQ("aggregate of a range", g.ga, ga); EQ("aggregate of a range", g.gb, gb); } } \
W(lazy_erase_##N) { for (int p = 0; p < N; p++) { LT t{Up(), Down(), LE()}; for (int i = 0; i < N; i++) t.insert(leafof(rcst(i), i)); t.erase(leafof(rcst(p), p)); vf_true("size after erase", t.size() == N - 1); R ga(1), gb(0); for (int j = 0; j < N; j++) if (j != p) { R x = ga * rsym(60 + j) + gb; ga = ga * rsym(40 + j); gb = x; } if (N > 1) { EQ("aggregate after erase", t.root()->ga, ga); EQ("aggregate after erase", t.root()->gb, gb); } int j = 0; for (auto it = t.begin(); it != t.end(); ++it, ++j) { if (j == p) ++j; EQ("element after erase", it->a, rsym(40 + j)); } } }
INL R rcst(int c) { return rhandle(rsym(0), ring_cst(c)); }
LAZY(1) LAZY(2) LAZY(3) LAZY(4)
// iterators of both kinds in both directions
template<class It> INL void walk(It b, It e, const Seq& s) { for (int i = 0; i <= s.n; i++) { It it = b + i; vf_true("pos", i == s.n || it.pos() == i); vf_true("differences", it - b == i && e - it == s.n - i && b - it == -i); It p = b; p += i; It q = e; q -= s.n - i; vf_true("+= and -=", p == it && q == it && e - (s.n - i) == it);
    for (int j = 0; j < s.n; j++) { EQ("iterator + offset", *(it + (j - i)), s.a[j]); EQ("iterator - offset", *(it - (i - j)), s.a[j]); EQ("iterator [offset]", it[j - i], s.a[j]); }
    for (int j = 0; j <= s.n; j++) { It jt = b + j; vf_true("iterator <", (it < jt) == (i < j)); vf_true("iterator >", (it > jt) == (i > j)); vf_true("iterator <=", (it <= jt) == (i <= j)); vf_true("iterator >=", (it >= jt) == (i >= j)); vf_true("iterator ==", (it == jt) == (i == j)); vf_true("iterator !=", (it != jt) == (i != j)); }
    if (i < s.n) { It f = it; It o = f++; vf_true("post-increment", o == it && f == b + (i + 1)); It g = it; vf_true("pre-increment", &++g == &g && g == f); o = g--; vf_true("post-decrement", o == f && g == it); g = f; vf_true("pre-decrement", &--g == &g && g == it); EQ("->", it->h == s.a[i].h ? s.a[i] : *it, s.a[i]); } } }
#define ROPE2(N) \
W(iterators_##N) { Rope r; Seq s; for (int i = 0; i < N; i++) { r.push_back(rsym(i)); s.insert(s.n, rsym(i)); } const Rope& c = r; walk(r.begin(), r.end(), s); walk(c.begin(), c.end(), s); walk(c.cbegin(), c.cend(), s); vf_true("conversion", Rope::const_iterator(r.begin()) == c.begin() && Rope::const_iterator(r.end()) == c.cend()); \
  int i = N; for (auto it = r.rbegin(); it != r.rend(); ++it) EQ("reverse iterator", *it, s.a[--i]); vf_true("number of elements in reverse", i == 0); i = N; for (auto it = c.rbegin(); it != c.rend(); ++it) EQ("const reverse iterator", *it, s.a[--i]); vf_true("number of elements in reverse", i == 0); i = N; for (auto it = c.crbegin(); it != c.crend(); ++it) EQ("const reverse iterator", *it, s.a[--i]); vf_true("number of elements in reverse", i == 0); \
  for (i = 0; i < N; i++) { EQ("const operator []", c[i], s.a[i]); EQ("const find_kth", *c.find_kth(i), s.a[i]); EQ("at", r.at(i), s.a[i]); EQ("reverse [offset]", r.rbegin()[i], s.a[N - 1 - i]); } vf_true("const find_kth at the end", c.find_kth(N) == c.end()); *r.begin() = rsym(9); s.a[0] = rsym(9); r.at(N - 1) = rsym(8); s.a[N - 1] = rsym(8); same(r, s); } \
W(by_iterator_##N) { for (int p = 0; p <= N; p++) { Rope r; Seq s; for (int i = 0; i < N; i++) { r.push_back(rsym(i)); s.insert(s.n, rsym(i)); } r.insert(r.begin() + p, rsym(9)); s.insert(p, rsym(9)); same(r, s); r.erase(r.cbegin() + p); s.erase(p); same(r, s); r.erase(r.begin() + p, r.end()); while (s.n > p) s.erase(p); same(r, s); r.insert(r.cend(), rsym(7)); s.insert(s.n, rsym(7)); same(r, s); } } \
W(moves_##N) { Rope e; same(e, Seq()); Rope f(e); same(f, Seq()); Rope r; Seq s; for (int i = 0; i < N; i++) { r.push_back(rsym(i)); s.insert(s.n, rsym(i)); } Rope m(std::move(r)); same(m, s); e.push_back(rsym(5)); e = std::move(m); same(e, s); f.push_back(rsym(6)); f = e; same(f, s); e.erase(0); same(f, s); f = f; same(f, s); f = Rope(); same(f, Seq()); Rope l{ rsym(0), rsym(1), rsym(2) }; Seq t; for (int i = 0; i < 3; i++) t.insert(i, rsym(i)); same(l, t); }
ROPE2(1) ROPE2(2) ROPE2(3)
// lazy treap: elements x in order with weights z; aggregate sum of x_i z_0 .. z_{i-1} (and of the weights alone); updates x -> p x + q
struct F_ { R k, x, z, s, o, w, p, q; F_() : x(0), z(1), s(0), o(0), w(1), p(1), q(0) { k.h = ring_cst(0); } };
INL F_ elem(const R& k, int i) { F_ e; e.k = k; e.x = e.s = rsym(40 + i); e.z = e.w = rsym(60 + i); e.o = R(1); return e; }
struct LF { bool operator()(const F_& x, const F_& y) const { return x.k < y.k; } };
struct Up2 { void operator()(F_& x, const F_& l, const F_& r) const { R s = l.s + l.w * (x.x + x.z * r.s), o = l.o + l.w * (R(1) + x.z * r.o), w = l.w * (x.z * r.w); x.s = s; x.o = o; x.w = w; } };
struct Apply { R p, q; void operator()(F_& e) const { e.x = p * e.x + q; e.s = p * e.s + q * e.o; e.p = p * e.p; e.q = p * e.q + q; } };
struct Down2 { void operator()(F_& x, F_& l, F_& r) const { Apply a{ x.p, x.q }; a(l); a(r); x.p = R(1); x.q = R(0); } };
typedef lazy_treap<F_, LF, Up2, Down2, Rnd> LU;
struct Row { R x[6], z[6]; int n = 0; INL void push(int i) { x[n] = rsym(40 + i); z[n] = rsym(60 + i); n++; } INL void del(int p) { for (int i = p; i + 1 < n; i++) x[i] = x[i + 1], z[i] = z[i + 1]; n--; } INL R sum(int b, int e) const { R s(0), w(1); for (int i = b; i < e; i++) { s = s + w * x[i]; w = w * z[i]; } return s; } };
INL void change(LU& t, Row& m, int b, int e, int i) { Apply f{ rsym(80 + i), rsym(90 + i) }; for (int j = b; j < e; j++) m.x[j] = f.p * m.x[j] + f.q; auto l = t.begin(), u = t.begin(); for (int j = 0; j < b; j++) ++l; for (int j = 0; j < e; j++) ++u; if (b < e) { auto k = u; --k; t.propagate_down_to(l); t.propagate_down_to(k); t.update(l, u, f); t.propagate_up(l); t.propagate_up(k); } else t.update(l, u, f); }
INL void ask(LU& t, const Row& m, int b, int e) { auto l = t.begin(), u = t.begin(); for (int j = 0; j < b; j++) ++l; for (int j = 0; j < e; j++) ++u; if (b < e) { auto k = u; --k; t.propagate_down_to(l); t.propagate_down_to(k); } EQ("aggregate of a range", t.get(l, u).s, m.sum(b, e)); }
INL void all(LU& t, const Row& m) { vf_true("size", t.size() == m.n); if (m.n) EQ("aggregate of the whole tree", t.root()->s, m.sum(0, m.n)); else vf_true("empty", t.empty()); for (auto it = t.begin(); it != t.end(); ++it) t.propagate_down_to(it); int i = 0; for (auto it = t.begin(); it != t.end(); ++it, ++i) if (i < m.n) EQ("element after updates", it->x, m.x[i]); vf_true("number of elements", i == m.n); }
#define UPD(N) \
W(update_##N) { for (int b = 0; b <= N; b++) for (int e = b; e <= N; e++) { LU t{ Up2(), Down2(), LF() }; Row m; for (int i = 0; i < N; i++) { t.insert(elem(rcst(i), i)); m.push(i); } change(t, m, b, e, 0); for (int i = 0; i < N; i++) EQ("find after an update", t.find(elem(rcst(i), i))->x, m.x[i]); all(t, m); } } \
W(update2_##N) { for (int b = 0; b < N; b++) for (int e = b + 1; e <= N; e++) for (int c = 0; c < N; c++) { LU t{ Up2(), Down2(), LF() }; Row m; for (int i = 0; i < N; i++) { t.insert(elem(rcst(i), i)); m.push(i); } change(t, m, b, e, 0); change(t, m, c, N, 1); ask(t, m, b, e); ask(t, m, 0, c); all(t, m); } } \
W(update_insert_##N) { for (int p = 0; p <= N; p++) { LU t{ Up2(), Down2(), LF() }; Row m; for (int i = 0; i < N; i++) { t.insert(elem(rcst(2 * i + 1), i)); m.push(i); } change(t, m, 0, N, 0); t.insert(elem(rcst(2 * p), 9)); for (int i = m.n; i > p; i--) m.x[i] = m.x[i - 1], m.z[i] = m.z[i - 1]; m.x[p] = rsym(49); m.z[p] = rsym(69); m.n++; ask(t, m, p, N + 1); all(t, m); } } \
W(update_erase_##N) { for (int p = 0; p < N; p++) { LU t{ Up2(), Down2(), LF() }; Row m; for (int i = 0; i < N; i++) { t.insert(elem(rcst(i), i)); m.push(i); } change(t, m, 0, N, 0); t.erase(elem(rcst(p), 0)); m.del(p); all(t, m); } }
UPD(1) UPD(2) UPD(3)
// copies and iterators of the lazy treap; erasing a range and equal elements
#define LAZY2(N) \
W(lazy_copies_##N) { LU t{ Up2(), Down2(), LF() }; Row m; all(t, m); for (int i = 0; i < N; i++) { t.insert(elem(rcst(i), i)); m.push(i); } LU u(t); all(u, m); Row w = m; change(u, w, 0, N, 0); all(u, w); all(t, m); t.swap(u); all(t, w); all(u, m); t = u; all(t, m); u.clear(); all(u, Row()); all(t, m); LU v(std::move(t)); all(v, m); u = std::move(v); all(u, m); F_ a[N]; for (int i = 0; i < N; i++) a[i] = elem(rcst(N - 1 - i), N - 1 - i); LU x(a, a + N, Up2(), Down2(), LF()); all(x, m); x.insert(elem(rcst(7), 7)); m.push(7); all(x, m); } \
W(lazy_iterators_##N) { LU t{ Up2(), Down2(), LF() }; Row m; for (int i = 0; i < N; i++) { t.insert(elem(rcst(i), i)); m.push(i); } const LU& c = t; int i = 0; for (auto it = c.begin(); it != c.end(); i++) { vf_true("const: pos", it.pos() == i); auto o = it++; EQ("const: element", o->x, m.x[i]); EQ("const: element", (*o).x, m.x[i]); } vf_true("number of elements", i == N); for (auto it = c.cend(); it != c.cbegin(); ) { --it; EQ("const: element in reverse", it->x, m.x[--i]); } i = 0; for (auto it = t.begin(); it != t.end(); i++) { vf_true("pos", it.pos() == i); for (int j = 0; j < N; j++) EQ("add", it.add(j - i)->x, m.x[j]); auto o = it++; EQ("element", o->x, m.x[i]); } for (auto it = t.end(); it != t.begin(); ) { auto o = it--; vf_true("post-decrement", i == N ? o == t.end() : o.pos() == i); EQ("element in reverse", it->x, m.x[--i]); } \
  i = N; for (auto it = t.rbegin(); it != t.rend(); ++it) EQ("reverse iterator", (*it).x, m.x[--i]); i = N; for (auto it = c.rbegin(); it != c.rend(); ++it) EQ("const reverse iterator", (*it).x, m.x[--i]); i = N; for (auto it = c.crbegin(); it != c.crend(); ++it) EQ("const reverse iterator", (*it).x, m.x[--i]); vf_true("root", LU::const_iterator(t.root()) == c.root() && c.root() == c.croot()); } \
W(lazy_range_##N) { for (int b = 0; b <= N; b++) for (int e = b; e <= N; e++) { LU t{ Up2(), Down2(), LF() }; Row m; for (int i = 0; i < N; i++) { t.insert(elem(rcst(i), i)); m.push(i); } auto l = t.begin(), u = t.begin(); for (int j = 0; j < b; j++) ++l; for (int j = 0; j < e; j++) ++u; auto r = t.erase(l, u); vf_true("range erase returns the end of the range", r == u); for (int j = b; j < e; j++) m.del(b); all(t, m); } } \
W(lazy_equal_##N) { LU t{ Up2(), Down2(), LF() }; Row m; t.insert(elem(rcst(3), 8)); for (int i = 0; i < N; i++) { t.insert(elem(rcst(2), i)); m.push(i); } t.insert(elem(rcst(1), 7)); auto r = t.equal_range(elem(rcst(2), 0)); int i = 0; for (auto it = r.first; it != r.second; ++it, ++i) if (i < N) EQ("equal elements in order of insertion", it->x, m.x[i]); vf_true("equal_range", i == N); EQ("upper_bound", r.second->x, rsym(48)); EQ("aggregate of equal elements", t.get(r.first, r.second).s, m.sum(0, N)); t.erase(elem(rcst(2), 0)); Row w; w.push(7); w.push(8); all(t, w); vf_true("nothing left", t.find(elem(rcst(2), 0)) == t.end()); t.insert_before(t.upper_bound(elem(rcst(1), 0)), elem(rcst(2), 5)); Row x; x.push(7); x.push(5); x.push(8); all(t, x); t.erase(t.begin()); x.del(0); all(t, x); }
LAZY2(1) LAZY2(2) LAZY2(3)
#define LORD(N, K) W(lazy_order_##N##_##K) { LU x{ Up2(), Down2(), LF() }, y{ Up2(), Down2(), LF() }; for (int i = 0; i < N; i++) x.insert(elem(rsym(i), i)); for (int i = 0; i < K; i++) y.insert(elem(rsym(10 + i), 5 + i)); bool lt = false, eq = true; auto p = x.begin(); auto q = y.begin(); for (; p != x.end() && q != y.end(); ++p, ++q) { lt = lt || (eq && p->k < q->k); eq = eq && p->k == q->k; } lt = lt || (eq && N < K); eq = eq && N == K; IFF("==", x == y, eq); IFF("!=", x != y, !eq); IFF("<", x < y, lt); IFF("<=", x <= y, lt || eq); IFF(">", x > y, !lt && !eq); IFF(">=", x >= y, !lt); }
LORD(0, 1) LORD(1, 1) LORD(2, 1) LORD(1, 2)
