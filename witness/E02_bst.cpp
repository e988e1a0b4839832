#include "ring.h"
#include <limits>
#include "altruct/structure/container/binary_search_tree.h"
#include "altruct/structure/container/treap.h"
using namespace altruct::container;
namespace dup = altruct::container::bst_duplicate_handling;
struct Less { bool operator()(const R& a, const R& b) const { return a < b; } };
typedef std::pair<const R, R> KV;
// any sequence of priorities
struct Rnd { int k; Rnd(int k = 0) : k(k) {} Rnd(int(*)()) : k(0) {} int operator()() { int v = int_sym(100 + k++); return v; } };
template<int D> using B = binary_search_tree<R, KV, D, Less>;
template<int D> using T = treap<R, KV, D, Less, Rnd>;
// model: an array sorted by key; equal keys in insertion order (STORE), counted (COUNT) or ignored (IGNORE)
template<int D> struct Model {
    R k[6], v[6]; int c[6]; int n = 0;
    INL void insert(const R& key, const R& val, int cnt) { int p = 0; bool found = false;
        for (int i = 0; i < n; i++) { bool lt = k[i] < key, gt = key < k[i]; if (D == dup::STORE ? !gt : lt) p = i + 1; if (!lt && !gt && D != dup::STORE) { found = true; if (D == dup::COUNT) c[i] += cnt; } }
        if (found) return; for (int i = n; i > p; i--) k[i] = k[i - 1], v[i] = v[i - 1], c[i] = c[i - 1]; k[p] = key; v[p] = val; c[p] = D == dup::COUNT ? cnt : 1; n++; }
    INL void erase_at(int p) { for (int i = p; i + 1 < n; i++) k[i] = k[i + 1], v[i] = v[i + 1], c[i] = c[i + 1]; n--; }
    INL void erase(const R& key, int cnt) { for (int i = 0; i < n; ) { if (!(k[i] < key) && !(key < k[i])) { if (D == dup::COUNT && cnt < c[i]) c[i++] -= cnt; else erase_at(i); } else i++; } }
    INL int total() const { int s = 0; for (int i = 0; i < n; i++) s += c[i]; return s; }
    INL int below(const R& key) const { int s = 0; for (int i = 0; i < n; i++) if (k[i] < key) s += c[i]; return s; }
    INL int upto(const R& key) const { int s = 0; for (int i = 0; i < n; i++) if (!(key < k[i])) s += c[i]; return s; }
};
template<class C, int D> INL void elements(C& t, const Model<D>& m) {
    vf_true("size", t.size() == m.total()); vf_true("empty", t.empty() == (m.n == 0));
    int i = 0; for (auto it = t.begin(); it != t.end(); ++it) { if (i < m.n) { EQ("key in order", it->first, m.k[i]); EQ("value in order", it->second, m.v[i]); vf_true("multiplicity", it.count() == m.c[i]); } i++; } vf_true("number of elements", i == m.n);
    i = m.n; for (auto it = t.end(); it != t.begin(); ) { --it; i--; if (i >= 0) EQ("value in reverse order", it->second, m.v[i]); } vf_true("number of elements in reverse", i == 0);
}
template<class C, int D> INL void queries(C& t, const Model<D>& m, const R& q) { const C& ct = t;
    vf_true("count_less", t.count_less(q) == m.below(q)); vf_true("count_less_or_equal", t.count_less_or_equal(q) == m.upto(q)); vf_true("count", t.count(q) == m.upto(q) - m.below(q));
    int lo = 0, hi = 0; for (int i = 0; i < m.n; i++) { if (m.k[i] < q) lo = i + 1; if (!(q < m.k[i])) hi = i + 1; }
    auto f = t.find(q); auto l = t.lower_bound(q), u = t.upper_bound(q); vf_true("find fails iff absent", (f == t.end()) == (lo == hi)); vf_true("lower_bound is end iff all smaller", (l == t.end()) == (lo == m.n)); vf_true("upper_bound is end iff none greater", (u == t.end()) == (hi == m.n));
    if (lo < hi) EQ("find", f->second, m.v[lo]); if (lo < m.n) EQ("lower_bound", l->second, m.v[lo]); if (hi < m.n) EQ("upper_bound", u->second, m.v[hi]);
    auto e = ct.equal_range(q); if (lo < m.n) EQ("equal_range", e.first->second, m.v[lo]); if (hi < m.n) EQ("equal_range", e.second->second, m.v[hi]); vf_true("equal_range is empty iff absent", (e.first == e.second) == (lo == hi));
}
template<class C, int D> INL void ranks(C& t, const Model<D>& m) { int r = 0; for (int i = 0; i < m.n; i++) { for (int j = 0; j < m.c[i]; j++) EQ("find_kth", t.find_kth(r++)->second, m.v[i]); } vf_true("find_kth past the end", t.find_kth(r) == t.end());
    if (D != dup::COUNT) { int i = 0; for (auto it = t.begin(); it != t.end(); ++it, ++i) { vf_true("pos", it.pos() == i); for (int j = 0; j < m.n; j++) EQ("add", it.add(j - i)->second, m.v[j]); } } }
#define ADD(t, m, i, cnt) do { auto it_ = t.insert(KV(rsym(i), rsym(20 + i)), cnt); m.insert(rsym(i), rsym(20 + i), cnt); EQ("insert returns the element", it_->first, rsym(i)); } while (0)
template<template<int> class C, int D, int N> INL void build(C<D>& t, Model<D>& m) { for (int i = 0; i < N; i++) ADD(t, m, i, 1 + i % 2); }
#ifdef VF_BIG
#define BIG(x) x
#else
#define BIG(x)
#endif
#define TREE(C, D, N) TREE0(C, D, N) ERASE(C, D, N) COPIES(C, D, N)
#define TREE0(C, D, N) \
W(elements_##C##_##D##_##N) { C<dup::D> t; Model<dup::D> m; for (int i = 0; i < N; i++) { ADD(t, m, i, 1 + i % 2); elements(t, m); } } \
W(queries_##C##_##D##_##N) { C<dup::D> t; Model<dup::D> m; build<C, dup::D, N>(t, m); queries(t, m, rsym(9)); } \
W(ranks_##C##_##D##_##N) { C<dup::D> t; Model<dup::D> m; build<C, dup::D, N>(t, m); ranks(t, m); } \
W(erase1_##C##_##D##_##N) { C<dup::D> t; Model<dup::D> m; build<C, dup::D, N>(t, m); t.erase(rsym(1), 1); m.erase(rsym(1), 1); elements(t, m); ranks(t, m); } \
W(erase_at_##C##_##D##_##N) { for (int k = 0; k < N; k++) { C<dup::D> t; Model<dup::D> m; build<C, dup::D, N>(t, m); if (k < m.n) { auto it = t.begin(); for (int i = 0; i < k; i++) ++it; t.erase(it); m.erase_at(k); } elements(t, m); } }
#define ERASE(C, D, N) \
W(erase_##C##_##D##_##N) { C<dup::D> t; Model<dup::D> m; build<C, dup::D, N>(t, m); t.erase(rsym(9)); m.erase(rsym(9), 99); elements(t, m); ADD(t, m, 10, 1); elements(t, m); queries(t, m, rsym(10)); }
#define COPIES(C, D, N) \
W(copies_##C##_##D##_##N) { C<dup::D> t; Model<dup::D> m; build<C, dup::D, N>(t, m); C<dup::D> u(t); elements(u, m); u.erase(rsym(0)); elements(t, m); Model<dup::D> w = m; w.erase(rsym(0), 99); elements(u, w); u = t; elements(u, m); ADD(u, m, 10, 1); elements(u, m); t.swap(u); elements(t, m); C<dup::D> x(std::move(t)); elements(x, m); \
  x = x; elements(x, m); x.clear(); elements(x, Model<dup::D>()); x.clear(); Model<dup::D> y; ADD(x, y, 11, 1); ADD(x, y, 12, 1); elements(x, y); }
#define TREES(N) TREE(B, STORE, N) TREE(B, COUNT, N) TREE(B, IGNORE, N)
TREES(1) TREES(2) TREES(3)
#define TREAPS(N) TREE(T, STORE, N) TREE(T, COUNT, N) TREE(T, IGNORE, N)
TREAPS(1) TREAPS(2) TREE0(T, STORE, 3) TREE0(T, COUNT, 3) TREE0(T, IGNORE, 3)
TREE0(B, STORE, 4) TREE0(B, IGNORE, 4)
BIG(COPIES(T, STORE, 3) COPIES(T, IGNORE, 3) ERASE(T, STORE, 3) TREE0(T, STORE, 4) TREE0(T, IGNORE, 4))
// iterators of both kinds in both directions; the container as const
template<class C, int D> INL void iterators(C& t, const Model<D>& m) { const C& c = t; typedef typename C::const_iterator CI; int i;
    i = 0; for (auto it = c.begin(); it != c.end(); i++) { auto old = it++; if (i < m.n) { EQ("const: key in order", old->first, m.k[i]); EQ("const: value in order", (*old).second, m.v[i]); vf_true("const: multiplicity", old.count() == m.c[i]); } } vf_true("const: number of elements", i == m.n);
    i = m.n; for (auto it = c.cend(); it != c.cbegin(); ) { auto old = it--; i--; vf_true("post-decrement returns the old position", i + 1 < m.n ? old != c.end() && old->second == m.v[i + 1] : old == c.end()); if (i >= 0) EQ("const: value in reverse order", it->second, m.v[i]); } vf_true("const: number of elements in reverse", i == 0);
    i = m.n; for (auto it = c.cend(); it != c.cbegin(); ) { --it; i--; if (i >= 0) EQ("const: value in reverse order", it->second, m.v[i]); } vf_true("const: number of elements in reverse", i == 0);
    i = 0; for (auto it = t.begin(); it != t.end(); i++) { auto old = it++; if (i < m.n) EQ("post-increment returns the old position", old->second, m.v[i]); } vf_true("number of elements", i == m.n);
    i = m.n; for (auto it = t.end(); it != t.begin(); i--) { auto old = it--; vf_true("post-decrement returns the old position", i < m.n ? old != t.end() && old->second == m.v[i] : old == t.end()); } vf_true("number of elements in reverse", i == 0);
    i = m.n; for (auto it = t.rbegin(); it != t.rend(); ++it) { i--; if (i >= 0) EQ("reverse iterator", (*it).second, m.v[i]); } vf_true("number of elements of reverse iterators", i == 0);
    i = m.n; for (auto it = c.rbegin(); it != c.rend(); ++it) { i--; if (i >= 0) EQ("const reverse iterator", (*it).second, m.v[i]); } vf_true("number of elements of const reverse iterators", i == 0);
    i = m.n; for (auto it = c.crbegin(); it != c.crend(); ++it) { i--; if (i >= 0) EQ("const reverse iterator", (*it).second, m.v[i]); } vf_true("number of elements of const reverse iterators", i == 0);
    vf_true("begin is cbegin", CI(t.begin()) == c.cbegin() && c.begin() == c.cbegin()); vf_true("end is cend", CI(t.end()) == c.cend() && c.end() == c.cend());
    vf_true("root", CI(t.root()) == c.croot() && c.root() == c.croot() && (t.root() == t.end()) == (m.n == 0)); if (m.n) { vf_true("root has no parent", t.root().parent() == t.end() && c.root().parent() == c.end()); vf_true("size of the root", t.root().size() == m.total() && c.root().size() == m.total()); }
    for (auto it = c.begin(); it != c.end(); ++it) { if (it.left() != c.end()) { vf_true("parent of the left child", it.left().parent() == it); vf_true("left is smaller", !(it->first < it.left()->first)); } if (it.right() != c.end()) { vf_true("parent of the right child", it.right().parent() == it); vf_true("right is larger", !(it.right()->first < it->first)); } }
    int r = 0; for (i = 0; i < m.n; i++) for (int j = 0; j < m.c[i]; j++) EQ("const: find_kth", c.find_kth(r++)->second, m.v[i]); vf_true("const: find_kth past the end", c.find_kth(r) == c.end());
    if (D != dup::COUNT) { i = 0; for (auto it = c.begin(); it != c.end(); ++it, ++i) { vf_true("const: pos", it.pos() == i); for (int j = 0; j < m.n; j++) EQ("const: add", it.add(j - i)->second, m.v[j]); vf_true("const: add to the end", it.add(m.n - i) == c.end()); } vf_true("pos of the end", t.end().pos() == m.n && c.end().pos() == m.n); for (int j = 0; j < m.n; j++) { EQ("add from the end", t.end().add(j - m.n)->second, m.v[j]); EQ("const: add from the end", c.end().add(j - m.n)->second, m.v[j]); } } }
template<class C, int D> INL void const_queries(C& t, const Model<D>& m, const R& q) { const C& c = t; typedef typename C::const_iterator CI;
    vf_true("const: find", c.find(q) == CI(t.find(q))); vf_true("const: lower_bound", c.lower_bound(q) == CI(t.lower_bound(q))); vf_true("const: upper_bound", c.upper_bound(q) == CI(t.upper_bound(q)));
    auto e = t.equal_range(q); auto d = c.equal_range(q); vf_true("equal_range", e.first == t.lower_bound(q) && e.second == t.upper_bound(q)); vf_true("const: equal_range", d.first == c.lower_bound(q) && d.second == c.upper_bound(q)); }
#define MORE(C, D, N) ITERS(C, D, N) RANGE(C, D, N) MOVES(C, D, N)
#define ITERS(C, D, N) \
W(iterators_##C##_##D##_##N) { C<dup::D> t; Model<dup::D> m; iterators(t, m); build<C, dup::D, N>(t, m); iterators(t, m); const_queries(t, m, rsym(9)); }
#define RANGE(C, D, N) \
W(range_##C##_##D##_##N) { for (int b = 0; b <= N; b++) for (int e = b; e <= N; e++) { C<dup::D> t; Model<dup::D> m; build<C, dup::D, N>(t, m); if (e <= m.n) { auto bi = t.begin(), ei = t.begin(); for (int i = 0; i < b; i++) ++bi; for (int i = 0; i < e; i++) ++ei; auto r = t.erase(bi, ei); vf_true("range erase returns the end of the range", r == ei); if (e < m.n) EQ("range erase returns the end of the range", r->second, m.v[e]); for (int i = b; i < e; i++) m.erase_at(b); } elements(t, m); } } \
W(range1_##C##_##D##_##N) { for (int b = 0; b <= N; b++) { C<dup::D> t; Model<dup::D> m; build<C, dup::D, N>(t, m); if (b <= m.n) { auto bi = t.begin(); for (int i = 0; i < b; i++) ++bi; t.erase(bi, t.end(), 1); for (int i = b; i < m.n; ) { if (D_COUNT(dup::D) && m.c[i] > 1) m.c[i++]--; else m.erase_at(i); } } elements(t, m); } }
#define MOVES(C, D, N) \
W(ranges_##C##_##D##_##N) { Model<dup::D> m; KV a[3] = { KV(rsym(0), rsym(20)), KV(rsym(1), rsym(21)), KV(rsym(2), rsym(22)) }; for (int i = 0; i < N; i++) m.insert(a[i].first, a[i].second, 1); C<dup::D> t(a, a + N); elements(t, m); C<dup::D> u{}; ADD(u, (Model<dup::D>()), 12, 1); u = std::move(t); elements(u, m); t.clear(); elements(t, Model<dup::D>()); t = u; elements(t, m); C<dup::D> w(u); t = std::move(w); elements(t, m); elements(u, m); u.swap(u); elements(u, m); \
  C<dup::D> x(a + 0, a + 0); elements(x, Model<dup::D>()); C<dup::D> y(x); elements(y, Model<dup::D>()); y = u; x = u; elements(x, m); x = C<dup::D>(); elements(x, Model<dup::D>()); elements(y, m); } \
W(list_##C##_##D##_##N) { Model<dup::D> m; for (int i = 0; i < 2; i++) m.insert(rsym(i), rsym(20 + i), 1); C<dup::D> t{ KV(rsym(0), rsym(20)), KV(rsym(1), rsym(21)) }; elements(t, m); }
#define D_COUNT(d) ((d) == dup::COUNT)
#define MORES(C, N) MORE(C, STORE, N) MORE(C, COUNT, N) MORE(C, IGNORE, N)
MORES(B, 1) MORES(B, 2) MORES(T, 1) MORES(T, 2) ITERS(B, STORE, 3) ITERS(B, IGNORE, 3) RANGE(B, STORE, 3) RANGE(B, COUNT, 3) RANGE(B, IGNORE, 3) ITERS(T, STORE, 3) RANGE(T, IGNORE, 3)
#define ORDER(C, D, N, K) W(order_##C##_##D##_##N##_##K) { C<dup::D> x, y; Model<dup::D> a, b; for (int i = 0; i < N; i++) ADD(x, a, i, 1); for (int i = 0; i < K; i++) ADD(y, b, 10 + i, 1); bool lt = false, eq = true; for (int i = 0; i < a.n && i < b.n; i++) { lt = lt || (eq && a.k[i] < b.k[i]); eq = eq && !(a.k[i] < b.k[i]) && !(b.k[i] < a.k[i]); } lt = lt || (eq && a.n < b.n); eq = eq && a.n == b.n; \
  IFF("==", x == y, eq); IFF("!=", x != y, !eq); IFF("<", x < y, lt); IFF("<=", x <= y, lt || eq); IFF(">", x > y, !lt && !eq); IFF(">=", x >= y, !lt); }
#define ORDERS(C, D) ORDER(C, D, 0, 0) ORDER(C, D, 0, 1) ORDER(C, D, 1, 0) ORDER(C, D, 1, 1) ORDER(C, D, 2, 1) ORDER(C, D, 1, 2) ORDER(C, D, 2, 2)
ORDERS(B, STORE) ORDERS(B, IGNORE) ORDER(T, STORE, 0, 0) ORDER(T, STORE, 0, 1) ORDER(T, STORE, 1, 1) ORDER(T, STORE, 2, 1) ORDER(T, IGNORE, 1, 2)
// insert_before places an element directly before the given one
#define BEFORE(C, N) W(before_##C##_##N) { { C<dup::STORE> t; Model<dup::STORE> m; build<C, dup::STORE, N>(t, m); auto r = t.insert_before(t.upper_bound(rsym(9)), KV(rsym(9), rsym(29))); EQ("insert_before returns the element", r->second, rsym(29)); m.insert(rsym(9), rsym(29), 1); elements(t, m); ranks(t, m); } \
  { C<dup::STORE> t; Model<dup::STORE> m; build<C, dup::STORE, N>(t, m); int p = m.below(rsym(9)); t.insert_before(t.lower_bound(rsym(9)), KV(rsym(9), rsym(29))); for (int i = m.n; i > p; i--) m.k[i] = m.k[i - 1], m.v[i] = m.v[i - 1], m.c[i] = m.c[i - 1]; m.k[p] = rsym(9); m.v[p] = rsym(29); m.c[p] = 1; m.n++; elements(t, m); } }
BEFORE(B, 1) BEFORE(B, 2) BEFORE(B, 3) BEFORE(T, 1) BEFORE(T, 2)
// rotations keep the elements
#define ROTATE(D, N) W(rotate_##D##_##N) { for (int k = 0; k < N; k++) { B<dup::D> t; Model<dup::D> m; build<B, dup::D, N>(t, m); if (k < m.n) { auto it = t.begin(); for (int i = 0; i < k; i++) ++it; auto r = it.right(); if (r != t.end()) { vf_true("rotate_left returns the new root of the subtree", t.rotate_left(it) == r); vf_true("rotate_left", it.parent() == r && r.left() == it); } elements(t, m); if (D_COUNT(dup::D)) ranks(t, m); else iterators(t, m); auto l = it.left(); if (l != t.end()) { vf_true("rotate_right returns the new root of the subtree", t.rotate_right(it) == l); vf_true("rotate_right", it.parent() == l && l.right() == it); } elements(t, m); ranks(t, m); } } }
ROTATE(STORE, 2) ROTATE(COUNT, 2) ROTATE(STORE, 3) ROTATE(COUNT, 3)

// every shape of a tree of N elements (every order of insertion), every element erased, in part and as a whole
INL R num(int c) { return rhandle(rsym(0), ring_cst(c)); }
#define SHAPES(D, N) W(shapes_##D##_##N) { int fact = 1; for (int i = 2; i <= N; i++) fact *= i; for (int q = 0; q < fact; q++) { int ord[N], left[N]; for (int i = 0; i < N; i++) left[i] = i; for (int i = 0, r = q; i < N; i++) { int j = r % (N - i); r /= N - i; ord[i] = left[j]; for (int k = j; k + 1 < N - i; k++) left[k] = left[k + 1]; } \
  for (int e = 0; e < N; e++) { B<dup::D> t; int c[N]; for (int i = 0; i < N; i++) { t.insert(KV(num(ord[i]), num(10 + ord[i])), 1 + ord[i] * 2); c[ord[i]] = D_COUNT(dup::D) ? 1 + ord[i] * 2 : 1; } int part = D_COUNT(dup::D) ? (q + e) % 2 * e : 0; t.erase(num(e), part ? part : 99); c[e] = part ? c[e] - part : 0; \
    bool ok = true; int below = 0; for (int i = 0; i < N; i++) { ok = ok && t.count_less(num(i)) == below && t.count(num(i)) == c[i] && t.count_less_or_equal(num(i)) == below + c[i]; for (int j = 0; j < c[i]; j += c[i] > 1 ? c[i] - 1 : 1) { auto it = t.find_kth(below + j); ok = ok && it != t.end() && it->second == num(10 + i); } below += c[i]; } vf_true("ranks after erasing", ok); vf_true("size after erasing", t.size() == below); } } }
SHAPES(COUNT, 4) SHAPES(STORE, 4) SHAPES(COUNT, 5)
#ifdef VF_BIG
SHAPES(STORE, 5)
#endif
