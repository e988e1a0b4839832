#include "ring.h"
#include "sorts.h"
#include <new>
#include <memory>
static int thrown;
// a refused request ends the operation there and then
#define throw return (thrown++, nullptr); (void)sizeof
#include "altruct/structure/container/bounded_contiguous_allocator.h"
#undef throw
using namespace altruct::container;
template class altruct::container::bounded_contiguous_allocator<int>;
INL int pick(int i, int n) { int v = 0; for (int b = 0; (1 << b) < n; b++) v += bool_sym(8 * i + b) ? 1 << b : 0; vf_assume(v < n); return v; }
typedef bounded_contiguous_allocator<long> A;
#ifdef VF_BIG
enum { STEPS = 8 };
#else
enum { STEPS = 6 };
#endif
// every sequence of requests and returns
template<int CAP> INL void run() { A a(CAP); long* h[CAP]; bool used[CAP]; for (int i = 0; i < CAP; i++) used[i] = false; long* base = nullptr; int live = 0;
  for (int t = 0; t < STEPS; t++) { int op = pick(t, CAP + 1); if (op == CAP) { thrown = 0; long* p = a.allocate(1); if (live == CAP) vf_true("a full range refuses", thrown == 1); else { vf_true("a free place is handed out", thrown == 0 && p != nullptr); if (base == nullptr) base = a.data_; vf_true("the range stays in place", a.data_ == base); int k = -1; for (int i = 0; i < CAP; i++) if (p == base + i) k = i; vf_true("inside the range", k >= 0); for (int i = 0; i < CAP; i++) if (used[i]) vf_true("not in use", h[i] != p); for (int i = 0; i < CAP; i++) if (!used[i]) { used[i] = true; h[i] = p; break; } a.construct(p, 100 + t); vf_true("constructed", *p == 100 + t); live++; } }
    else if (used[op]) { a.deallocate(h[op], 1); used[op] = false; live--; } } }
W(one) { run<1>(); } W(two) { run<2>(); } W(three) { run<3>(); }
W(blocks) { A a(4); thrown = 0; long* p = a.allocate(2); (void)p; vf_true("one element at a time", thrown == 1); thrown = 0; p = a.allocate(0); vf_true("one element at a time", thrown == 1); A z(0); thrown = 0; z.allocate(1); vf_true("an empty range refuses", thrown == 1); }
// copies have the capacity and a range of their own
W(copies) { A a(2), b(5); long* p = a.allocate(1); long* q = b.allocate(1); *p = 7; *q = 8; A c(a); b = a; bounded_contiguous_allocator<short> d(a), e(9); e = a; vf_true("capacity", c.capacity() == 2 && b.capacity() == 2 && d.capacity() == 2 && e.capacity() == 2 && a.capacity() == 2); a = a; thrown = 0; long* r[2]; for (int i = 0; i < 2; i++) { r[i] = c.allocate(1); vf_true("own range", r[i] != p); *r[i] = i; } vf_true("distinct", r[0] != r[1] && thrown == 0); long* s[2]; for (int i = 0; i < 2; i++) { s[i] = b.allocate(1); vf_true("own range", s[i] != p && s[i] != r[0] && s[i] != r[1]); *s[i] = i; } vf_true("distinct", s[0] != s[1] && thrown == 0); short *u = d.allocate(1), *v = d.allocate(1), *w = e.allocate(1), *x = e.allocate(1); vf_true("distinct", u != v && w != x && u != w && thrown == 0); vf_true("the original is not disturbed", *p == 7); long* o = a.allocate(1); vf_true("the original goes on", thrown == 0 && o != p); a.allocate(1); c.allocate(1); b.allocate(1); d.allocate(1); e.allocate(1); vf_true("full", thrown == 5); vf_true("only itself", a == a && !(a == c) && a != c); }
// trees on such an allocator, moved, copied and exchanged
#include <limits>
#include "altruct/structure/container/binary_search_tree.h"
#include "altruct/structure/container/treap.h"
#include "altruct/structure/container/rope.h"
struct LessR { bool operator()(const R& a, const R& b) const { return a < b; } };
struct Rnd { int k; Rnd(int k = 0) : k(k) {} Rnd(int(*)()) : k(0) {} int operator()() { return (k++ * 5) % 7; } };
typedef bounded_contiguous_allocator<bst_node<R>> BA;
typedef binary_search_tree<R, R, bst_duplicate_handling::IGNORE, LessR, BA> BT;
typedef rope<R, Rnd, BA> RO;
template<class T> INL void holds(const T& t, int a, int n) { int i = 0; for (auto it = t.cbegin(); it != t.cend(); ++it, ++i) if (i < n) EQ("element", *it, rhandle(rsym(0), ring_cst(a + i))); vf_true("number of elements", i == n && t.size() == n); }
INL R num(int c) { return rhandle(rsym(0), ring_cst(c)); }
W(tree) { thrown = 0; BT t(LessR(), BA(5)), u(LessR(), BA(8)); for (int i = 0; i < 3; i++) t.insert(num(i)); for (int i = 0; i < 6; i++) u.insert(num(10 + i)); t.swap(u); holds(t, 10, 6); holds(u, 0, 3); BT v(std::move(t)); holds(v, 10, 6); v.erase(num(15)); v.insert(num(15)); holds(v, 10, 6); t = std::move(u); holds(t, 0, 3); t.insert(num(3)); holds(t, 0, 4); BT c(v); holds(c, 10, 6); c.erase(num(15)); holds(c, 10, 5); holds(v, 10, 6); c = t; holds(c, 0, 4); c.erase(num(3)); holds(t, 0, 4); vf_true("places enough", thrown == 0); }
W(rope) { thrown = 0; RO r(Rnd(), BA(6)), s(Rnd(), BA(4)); for (int i = 0; i < 4; i++) r.push_back(num(i)); for (int i = 0; i < 2; i++) s.push_back(num(7 + i)); r.swap(s); holds(s, 0, 4); holds(r, 7, 2); s.push_back(num(4)); holds(s, 0, 5); RO c(s); c.erase(4); holds(c, 0, 4); holds(s, 0, 5); c = r; holds(c, 7, 2); vf_true("places enough", thrown == 0); }
// every place handed out is returned once, every element built is destroyed once
#include "altruct/structure/container/link_cut_tree.h"
#include "altruct/structure/container/lazy_treap.h"
static int places, objects;
struct Obj { R k; int alive; Obj() : k(num(0)), alive(77) { objects++; } Obj(const R& r) : k(r), alive(77) { objects++; } Obj(const Obj& o) : k(o.k), alive(77) { objects++; } Obj& operator=(const Obj& o) { vf_true("only living elements are assigned", alive == 77 && o.alive == 77); k = o.k; return *this; } ~Obj() { vf_true("destroyed once", alive == 77); alive = 0; objects--; } };
struct LessO { bool operator()(const Obj& a, const Obj& b) const { vf_true("only living elements are compared", a.alive == 77 && b.alive == 77); return a.k < b.k; } };
template<class T> struct CA { typedef T value_type; T* allocate(size_t n) { vf_true("one place at a time", n == 1); places++; return static_cast<T*>(std::malloc(sizeof(T))); } void deallocate(T* p, size_t n) { vf_true("one place at a time", n == 1); places--; std::free(p); } void construct(T* p, const T& v) { ::new (p) T(v); } void destroy(T* p) { p->~T(); } };
template<int D> using OB = binary_search_tree<Obj, Obj, D, LessO, CA<bst_node<Obj>>>;
template<int D> using OT = treap<Obj, Obj, D, LessO, Rnd, CA<bst_node<Obj>>>;
typedef rope<Obj, Rnd, CA<bst_node<Obj>>> OR;
struct Up0 { void operator()(Obj&, const Obj&, const Obj&) const {} };
typedef link_cut_tree<Obj, Up0, CA<link_cut_node<Obj>>> OL;
INL Obj o(int c) { return Obj(num(c)); }
#define BOOK(T) places = 0; objects = 0; { T } vf_true("every place is returned", places == 0); vf_true("every element is destroyed", objects == 0);
#define KEEP(t) vf_true("one place per element and end", places == t.size() + 1 + extra)
#define SETS(C, D) W(lifetime_##C##_##D) { BOOK(typedef C<bst_duplicate_handling::D> S; int extra = 0; S t; for (int i = 0; i < 4; i++) t.insert(o((i * 3) % 4)); KEEP(t); t.erase(o(1)); KEEP(t); t.erase(o(9)); t.erase(t.begin()); KEEP(t); t.insert(o(7)); { S u(t); u.erase(o(7)); extra = u.size() + 1; KEEP(t); S v; v.insert(o(2)); v = u; extra += v.size() + 1; KEEP(t); v = v; KEEP(t); S w(std::move(v)); v.clear(); w.clear(); t.swap(u); u = std::move(w); } extra = 0; KEEP(t); t.clear(); KEEP(t); t.insert(o(5)); KEEP(t);) }
SETS(OB, IGNORE) SETS(OB, STORE) SETS(OB, COUNT) SETS(OT, IGNORE) SETS(OT, STORE)
W(lifetime_rope) { BOOK(int extra = 0; OR t; for (int i = 0; i < 4; i++) t.insert(i / 2, o(i)); KEEP(t); t.erase(1); KEEP(t); { OR u(t); u.erase(0); extra = u.size() + 1; KEEP(t); u = t; t.swap(u); OR v(std::move(u)); } extra = 0; KEEP(t); t.clear(); KEEP(t);) }
W(lifetime_link_cut) { BOOK(OL t(3, Up0(), o(0)); vf_true("one place per node and the end", places == 4); t.add(o(5)); t.link(2, 1); t.link(4, 2); t.cut(2); t.find_root(4); vf_true("one place per node and the end", places == 5);) }
