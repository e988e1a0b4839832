#include "ring.h"
#include "altruct/structure/container/link_cut_tree.h"
using namespace altruct::container;
// own affine map (a, b), aggregate (ga, gb) of the auxiliary tree in order: composition is not commutative
struct V { R a, b, ga, gb; V() : a(1), b(0), ga(1), gb(0) {} };
INL V val(int i) { V v; v.a = v.ga = rsym(40 + i); v.b = v.gb = rsym(60 + i); return v; }
struct Up { void operator()(V& x, const V& l, const V& r) const { R ca = l.ga * x.a, cb = l.ga * x.b + l.gb; R da = ca * r.ga, db = ca * r.gb + cb; x.ga = da; x.gb = db; } };
typedef link_cut_tree<V, Up> LC;
INL int pick(int i, int n) { int v = 0; for (int b = 0; (1 << b) < n; b++) v += bool_sym(4 * i + b) ? 1 << b : 0; vf_assume(v < n); return v; }
// plain forest: parent of each node (0 = none)
template<int N> struct Model { int p[N + 1]; INL int up(int u) const { int r = 0; for (int i = 1; i <= N; i++) if (u == i) r = p[i]; return r; }
  INL int depth(int u) const { int d = 0; for (int k = 0; k < N; k++) { u = up(u); if (u) d++; } return d; } INL int root(int u) const { for (int k = 0; k < N; k++) { int q = up(u); if (q) u = q; } return u; } };
template<int N> INL void look(LC& t, const Model<N>& m, int from, int step) { // queries in an order that rearranges the auxiliary trees
    for (int k = 0; k < N; k++) { int u = (from + k * step) % N + 1; vf_true("depth", t.depth(u) == m.depth(u)); vf_true("parent", t.find_parent(u) == m.up(u)); vf_true("root", t.find_root(u) == m.root(u)); int v = (from + k * step + 1) % N + 1;
      int l = 0; { int x = v, best = 0; int y = u; for (int a = 0; a <= N; a++) { int z = v; for (int b = 0; b <= N; b++) { if (y && y == z && !best) best = y; z = m.up(z); } y = m.up(y); } l = best; } vf_true("lowest common ancestor", t.find_lca(u, v) == l); vf_true("depth after searching", t.depth(u) == m.depth(u)); } }
template<int N> INL void values(LC& t, const Model<N>& m, int chg) { for (int u = 1; u <= N; u++) { R a(1), b(0); int x = u; for (int k = 0; k < N; k++) { for (int i = 1; i <= N; i++) if (x == i) { R oa = rsym((i == chg ? 80 : 40) + i), ob = rsym((i == chg ? 90 : 60) + i); b = oa * b + ob; a = oa * a; } x = m.up(x); } V& v = t.get(u); EQ("path aggregate", v.ga, a); EQ("path aggregate", v.gb, b); } }
#define BUILD(N, CONN) LC t{Up(), V()}; Model<N> m; for (int i = 1; i <= N; i++) { m.p[i] = 0; vf_true("index of the new node", t.add(val(i)) == i); } for (int i = 2; i <= N; i++) { int p = pick(i, CONN ? i - 1 : i) + (CONN ? 1 : 0); if (p) { t.link(i, p); } m.p[i] = p; }
#define LCT(N) \
W(build_##N) { BUILD(N, false) vf_true("size", t.size() == N); look<N>(t, m, 0, 1); } \
W(values_##N) { BUILD(N, false) values<N>(t, m, -1); V& v = t.get(2); v.a = rsym(82); v.b = rsym(92); t.get(1); values<N>(t, m, 2); } \
W(cut_##N) { for (int c = 1; c <= N; c++) { BUILD(N, true) t.cut(c); m.p[c] = 0; look<N>(t, m, 1, 1); values<N>(t, m, -1); } } \
W(relink_##N) { for (int c = 2; c <= N; c++) { BUILD(N, true) t.cut(c); m.p[c] = 0; int q = pick(9, N) + 1; bool inside = false; int x = q; for (int k = 0; k <= N; k++) { inside = inside || x == c; x = m.up(x); } if (!inside) { t.link(c, q); m.p[c] = q; } look<N>(t, m, 2, 1); } } \
W(traverse_##N) { BUILD(N, true) for (int u = 1; u <= N; u++) { int d = m.depth(u); for (int k = 0; k < N; k++) if (k <= d) { int steps = 0; int f = t.traverse(u, [&](const V& v, const V& l, const V& r, int dep) { steps++; return k < dep ? -1 : k > dep ? 1 : 0; }); int x = u; for (int i = 0; i < N; i++) if (i < d - k) x = m.up(x); vf_true("node at a depth", f == x); } } }
LCT(2) LCT(3) LCT(4) LCT(5)
#ifdef VF_BIG
LCT(6)
#endif
W(constructors) { { LC t(3, Up(), V()); vf_true("size", t.size() == 3); t.link(2, 1); t.get(2).a = rsym(7); t.get(1); V& v = t.get(2); EQ("aggregate", v.ga, rsym(7)); vf_true("depth", t.depth(3) == 0 && t.depth(2) == 1); } }
W(from_range) { V a[2] = { val(1), val(2) }; LC t(a, a + 2, Up(), V()); vf_true("size", t.size() == 2); t.link(2, 1); V& v = t.get(2); EQ("aggregate", v.ga, rsym(41) * rsym(42)); }
