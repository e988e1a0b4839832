#include "ring.h"
#include "altruct/algorithm/search/binary_search.h"
#include "altruct/algorithm/collections/collections.h"
#include "altruct/structure/container/range_minimum_query.h"
#include "altruct/structure/container/sqrt_map.h"
#include "altruct/structure/container/lohi_map.h"
#include <list>
using namespace altruct;
using namespace altruct::container;
INL int pick(int i, int n) { int v = 0; for (int b = 0; (1 << b) < n; b++) v += bool_sym(200 + 4 * i + b) ? 1 << b : 0; vf_assume(v < n); return v; }
// binary search: every range and every threshold
#define BS(T, TAG, N, BASE) W(bsearch_##TAG) { const T base = (T)(BASE); int l = pick(0, N + 1), h = pick(1, N + 1), t = pick(2, N + 1); T lo = (T)(base + (T)l), hi = (T)(base + (T)h), th = (T)(base + (T)t); bool in = true; \
  T r = search::binary_search_pred(lo, hi, [&](T x) { in = in && lo <= x && x < hi; return x >= th; }); vf_true("predicate asked inside the range only", in); vf_true("first index for which the predicate holds", r == (hi <= lo ? lo : th <= lo ? lo : th < hi ? th : hi)); \
  if (l <= h) { in = true; T q = search::binary_search_num<T>(lo, hi, (T)1, [&](T x) { in = in && lo <= x && x < hi; return x >= th; }); vf_true("number predicate asked inside the range only", in); vf_true("first number for which the predicate holds", q == (th <= lo ? lo : th < hi ? th : hi)); } }
BS(int, int, 6, -3) BS(unsigned, unsigned, 6, 0) BS(int64_t, int64, 7, 5000000000ll) BS(uint8_t, uint8, 7, 248) BS(int, int_top, 6, 2147483641)
#define LB(N) W(bound_##N) { R a[N]; for (int i = 0; i < N; i++) { a[i] = rsym(i); if (i) vf_assume(!(a[i] < a[i - 1])); } R v = rsym(50); auto f = [&](int i) { return a[i]; }; auto g = [&](int i) { return a[N - 1 - i]; }; \
  int lb = 0, ub = 0; for (int i = 0; i < N; i++) lb += a[i] < v, ub += a[i] <= v; vf_true("lower bound", search::lower_bound_num(0, N, 1, v, f) == lb); vf_true("upper bound", search::upper_bound_num(0, N, 1, v, f) == ub); \
  vf_true("lower bound, decreasing", search::lower_bound_num(0, N, 1, v, g, true) == N - ub); vf_true("upper bound, decreasing", search::upper_bound_num(0, N, 1, v, g, true) == N - lb); }
LB(1) LB(2) LB(4) LB(5)
// range minimum: elements in every order, every range; leftmost smallest position
#define RMQ(N, B) W(rmq_##N##_##B) { R a[N]; for (int i = 0; i < N; i++) a[i] = rsym(i); direct_rmq<R, std::less<R>, int, B> q; q.build(a, a + N); vf_true("size", q.size() == N); for (int i = 0; i < N; i++) { int m = i; for (int j = i; j < N; j++) { R x = a[m]; for (int k = i; k < j; k++) if (m == k) x = a[k]; if (a[j] < x) m = j; vf_true("leftmost smallest", q.get_index(i, j + 1) == m); } } }
RMQ(1, 2) RMQ(3, 2) RMQ(4, 2) RMQ(4, 3) RMQ(5, 2)
#define RMQI(N, B, V) W(rmq_int_##N##_##B) { int a[N]; for (int i = 0; i < N; i++) a[i] = pick(i, V); direct_rmq<int, std::less<int>, int, B> q; { int t[2] = { 1, 2 }; q.build(t, t + 2); } q.build(a, a + N); for (int i = 0; i < N; i++) for (int j = i + 1; j <= N; j++) { int m = a[i], p = i; for (int k = i + 1; k < j; k++) if (a[k] < m) m = a[k], p = k; vf_true("leftmost smallest", q.get_index(i, j) == p); vf_true("smallest value", q.get_value(i, j) == m); } }
RMQI(7, 2, 2) RMQI(6, 3, 3) RMQI(9, 2, 2) RMQI(12, 2, 2) RMQI(10, 1, 2) RMQI(10, 3, 2) RMQI(9, 4, 2)
#define RMQC(N, B) W(rmq_copy_##N##_##B) { int a[N]; for (int i = 0; i < N; i++) a[i] = pick(i, 3); typedef direct_rmq<int, std::greater<int>, int, B> rmq; auto* p = new rmq; p->build(a, a + N); rmq c(*p), d; d = *p; { int t[N]; for (int i = 0; i < N; i++) t[i] = i; p->build(t, t + N); } delete p; for (int i = 0; i < N; i++) for (int j = i + 1; j <= N; j++) { int m = i; for (int k = i + 1; k < j; k++) { int x = a[i]; for (int z = i; z < k; z++) if (m == z) x = a[z]; if (a[k] > x) m = k; } vf_true("copy", c.get_index(i, j) == m); vf_true("assigned", d.get_index(i, j) == m); } }
RMQC(4, 2) RMQC(5, 3)
// collections
template<class V> INL bool eqv(const V& v, const R* a, int n) { bool r = (int)v.size() == n; for (int i = 0; i < n; i++) if (i < (int)v.size()) r = r && v[i] == a[i]; return r; }
#define COLL(N) W(collections_##N) { R a[N + 1]; std::vector<R> v; for (int i = 0; i < N; i++) v.push_back(a[i] = rsym(i)); R b[N + 1]; for (int i = 0; i < N; i++) b[i] = a[N - 1 - i]; vf_true("reversed", eqv(collections::reversed(v), b, N) && eqv(collections::reversed(a, a + N), b, N)); \
  for (int k = 0; k <= N + 1; k++) { vf_true("take", eqv(collections::take(v, k), a, std::min(k, N)) && eqv(collections::take(a, a + N, k), a, std::min(k, N))); } vf_true("take all", eqv(collections::take(v, (size_t)-1), a, N)); \
  auto s = collections::sorted(v); vf_true("sorted size", (int)s.size() == N); for (int i = 0; i + 1 < N; i++) vf_true("sorted", !(s[i + 1] < s[i])); for (int i = 0; i < N; i++) { int x = 0, y = 0; for (int j = 0; j < N; j++) x += s[j] == a[i], y += a[j] == a[i]; vf_true("sorted keeps the elements", x == y); } auto s2 = collections::sorted(a, a + N); for (int i = 0; i < N; i++) vf_true("sorted range", s2[i] == s[i]); \
  vf_true("argument unchanged", eqv(v, a, N)); R q = rsym(60); auto f = collections::filter(v, [&](const R& x) { return x < q; }); int n = 0; for (int i = 0; i < N; i++) n += a[i] < q; vf_true("filter size", (int)f.size() == n); for (int i = 0; i < N; i++) { int p = 0; for (int j = 0; j < i; j++) p += a[j] < q; if (a[i] < q) for (int z = 0; z <= i; z++) if (p == z) vf_true("filter keeps order", f[z] == a[i]); } \
  auto t = collections::transform(v, [&](const R& x) { return x * x + q; }); vf_true("transform size", (int)t.size() == N); for (int i = 0; i < N; i++) vf_true("transform", t[i] == a[i] * a[i] + q); auto t2 = collections::transform(a, a + N, [&](const R& x) { return x < q; }); for (int i = 0; i < N; i++) vf_true("transform range", t2[i] == (a[i] < q)); \
  auto l = collections::run_length(v); int tot = 0, runs = 0; for (int i = 0; i < N; i++) runs += i == 0 || a[i] != a[i - 1]; vf_true("number of runs", (int)l.size() == runs); for (int i = 0; i < N; i++) { int c = -1; for (int j = 0; j <= i; j++) c += j == 0 || a[j] != a[j - 1]; for (int z = 0; z <= i; z++) if (c == z) { vf_true("run value", l[z].first == a[i]); } int e = 1; bool same = true; for (int j = i - 1; j >= 0; j--) { same = same && a[j] == a[i]; e += same; } same = true; for (int j = i + 1; j < N; j++) { same = same && a[j] == a[i]; e += same; } for (int z = 0; z <= i; z++) if (c == z) vf_true("run length", l[z].second == e); } \
  bool has = false; for (int i = 0; i < N; i++) has = has || a[i] == q; vf_true("contains", collections::contains(v, q) == has && collections::contains(a, a + N, q) == has); }
COLL(0) COLL(1) COLL(2) COLL(3) COLL(4)
#define CMP(N, M) W(compare_##N##_##M) { R a[N + 1], b[M + 1]; for (int i = 0; i < N; i++) a[i] = rsym(i); for (int i = 0; i < M; i++) b[i] = rsym(20 + i); for (int k = 0; k <= (N > M ? N : M) + 1; k++) { size_t len = k > N && k > M ? (size_t)-1 : k; int r = 0; bool done = false; for (int i = 0; i < k; i++) { if (done) continue; if (i >= N || i >= M) { r = i < N ? 1 : i < M ? -1 : 0; done = true; } else if (a[i] != b[i]) { r = a[i] < b[i] ? -1 : 1; done = true; } } vf_true("compare", collections::compare(a, a + N, b, b + M, len) == r); if (len == (size_t)-1) vf_true("compare whole", collections::compare(a, a + N, b, b + M) == r); } }
CMP(0, 0) CMP(0, 1) CMP(1, 0) CMP(1, 1) CMP(2, 2) CMP(2, 3) CMP(3, 2) CMP(3, 3)
W(reserve_more) { for (int n = 0; n <= 4; n++) for (int k = 0; k <= 3; k++) { std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(i); size_t c = v.capacity(); collections::reserve_more(v, k); vf_true("capacity", v.capacity() >= n + k && v.capacity() >= c && (int)v.size() == n); vf_true("grows exponentially", v.capacity() == c || v.capacity() >= c + c / 2); for (int i = 0; i < n; i++) vf_true("elements kept", v[i] == i); } }
// maps: every history of K operations on the representable keys, against a plain array
#define HIST(M, K) { const int keys[] = { KEYS }; const int nk = sizeof(keys) / sizeof(keys[0]); bool has[nk]; R val[nk]; for (int i = 0; i < nk; i++) has[i] = false, val[i] = R(); \
  for (int k = 0; k < K; k++) { int op = pick(3 * k, 4), ki = pick(3 * k + 1, nk); int key = 0; bool h = false; R cur; for (int i = 0; i < nk; i++) if (ki == i) { key = keys[i]; h = has[i]; cur = val[i]; } R nv = rsym(k); \
    vf_true("count", M.count(key) == (h ? 1 : 0)); THROWS("at", !h, M.at(key)); if (h) vf_true("value", M.at(key) == cur); \
    if (op == 0) { auto r = M.insert({ key, nv }); vf_true("insert result", r.first == key && r.second == !h); } else if (op == 1) { R& e = M[key]; vf_true("[] gives the present value or a default one", e == (h ? cur : R())); e = nv; } else if (op == 2) { vf_true("erase result", M.erase(key) == (h ? 1 : 0)); } \
    for (int i = 0; i < nk; i++) if (ki == i) { if (op == 0 && !has[i]) { has[i] = true; val[i] = nv; } else if (op == 1) { has[i] = true; val[i] = nv; } else if (op == 2) { has[i] = false; val[i] = R(); } } } \
  for (int i = 0; i < nk; i++) { const auto& C = M; vf_true("count at the end", C.count(keys[i]) == (has[i] ? 1 : 0)); THROWS("at at the end", !has[i], C.at(keys[i])); if (has[i]) vf_true("value at the end", C.at(keys[i]) == val[i]); } }
#define KEYS 1, 2, 3, 5, 10
W(sqrt_map_3) { sqrt_map<int, R> m(3, 10); HIST(m, 3) for (int k : { 1, 2, 3, 5, 10 }) { const auto& c = m; vf_true("unchecked access", &m.el(k) == &c(k) && &c.el(k) == &c[k]); } vf_true("unchecked low and high", &m.lo(2) == &m.el(2) && &m.hi(2) == &m.el(5) && &m.hi(1) == &m.el(10)); }
#undef KEYS
#define KEYS 1, 2, 3, 7
W(sqrt_map_2) { sqrt_map<int, R> m(2); THROWS("no high keys before reset_max", true, m.at(3)); m.reset_max(4); m[4] = rsym(70); m[2] = rsym(71); vf_true("erase", m.erase(2) == 1); m.reset_max(7); HIST(m, 3) m.reset_max(5); vf_true("reset forgets the high keys", m.count(5) == 0 && m.count(7) == 0); vf_true("default after reset", m[5] == R()); m[5] = rsym(72); vf_true("and may be stored anew", m.at(5) == rsym(72) && m.count(5) == 1); }
W(sqrt_map_swap) { sqrt_map<int, R> a(2, 7), b(3, 10); a[1] = rsym(1); a[7] = rsym(2); b[3] = rsym(3); b[5] = rsym(4); a.swap(b); vf_true("swapped", a.count(1) == 0 && a.at(3) == rsym(3) && a.at(5) == rsym(4) && b.at(1) == rsym(1) && b.at(7) == rsym(2) && b.count(2) == 0); auto c = a; c[3] = rsym(5); vf_true("copies are independent", a.at(3) == rsym(3)); }
#undef KEYS
#define KEYS 0, 1, 2, 3, 7
W(lohi_map_2) { lohi_map<int, R> m(2); HIST(m, 3) }
