#include "ring.h"
#include "altruct/structure/container/binary_heap.h"
using namespace altruct::container;
// all orders of the (symbolic, possibly equal) elements at once
struct Less { bool operator()(const R& a, const R& b) const { return a < b; } };
struct More { bool operator()(const R& a, const R& b) const { return b < a; } };
template<typename C> INL void model_sort(R* m, int n, C c) { for (int i = 1; i < n; i++) for (int j = i; j > 0; j--) { bool s = c(m[j], m[j - 1]); R a = s ? m[j] : m[j - 1], b = s ? m[j - 1] : m[j]; m[j - 1] = a; m[j] = b; } }
#define HEAP(N, C) W(heap_##N##_##C) { \
  { binary_heap<R, C> q{C()}; R m[N + 1]; for (int i = 0; i < N; i++) { q.insert(rsym(i)); m[i] = rsym(i); vf_true("size after insert", q.size() == i + 1); R w[N + 1]; for (int j = 0; j <= i; j++) w[j] = rsym(j); model_sort(w, i + 1, C()); EQ("front after insert", q.front(), w[0]); } model_sort(m, N, C()); \
    for (int i = 0; i < N; i++) { EQ("pop order after inserts", q.front(), m[i]); q.pop_front(); vf_true("size after pop", q.size() == N - 1 - i); } } } \
W(build_##N##_##C) { R a[N + 1], m[N + 1]; for (int i = 0; i < N; i++) a[i] = m[i] = rsym(i); model_sort(m, N, C()); \
  { binary_heap<R, C> q(a, a + N, C()); vf_true("size after construction", q.size() == N); for (int i = 0; i < N; i++) { EQ("pop order after construction", q.front(), m[i]); q.pop_front(); } } \
  { std::vector<R> v(a, a + N); binary_heap<R, C> q(v, C()); q.sort(); for (int i = 0; i < N; i++) EQ("sort", q.v[i], m[i]); q.rebuild(); for (int i = 0; i < N; i++) { EQ("pop order after sort and rebuild", q.front(), m[i]); q.pop_front(); } } }
HEAP(1, Less) HEAP(2, Less) HEAP(3, Less) HEAP(4, Less) HEAP(3, More)
#ifdef VF_BIG
HEAP(5, Less)
#endif
