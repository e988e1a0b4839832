#include "ring.h"
#include "large.h"
#include "altruct/algorithm/search/kmp_search.h"
#include "altruct/structure/container/suffix_array.h"
#include "altruct/structure/container/aho_corasick_trie.h"
#include "altruct/structure/container/palindrome_tree.h"
#include "altruct/structure/container/prefix_tree.h"
using namespace altruct::container;
// letters: every string over an alphabet of A letters at once
#ifdef VF_LARGE
INL int pick(int i, int n) { return vf_inst % 3 == 0 ? (i % (2 + vf_inst / 3) ? 0 : n - 1) : inst_pick(vf_inst % 3 == 1 ? i : i % (3 + vf_inst / 3), n); } // random and periodic strings
#else
INL int pick(int i, int n) { int v = 0; for (int b = 0; (1 << b) < n; b++) v += bool_sym(4 * i + b) ? 1 << b : 0; vf_assume(v < n); return v; }
#endif
// kmp: letters are opaque, every pattern of equalities between them
#define KMP(N, M) W(kmp_##N##_##M) { R t[N + 1], p[M]; for (int i = 0; i < N; i++) t[i] = rsym(i); for (int i = 0; i < M; i++) p[i] = rsym(100 + i); bool m[N + 1], seen[N + 1]; for (int i = 0; i <= N; i++) { m[i] = i + M <= N; for (int j = 0; j < M; j++) if (i + j < N) m[i] = m[i] && t[i + j] == p[j]; seen[i] = false; } \
  long last = -1; size_t r = altruct::search::kmp_search(t, (size_t)N, p, (size_t)M, [&](size_t q) { bool hit = false; for (int i = 0; i <= N; i++) if (q == (size_t)i) { hit = m[i]; seen[i] = true; } vf_true("reported positions match", hit); vf_true("positions are increasing", (long)q > last); last = (long)q; return true; }); \
  bool any = false; for (int i = 0; i <= N; i++) { vf_iff("every match is reported", seen[i], m[i]); any = any || m[i]; } vf_true("result is the last match or the length", r == (any ? (size_t)last : (size_t)N)); \
  int c = 0; r = altruct::search::kmp_search(t, (size_t)N, p, (size_t)M, [&](size_t q) { c++; return false; }); vf_true("callback stops the search", c == (any ? 1 : 0)); for (int i = N; i >= 0; i--) { bool first = m[i]; for (int j = 0; j < i; j++) first = first && !m[j]; if (first) vf_true("first match on stop", r == (size_t)i); } }
#ifndef VF_LARGE
KMP(0, 1) KMP(1, 1) KMP(2, 1) KMP(2, 2) KMP(3, 1) KMP(3, 2) KMP(4, 2) KMP(3, 3) KMP(5, 2) KMP(5, 3) KMP(2, 3)
#endif
#define KMP2(N, M, A) W(kmp_letters_##N##_##M) { int t[N + 1], p[M]; for (int i = 0; i < N; i++) t[i] = pick(i, A); for (int i = 0; i < M; i++) p[i] = pick(N + i, A); bool m[N + 1], seen[N + 1]; for (int i = 0; i <= N; i++) { m[i] = i + M <= N; for (int j = 0; j < M; j++) if (i + j < N) m[i] = m[i] && t[i + j] == p[j]; seen[i] = false; } \
  size_t r = altruct::search::kmp_search(t, (size_t)N, p, (size_t)M, [&](size_t q) { bool hit = false; for (int i = 0; i <= N; i++) if (q == (size_t)i) { hit = m[i]; seen[i] = true; } vf_true("reported positions match", hit); return true; }); for (int i = 0; i <= N; i++) vf_iff("every match is reported", seen[i], m[i]); }
#ifdef VF_LARGE
KMP2(24, 5, 2) KMP2(30, 9, 2) KMP2(16, 4, 3)
#else
KMP2(7, 4, 2) KMP2(8, 5, 2) KMP2(9, 6, 2) KMP2(6, 4, 3)
#endif
#ifdef VF_BIG
KMP(6, 3) KMP(6, 4) KMP2(12, 8, 2)
#endif
// suffix arrays: every string of length N over A letters
template<int N> INL int scmp(const int (&s)[N], int i, int j) { int r = 0; bool done = false; for (int k = 0; k <= N; k++) { int a = i + k < N ? s[i + k] : -1, b = j + k < N ? s[j + k] : -1; if (!done && a != b) { done = true; r = a < b ? -1 : 1; } } return r; }
#define SA(N, A) W(suffix_array_##N##_##A) { int s[N]; for (int i = 0; i < N; i++) s[i] = pick(i, A); suffix_array<int> a(s, s + N); vf_true("size", a.size() == N); \
  for (int i = 0; i <= N; i++) { int o = 0; for (int j = 0; j <= N; j++) o += j != i && scmp<N>(s, j, i) < 0; vf_true("order of the suffix", a.get_suffix_order(i) == o); for (int k = 0; k <= N; k++) if (o == k) vf_true("k-th suffix", a.get_kth_suffix(k) == i); } }
#define SL(N, A) W(lcp_##N##_##A) { int s[N]; for (int i = 0; i < N; i++) s[i] = pick(i, A); suffix_array<int> a(s, s + N); for (int i = 0; i <= N; i++) for (int j = 0; j <= N; j++) { int l = 0; bool eq = true; for (int k = 0; k < N; k++) { eq = eq && i + k < N && j + k < N && s[std::min(i + k, N - 1)] == s[std::min(j + k, N - 1)]; l += eq; } vf_true("longest common prefix", a.get_lcp(i, j) == l); } }
#define SC(N, A) W(substrings_##N##_##A) { int s[N]; for (int i = 0; i < N; i++) s[i] = pick(i, A); suffix_array<int> a(s, s + N); for (int b1 = 0; b1 <= N; b1++) for (int e1 = b1; e1 <= N; e1++) for (int b2 = 0; b2 <= N; b2++) for (int e2 = b2; e2 <= N; e2++) { int r = 0; bool done = false; for (int k = 0; k < N; k++) { bool x = b1 + k < e1, y = b2 + k < e2; int p = x ? s[b1 + k] : -1, q = y ? s[b2 + k] : -1; if (!done && p != q) { done = true; r = p < q ? -1 : 1; } } vf_true("substrings compare", a.compare_substrings(b1, e1, b2, e2) == r); } }
#ifdef VF_LARGE
SA(16, 2) SA(21, 3) SL(12, 2) SC(6, 2)
#else
SA(1, 2) SA(2, 3) SA(3, 3) SA(4, 2) SA(5, 2) SA(6, 2) SA(7, 2) SA(8, 2) SA(4, 3) SA(5, 3) SL(1, 2) SL(3, 2) SL(4, 2) SL(4, 3) SL(5, 2) SC(3, 2) SC(4, 2)
#endif
W(suffix_array_empty) { int s[1] = { 0 }; suffix_array<int> a(s, s); vf_true("size", a.size() == 0 && a.get_suffix_order(0) == 0 && a.get_kth_suffix(0) == 0 && a.get_lcp(0, 0) == 0); }
#ifdef VF_BIG
SA(9, 2) SA(6, 3) SA(5, 4) SL(6, 2) SC(5, 2)
#endif
// aho-corasick: every dictionary of words of the given lengths, every text
#define AHO(A, L1, L2, L3, N) W(aho_##A##_##L1##_##L2##_##L3##_##N) { int w[3][4], l[3] = { L1, L2, L3 }; for (int i = 0; i < 3; i++) for (int j = 0; j < l[i]; j++) w[i][j] = pick(4 * i + j, A); int t[N]; for (int i = 0; i < N; i++) t[i] = pick(20 + i, A); \
  aho_corasick_trie<A> T; for (int i = 0; i < 3; i++) if (l[i]) { auto n = T.insert(w[i], w[i] + l[i]); int m = n; for (int j = l[i]; j > 0; j--) m = T[m].parent; vf_true("node of the word is as deep as the word is long", m == T.root()); } T.build(); \
  long c = 0; for (int i = 0; i < 3; i++) if (l[i]) for (int p = 0; p + l[i] <= N; p++) { bool m = true; for (int j = 0; j < l[i]; j++) m = m && t[p + j] == w[i][j]; c += m; } vf_true("number of matches", T.count_matches(t, t + N) == c); \
  vf_true("number of matches again", T.count_matches(t, t + N) == c); vf_true("with letter conversion", T.count_matches(t, t + N, [](int x) { return (char)x; }) == c); \
  int cur = T.root(); long d = 0; for (int i = 0; i < N; i++) { cur = T.move_next(cur, (char)t[i]); int e = 0; for (int k = 0; k < 3; k++) if (l[k] && i + 1 >= l[k]) { bool m = true; for (int j = 0; j < l[k]; j++) m = m && t[i + 1 - l[k] + j] == w[k][j]; e += m; } vf_true("matches ending here", T[cur].word_cnt == e); } }
#ifdef VF_LARGE
AHO(2, 1, 3, 4, 12) AHO(2, 4, 4, 2, 14) AHO(3, 2, 3, 4, 15)
#else
AHO(2, 1, 2, 0, 3) AHO(2, 2, 2, 0, 3) AHO(2, 1, 2, 3, 4) AHO(2, 2, 3, 0, 4) AHO(2, 1, 1, 2, 3) AHO(2, 3, 3, 2, 5) AHO(3, 2, 2, 1, 4)
#endif
// palindromes: every string of length N over A letters
#define PAL(N, A) W(palindrome_##N##_##A) { int s[N]; for (int i = 0; i < N; i++) s[i] = pick(i, A); palindrome_tree<A> T; int added[N]; for (int i = 0; i < N; i++) { added[i] = i % 2 ? (int)T.add(s[i], [](int x) { return (uint8_t)x; }) : (int)T.add((uint8_t)s[i]); } \
  bool p[N][N]; for (int i = N - 1; i >= 0; i--) for (int j = i; j < N; j++) p[i][j] = s[i] == s[j] && (j - i < 2 || p[i + 1][j - 1]); \
  int tot = 0, dist = 0; int mult[N][N]; bool first[N][N]; for (int i = 0; i < N; i++) for (int j = i; j < N; j++) { tot += p[i][j]; mult[i][j] = 0; first[i][j] = p[i][j]; for (int k = 0; k + j - i < N; k++) { bool eq = true; for (int q = 0; q <= j - i; q++) eq = eq && s[k + q] == s[i + q]; mult[i][j] += eq; if (k < i) first[i][j] = first[i][j] && !eq; } dist += first[i][j]; } \
  for (int j = 0; j < N; j++) { int n = 0; for (int i = 0; i <= j; i++) n += first[i][j]; vf_true("add tells whether a palindrome is new", added[j] == n); } vf_true("total", T.total() == tot); vf_true("distinct", T.distinct() == dist); int ls = 0; for (int i = N - 1; i >= 0; i--) if (p[i][N - 1]) ls = N - i; vf_true("longest suffix", T[T.longest_suffix()].len == ls); \
  T.propagate(); for (int x = T.first(); x < T.size(); x++) { auto& n = T[x]; bool ok = false; for (int i = 0; i < N; i++) for (int j = i; j < N; j++) if (n.len == j - i + 1 && n.pos == i) ok = first[i][j] && n.cnt == mult[i][j]; vf_true("node: first occurrence and multiplicity", ok); int d = 0, sl = 0; for (int i = 0; i < N; i++) for (int j = i; j < N; j++) if (n.len == j - i + 1 && n.pos == i) for (int k = i; k <= j; k++) { d += p[k][j]; if (p[k][j] && k > i) sl = std::max(sl, j - k + 1); } vf_true("node: depth", n.depth == d); vf_true("node: longest proper palindromic suffix", T[n.suff].len == sl); } }
#ifdef VF_LARGE
PAL(14, 2) PAL(12, 3)
#else
PAL(1, 2) PAL(2, 2) PAL(3, 2) PAL(4, 2) PAL(5, 2) PAL(6, 2) PAL(7, 2) PAL(3, 3) PAL(4, 3)
#endif
#ifdef VF_BIG
AHO(2, 3, 3, 3, 6) AHO(2, 1, 2, 4, 6) PAL(8, 2) PAL(9, 2) PAL(5, 3) PAL(6, 3)
#endif
W(palindrome_all) { int s[4]; for (int i = 0; i < 4; i++) s[i] = pick(i, 2); auto f = [](int x) { return (uint8_t)x; }; palindrome_tree<2> T(s, s + 4, f), U; for (int i = 0; i < 2; i++) U.add((uint8_t)s[i]); int c = U.add_all(s + 2, s + 4, f); vf_true("added at once", T.total() == U.total() && T.distinct() == U.distinct() && T[T.longest_suffix()].len == U[U.longest_suffix()].len); }
// prefix tree: every list of K words (with repetitions), then erasure of any of them
typedef prefix_tree<2, int, uint8_t, std::vector<int>> trie;
static const auto ord_ = [](int x) { return (uint8_t)x; };
static const auto let_ = [](int x) { return x; };
struct wrd { int n, c[2]; bool operator==(const wrd& o) const { bool r = n == o.n; for (int i = 0; i < 2; i++) if (i < n) r = r && c[i] == o.c[i]; return r; } };
INL wrd word(int k) { wrd w; w.n = pick(3 * k, 3); for (int i = 0; i < 2; i++) w.c[i] = pick(3 * k + 1 + i, 2); return w; }
template<int K> INL int letters(const wrd (&w)[K], const bool (&in)[K]) { int n = 0; for (int l = 1; l <= 2; l++) for (int x = 0; x < (1 << l); x++) { bool any = false; for (int k = 0; k < K; k++) { bool m = in[k] && w[k].n >= l; for (int i = 0; i < l; i++) m = m && w[k].c[i] == ((x >> i) & 1); any = any || m; } n += any; } return n; }
INL bool same_(const std::vector<int>& v, const wrd& w) { bool r = (int)v.size() == w.n; for (int i = 0; i < 2; i++) if (i < w.n && i < (int)v.size()) r = r && v[i] == w.c[i]; return r; }
#define TRIE(K) W(prefix_tree_##K) { trie T; wrd w[K]; int id[K]; bool in[K]; int cnt = 0; for (int k = 0; k < K; k++) { w[k] = word(k); id[k] = T.add(w[k].c, w[k].c + w[k].n, ord_); int want = w[k].n ? cnt + 1 : 0; bool fresh = w[k].n != 0; for (int j = 0; j < k; j++) if (w[j] == w[k]) want = id[j], fresh = false; cnt += fresh; in[k] = fresh; vf_true("index of the added word", id[k] == want); } \
  vf_true("number of words", T.num_words() == cnt); vf_true("number of letters", T.num_letters() == letters<K>(w, in)); for (int k = 0; k < K; k++) { vf_true("find", T.find(w[k].c, w[k].c + w[k].n, ord_) == id[k]); vf_true("get", same_(T.get(id[k], let_), w[k])); } \
  wrd q = word(K); int want = 0; for (int j = 0; j < K; j++) if (w[j] == q) want = id[j]; vf_true("find any word", T.find(q.c, q.c + q.n, ord_) == want); \
  int seen = 0; bool hit[K]; for (int k = 0; k < K; k++) hit[k] = false; std::vector<int> last; T.for_each([&](const std::vector<int>& v, int i) { seen++; for (int k = 0; k < K; k++) if (in[k] && id[k] == i) { hit[k] = true; vf_true("visited word", same_(v, w[k])); } }, let_); vf_true("all words visited once", seen == cnt); for (int k = 0; k < K; k++) vf_true("all words visited", hit[k] || !in[k]); \
  int e = T.erase(q.c, q.c + q.n, ord_); vf_true("erase returns the index", e == want); bool gone = want != 0; for (int k = 0; k < K; k++) if (w[k] == q) in[k] = false; vf_true("number of words after erase", T.num_words() == cnt - gone); vf_true("number of letters after erase", T.num_letters() == letters<K>(w, in)); \
  for (int k = 0; k < K; k++) { int nid = w[k] == q ? 0 : (id[k] == cnt && gone ? want : id[k]); vf_true("find after erase", T.find(w[k].c, w[k].c + w[k].n, ord_) == nid); if (nid) vf_true("get after erase", same_(T.get(nid, let_), w[k])); } \
  T.clear(); vf_true("clear", T.num_words() == 0 && T.num_letters() == 0 && T.find(q.c, q.c + q.n, ord_) == 0); int n = T.add(q.c, q.c + q.n, ord_); vf_true("usable after clear", n == (q.n ? 1 : 0)); }
#ifdef VF_LARGE
TRIE(8)
#else
TRIE(1) TRIE(2) TRIE(3)
#endif
W(prefix_tree_append) { trie T; wrd a = word(0), b = word(1); int i = T.add(a.c, a.c + a.n, ord_), j = T.append(i, b.c, b.c + b.n, ord_); vf_true("original stays", same_(T.get(i, let_), a)); auto v = T.get(j, let_); vf_true("appended length", (int)v.size() == a.n + b.n); for (int k = 0; k < 2; k++) { if (k < a.n) vf_true("appended prefix", v[k] == a.c[k]); for (int s = 0; s <= 2; s++) if (a.n == s && k < b.n) vf_true("appended suffix", v[s + k] == b.c[k]); }
  int n = 0; T.for_each(j, [&](const std::vector<int>& x, int id) { n++; vf_true("words below the appended one", id == j && x.size() == v.size()); }, let_); vf_true("one word below", n == (j ? 1 : 0)); std::vector<int> wb(b.c, b.c + b.n); vf_true("word overloads", T.find(wb, ord_) == (b == a ? i : (b.n == 0 ? 0 : (a.n == 0 ? j : 0)))); }
