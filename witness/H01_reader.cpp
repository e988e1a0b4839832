#include "ring.h"
#include "libc.h"
#include "altruct/io/reader.h"
#include "altruct/io/fast_io.h"
using namespace altruct::io;
INL int pick(int i, int n) { return dev_pick(i, n); }
// a source of N characters that hands out 1..K of them per call, as it pleases
template<int N, int K> struct source : reader { char d[N + 1]; size_t pos; int calls; bool fin; source() : pos(0), calls(0), fin(false) {}
  int read_char() override { if (pos >= N) { fin = true; return -1; } return (unsigned char)d[pos++]; }
  size_t read(char* b, size_t c) override { size_t k = 1 + pick(100 + calls++, K), m = 0; if (calls > 20) k = c; for (size_t i = 0; i < K && i < k && i < c && pos < N; i++) { b[i] = d[pos++]; m++; } if (m < c) fin = true; return m; }
  operator bool() const override { return !fin; } };
template<int N> INL void fill(char (&d)[N], const char* a, int A, int n) { for (int i = 0; i < n; i++) { int k = pick(i, A); char c = a[0]; for (int j = 1; j < A; j++) if (k == j) c = a[j]; d[i] = c; } }
static const char BYTES[] = { 'x', ' ', (char)0xff, 0, (char)0x80, '\n', 0x7f, (char)0xc3 };
// string_reader
#define SR(N) W(string_##N) { char d[N + 1]; fill(d, BYTES, 4, N); string_reader r(d, N); vf_true("ready", bool(r)); for (int i = 0; i < N; i++) { vf_true("every byte arrives as 0..255", r.read_char() == (unsigned char)d[i]); vf_true("no failure before the end", bool(r)); } vf_true("end is -1", r.read_char() == -1); vf_true("end sets the flag", !bool(r)); vf_true("end stays -1", r.read_char() == -1); }
SR(0) SR(1) SR(3)
#define SRB(N, P, C) W(string_block_##N##_##P##_##C) { char d[N + 1], b[C + 1]; fill(d, BYTES, 4, N); for (int i = 0; i <= C; i++) b[i] = 'z'; string_reader r(d, N); for (int i = 0; i < P; i++) r.read_char(); size_t n = r.read(b, C); const size_t e = P + C <= N ? C : N - P; vf_true("characters delivered", n == e); for (size_t i = 0; i < C; i++) vf_true("characters in order, none beyond", b[i] == (i < e ? d[P + i] : 'z')); vf_true("buffer not overrun", b[C] == 'z'); vf_true("flag", bool(r) == (e == C)); vf_true("next character", r.read_char() == (P + e < N ? (unsigned char)d[P + e] : -1)); }
SRB(3, 0, 2) SRB(3, 1, 2) SRB(3, 2, 2) SRB(3, 3, 2) SRB(3, 0, 4) SRB(2, 1, 0)
W(string_cstr) { char d[4]; fill(d, BYTES, 4, 3); d[3] = 0; string_reader r(d); for (int i = 0; i < 3; i++) { bool live = true; for (int j = 0; j <= i; j++) live = live && d[j] != 0; vf_true("up to the terminator", r.read_char() == (live ? (unsigned char)d[i] : -1)); } }
// buffered_reader over any chunking
#define BR(N, K, CAP) W(buffered_##N##_##K##_##CAP) { source<N, K> s; fill(s.d, BYTES, 4, N); buffered_reader r(s, CAP); for (int i = 0; i < N; i++) { vf_true("every byte arrives as 0..255", r.read_char() == (unsigned char)s.d[i]); vf_true("no failure before the end", bool(r)); } vf_true("end is -1", r.read_char() == -1); vf_true("end sets the flag", !bool(r)); vf_true("end stays -1", r.read_char() == -1); }
BR(0, 2, 1) BR(3, 2, 1) BR(3, 2, 2) BR(4, 2, 3) BR(4, 3, 5) BR(3, 1, 2)
// single characters, unread, blocks, reserve, skip in any order
#define BO(N, K, CAP, STEPS) W(mixed_##N##_##K##_##CAP##_##STEPS) { source<N, K> s; fill(s.d, BYTES, 4, N); buffered_reader r(s, CAP); int pos = 0; bool un = false; for (int t = 0; t < STEPS; t++) { int op = pick(40 + t, 6); \
  if (op == 0) { int c = r.read_char(); for (int p = 0; p <= N; p++) if (pos == p) vf_true("next character", c == (p < N ? (unsigned char)s.d[p] : -1)); un = pos < N; if (un) pos++; } \
  else if (op == 1) { char b[3] = { 'z', 'z', 'z' }; size_t n = r.read(b, 2); int e = std::min(std::min(2, (int)CAP), N - pos); vf_true("block length", n == (size_t)e); for (int p = 0; p <= N; p++) if (pos == p) for (int i = 0; i < 2; i++) vf_true("block contents", b[i] == (p + i < N && i < CAP ? s.d[p + i] : 'z')); vf_true("block not overrun", b[2] == 'z'); pos += e; un = false; } \
  else if (op == 2) { if (un) { r.unread_char(); pos--; un = false; } } \
  else if (op == 3) { size_t n = r.reserve(2); vf_true("reserve", n >= (size_t)std::min(std::min(2, (int)CAP), N - pos) && n <= (size_t)(N - pos)); un = false; } \
  else if (op == 4) { size_t a = r.reserve(0); size_t n = r.skip(1); vf_true("skip stays within the buffer", n == (a > 0 ? 1u : 0u)); pos += (int)n; un = false; } \
  else { const char* p = r.data(1); vf_true("data is null only at the end", (p == nullptr) == (pos >= N)); if (p) for (int q = 0; q < N; q++) if (pos == q) vf_true("data starts at the next character", *p == s.d[q]); un = false; } } \
  for (int i = 0; i < N; i++) if (i == pos) { int c = r.read_char(); vf_true("rest of the source", c == (unsigned char)s.d[i]); pos++; } vf_true("nothing lost or repeated", r.read_char() == -1); }
BO(2, 2, 1, 3) BO(3, 2, 2, 3) BO(3, 2, 3, 3) BO(4, 2, 2, 2)

// the same over files
#define FR(N, K) W(file_##N##_##K) { char d[N + 1]; fill(d, BYTES, 4, N); dev_init(d, N, 0); file_reader r(nullptr); for (int i = 0; i < N; i++) { vf_true("every byte arrives as 0..255", r.read_char() == (unsigned char)d[i]); vf_true("no failure before the end", bool(r)); } vf_true("end is -1", r.read_char() == -1); vf_true("end sets the flag", !bool(r)); \
  dev_init(d, N, 0); file_reader q(nullptr); char b[K + 1]; for (int i = 0; i <= K; i++) b[i] = 'z'; size_t n = q.read(b, K); vf_true("block length", n == (N < K ? N : K)); for (size_t i = 0; i <= K; i++) vf_true("block contents", b[i] == (i < n ? d[i < N ? i : 0] : 'z')); vf_true("flag", bool(q) == (N >= K)); }
FR(0, 1) FR(2, 1) FR(2, 2) FR(2, 3)
// parsing; what a character sequence means is written out below
INL int dval(char c) { int v = -1; for (int k = 0; k < 10; k++) if (c == '0' + k) v = k; return v; }
INL bool white(char c) { return (unsigned char)c <= 0x20; }
template<int N> struct text { char d[N + 1]; int at; INL int get() { int c = -1; for (int i = 0; i < N; i++) if (at == i) c = (unsigned char)d[i]; if (c != -1) at++; return c; } INL int peek() { int c = -1; for (int i = 0; i < N; i++) if (at == i) c = (unsigned char)d[i]; return c; } };
static const char WORDS[] = { ' ', 'x', (char)0xe9, '\n', ';', 0, 'y', '\t' };
static const char NUMS[] = { '7', '-', ' ', '0', '+', 'x', '9', '3' };
#define IN_SIMPLE(N, K, CAP) source<N, K> src; for (int i = 0; i < N; i++) src.d[i] = t.d[i]; simple_reader r(src, CAP);
#define IN_FAST(N, K, CAP) dev_init(t.d, N, K); fast_read r(nullptr, CAP);
#define REST(N) while (true) { int e = t.get(); int c = r.read_char(); vf_true("what follows is left in place", c == e); if (e == -1) break; }
#define LN(WHO, N, K, CAP, DEL) W(line_##WHO##_##N##_##K##_##CAP) { text<N> t; t.at = 0; fill(t.d, WORDS, 5, N); IN_##WHO(N, K, CAP) for (int q = 0; q < 2; q++) { std::string s = r.read_line(DEL); char e[N + 1]; int m = 0; for (int i = 0; i < N; i++) { int c = t.peek(); if (c == -1 || c == (unsigned char)(DEL)) break; for (int j = 0; j < N; j++) if (j == m) e[j] = (char)c; m++; t.get(); } t.get(); vf_true("length of the line", s.size() == (size_t)m); for (int i = 0; i < N; i++) if (i < m) vf_true("characters of the line", s[i] == e[i]); } REST(N) }
LN(SIMPLE, 3, 2, 2, '\n') LN(SIMPLE, 3, 2, 1, (char)0xe9) LN(SIMPLE, 2, 2, 4, ';')
#define WD(WHO, N, K, CAP) W(word_##WHO##_##N##_##K##_##CAP) { text<N> t; t.at = 0; fill(t.d, WORDS, 4, N); IN_##WHO(N, K, CAP) for (int q = 0; q < 2; q++) { std::string s = r.read_string(); char e[N + 1]; int m = 0; for (int i = 0; i < N; i++) { int c = t.peek(); if (c == -1 || c > 0x20) break; t.get(); } for (int i = 0; i < N; i++) { int c = t.peek(); if (c == -1 || c <= 0x20) break; for (int j = 0; j < N; j++) if (j == m) e[j] = (char)c; m++; t.get(); } vf_true("length of the word", s.size() == (size_t)m); for (int i = 0; i < N; i++) if (i < m) vf_true("characters of the word", s[i] == e[i]); } REST(N) }
WD(SIMPLE, 3, 2, 2) WD(SIMPLE, 4, 1, 1) WD(SIMPLE, 2, 2, 4) WD(FAST, 3, 2, 2) WD(FAST, 4, 1, 1) WD(FAST, 2, 2, 4)
#define NM(WHO, T, N, K, CAP) W(number_##WHO##_##T##_##N##_##K##_##CAP) { text<N> t; t.at = 0; fill(t.d, NUMS, 5, N); IN_##WHO(N, K, CAP) for (int q = 0; q < 2; q++) { T v = r.read_integral_number<T>(); for (int i = 0; i < N; i++) { int c = t.peek(); if (c == -1 || c > 0x20) break; t.get(); } int sg = 1; if (t.peek() == '-') { sg = -1; t.get(); } else if (t.peek() == '+') t.get(); int e = 0; for (int i = 0; i < N; i++) { int c = t.peek(); if (c == -1 || c < '0' || c > '9') break; t.get(); e = e * 10 + (c - '0'); } vf_true("value of the number", v == (T)(sg * e)); } REST(N) }
NM(SIMPLE, int, 3, 2, 2) NM(SIMPLE, int, 4, 1, 1) NM(FAST, int, 3, 2, 2) NM(FAST, int, 4, 1, 1)
// narrow type, so that its least value is among the inputs
static const char NUM8[] = { '1', '2', '-', '8' };
#define N8(WHO, N) W(least_##WHO##_##N) { text<N> t; t.at = 0; fill(t.d, NUM8, 4, N); IN_##WHO(N, 2, 3) int8_t v = r.read_integral_number<int8_t>(); int sg = 1; if (t.peek() == '-') { sg = -1; t.get(); } int e = 0; for (int i = 0; i < N; i++) { int c = t.peek(); if (c == -1 || c < '0' || c > '9') break; t.get(); e = e * 10 + (c - '0'); } if (sg * e >= -128 && sg * e <= 127) vf_true("value of the number, least value included", v == sg * e); REST(N) }
N8(SIMPLE, 4) N8(FAST, 4)
#define LIM(WHO, T, TXT, V) { const char z[] = TXT; text<sizeof(z) - 1> t; for (size_t i = 0; i < sizeof(z) - 1; i++) t.d[i] = z[i]; IN_##WHO(sizeof(z) - 1, 2, 3) vf_true("least and greatest value", r.read_integral_number<T>() == V); }
W(limits_SIMPLE) { LIM(SIMPLE, int, "-2147483648", INT32_MIN) LIM(SIMPLE, int, "2147483647", INT32_MAX) LIM(SIMPLE, long long, "-9223372036854775808", INT64_MIN) }
W(limits_FAST) { LIM(FAST, int, "-2147483648", INT32_MIN) LIM(FAST, int, "2147483647", INT32_MAX) LIM(FAST, long long, "-9223372036854775808", INT64_MIN) }
// the raw interface of fast_read
#define FO(N, K, CAP, STEPS) W(fast_##N##_##K##_##CAP##_##STEPS) { char d[N + 1]; fill(d, BYTES, 4, N); dev_init(d, N, K); fast_read r(nullptr, CAP); int pos = 0; bool un = false; for (int t = 0; t < STEPS; t++) { int op = pick(40 + t, 5); \
  if (op == 0) { int c = r.read_char(); for (int p = 0; p <= N; p++) if (pos == p) vf_true("next character", c == (p < N ? (unsigned char)d[p] : -1)); un = pos < N; if (un) pos++; } \
  else if (op == 1) { if (un) { r.unread_char(); pos--; un = false; } } \
  else if (op == 2) { size_t n = r.reserve(2); vf_true("reserve", n == r.available() && n >= (size_t)std::min(std::min(2, (int)CAP), N - pos) && n <= (size_t)(N - pos)); un = false; } \
  else if (op == 3) { size_t a = r.available(); r.skip(1); vf_true("skip stays within the buffer", r.available() == (a > 0 ? a - 1 : 0)); if (a > 0) pos++; un = false; } \
  else { const char* p = r.data(1); vf_true("data is null only at the end", (p == nullptr) == (pos >= N)); if (p) for (int q = 0; q < N; q++) if (pos == q) vf_true("data starts at the next character", *p == d[q]); un = false; } } \
  for (int i = 0; i < N; i++) if (i == pos) { int c = r.read_char(); vf_true("rest of the source", c == (unsigned char)d[i]); pos++; } vf_true("nothing lost or repeated", r.read_char() == -1); }
FO(2, 2, 1, 3) FO(3, 2, 2, 3) FO(3, 2, 3, 3) FO(4, 2, 2, 2)
#define FA(WHO) W(terminated_##WHO) { text<2> t; t.at = 0; fill(t.d, BYTES, 2, 2); IN_##WHO(2, 2, 4) const char* p = r.data(2); vf_true("data is terminated, for use with sscanf", p && p[2] == 0 && p[0] == t.d[0] && p[1] == t.d[1]); r.counter() = 1; r.advance(); vf_true("advance skips what the counter says", r.read_char() == (unsigned char)t.d[1] && r.counter() == 0); r.advance(); r.counter() = 5; r.advance(); vf_true("advance stops at the end", r.read_char() == -1); }
FA(SIMPLE) FA(FAST)
#define ST(WHO, OBJ) W(stream_##WHO) { text<3> t; t.at = 0; fill(t.d, NUMS, 3, 3); IN_##WHO(3, 2, 2) OBJ int v = -9; char c = 'q'; s >> v >> c; int sg = 1; for (int i = 0; i < 3; i++) { int k = t.peek(); if (k == -1 || k > 0x20) break; t.get(); } if (t.peek() == '-') { sg = -1; t.get(); } int e = 0; for (int i = 0; i < 3; i++) { int k = t.peek(); if (k == -1 || k < '0' || k > '9') break; t.get(); e = e * 10 + (k - '0'); } vf_true(">> int", v == sg * e); int k = t.get(); vf_true(">> char", c == (char)k); }
ST(SIMPLE, simple_reader_stream s(r);) ST(FAST, fast_read& s = r;)
#ifdef VF_BIG
BR(5, 3, 3) BO(3, 2, 2, 4) BO(4, 3, 3, 3) WD(SIMPLE, 5, 2, 2) WD(FAST, 5, 2, 2) NM(SIMPLE, int, 5, 2, 2) NM(FAST, int, 5, 2, 3) LN(SIMPLE, 5, 2, 2, '\n') FO(4, 3, 3, 4)
#endif
