#include "ring.h"
#include "libc.h"
#include "altruct/io/writer.h"
#include "altruct/io/fast_io.h"
using namespace altruct::io;
INL int pick(int i, int n) { return dev_pick(i, n); }
static const char BYTES[] = { 'x', (char)0xff, 0, '\n' };
INL char byte(int i) { int k = pick(i, 4); char c = BYTES[0]; for (int j = 1; j < 4; j++) if (k == j) c = BYTES[j]; return c; }
INL void arrived(const char* nm, const char* e, int m, int M) { vf_true(nm, dev.wr == (size_t)m); for (int i = 0; i < M; i++) if (i < m) vf_true(nm, dev.out[i] == e[i]); }
// string_writer: no more than the capacity, in order
#define SW(CAP, A, B) W(string_##CAP##_##A##_##B) { char o[CAP + 1]; for (int i = 0; i <= CAP; i++) o[i] = 'z'; char e[CAP + A + B + 2]; int m = 0; string_writer w(o, CAP); char x[A + 1], y[B + 1]; for (int i = 0; i < A; i++) e[m++] = x[i] = byte(i); char c = byte(10); e[m++] = c; for (int i = 0; i < B; i++) e[m++] = y[i] = byte(20 + i); w.write(x, A).write_char((unsigned char)c).write(y, B).flush(); for (int i = 0; i <= CAP; i++) vf_true("characters in order, none beyond the capacity", o[i] == (i < m && i < CAP ? e[i] : 'z')); }
SW(0, 0, 1) SW(1, 1, 0) SW(3, 1, 2) SW(3, 2, 2) SW(3, 4, 1) SW(5, 2, 1) SW(3, 0, 3)
// a sink that records
struct sink : writer { writer& write_char(int c) override { fputc(c, nullptr); return *this; } writer& write(const char* b, size_t n) override { fwrite(b, 1, n, nullptr); return *this; } writer& flush() override { fflush(nullptr); return *this; } };
#define SINK(T) sink k; T w(k, CAPACITY);
#define FILEW(T) file_writer k(nullptr); T w(k, CAPACITY);
#define FASTW(T) fast_write w(nullptr, CAPACITY);
// any order of operations
#define MIX(WHO, DECL, CAP, STEPS) W(mixed_##WHO##_##CAP##_##STEPS) { const size_t CAPACITY = CAP; dev_init(nullptr, 0, 0); char e[STEPS * 3 + 1]; for (char& c : e) c = 0; int m = 0; auto put = [&](char c) { for (int j = 0; j < STEPS * 3; j++) if (j == m) e[j] = c; m++; }; { DECL(buffered_writer) for (int t = 0; t < STEPS; t++) { int op = pick(40 + t, 5); char a = byte(3 * t), b = byte(3 * t + 1); \
  if (op == 0) { w.write_char((unsigned char)a); put(a); } else if (op == 1) { w.flush(); arrived("flush hands over everything", e, m, STEPS * 3); vf_true("flush empties the buffer", w.available() == CAP); w.advance(); vf_true("nothing formatted since the flush", w.available() == CAP); } \
  else if (op == 2) { char x[3] = { a, b, a }; WRITE3(w, x) put(a); put(b); put(a); } \
  else if (op == 3) { size_t n = w.reserve(1); vf_true("reserve makes room", n == w.available() && n >= 1); } \
  else { char* p = w.data(1); vf_true("data has room for one", p != nullptr); p[0] = 'q'; p[1] = 0; w.advance(); put('q'); } } } arrived("everything arrives once, in order", e, m, STEPS * 3); }
#define WRITE3(w, x) w.write(x, 3);
MIX(sink, SINK, 1, 3) MIX(sink, SINK, 2, 3) MIX(sink, SINK, 3, 3) MIX(file, FILEW, 2, 2) MIX(file, FILEW, 4, 2)
#undef WRITE3
#define WRITE3(w, x) { std::string s(x, x + 3); w.write_string(s); }
MIX(fast, FASTW, 1, 3) MIX(fast, FASTW, 2, 3) MIX(fast, FASTW, 3, 3)
#define TOOBIG(WHO, DECL) W(room_##WHO) { const size_t CAPACITY = 2; dev_init(nullptr, 0, 0); DECL(buffered_writer) w.write_char('a'); vf_true("no room for more than the capacity", w.data(3) == nullptr && w.data(2) != nullptr && w.data() != nullptr && w.available() == 2); arrived("reserving flushed", "a", 1, 1); }
TOOBIG(sink, SINK) TOOBIG(fast, FASTW)
#define STR(WHO, DECL) W(cstring_##WHO) { const size_t CAPACITY = 2; dev_init(nullptr, 0, 0); char s[4] = { byte(0), byte(1), byte(2), 0 }; { DECL(simple_writer) w.write_string((const char*)s); } int m = s[0] == 0 ? 0 : s[1] == 0 ? 1 : s[2] == 0 ? 2 : 3; arrived("a C string up to its terminator", s, m, 3); } \
  W(string_##WHO) { const size_t CAPACITY = 2; dev_init(nullptr, 0, 0); char s[3] = { byte(0), byte(1), byte(2) }; { DECL(simple_writer) w.write_string(std::string(s, s + 3)); } arrived("a string with all its characters", s, 3, 3); }
STR(sink, SINK) STR(fast, FASTW)
// integers: decimal digits, sign, minimal length, read back by the definition of decimal notation
template<typename T> INL void decimal(T v, int len) { bool neg = v < 0; size_t at = neg ? 1 : 0; vf_true("sign", (dev.out[0] == '-') == neg && dev.wr > at); int64_t r = 0; bool dig = true; int nd = 0; for (size_t i = 0; i < 12; i++) if (i >= at && i < dev.wr) { dig = dig && dev.out[i] >= '0' && dev.out[i] <= '9'; r = r * 10 + (dev.out[i] - '0'); nd++; } vf_true("digits", dig && dev.wr < 12); vf_true("value", (neg ? -r : r) == (int64_t)v); vf_true("no more leading zeros than asked for", nd == len || (nd > len && dev.out[at] != '0')); }
#define INTS(WHO, DECL, T, NM, LEN) W(int_##WHO##_##NM##_##LEN) { const size_t CAPACITY = 3; dev_init(nullptr, 0, 0); T v = 0; { int k = pick(0, 256); v = (T)(k - (((T)-1 < (T)0) ? 128 : 0)); } { DECL(simple_writer) w.template write_integral_number<T>(v, LEN); } decimal<T>(v, LEN); }
INTS(sink, SINK, int8_t, i8, 1) INTS(sink, SINK, uint8_t, u8, 1) INTS(sink, SINK, int, int, 3) INTS(fast, FASTW, int8_t, i8, 1) INTS(fast, FASTW, uint8_t, u8, 2) INTS(fast, FASTW, long long, ll, 1)
#define LIMIT(WHO, DECL, NM, CALL, TXT) W(limit_##WHO##_##NM) { const size_t CAPACITY = 7; dev_init(nullptr, 0, 0); { DECL(simple_writer) w.CALL; } arrived("extreme value", TXT, sizeof(TXT) - 1, sizeof(TXT) - 1); }
#define LIMITS(WHO, DECL) LIMIT(WHO, DECL, i32min, write_int(INT32_MIN), "-2147483648") LIMIT(WHO, DECL, i32max, write_int(INT32_MAX), "2147483647") LIMIT(WHO, DECL, i64min, write_ll(INT64_MIN), "-9223372036854775808") LIMIT(WHO, DECL, i64max, write_ll(INT64_MAX), "9223372036854775807") LIMIT(WHO, DECL, u64max, write_integral_number<uint64_t>(UINT64_MAX), "18446744073709551615")
LIMITS(sink, SINK) LIMITS(fast, FASTW)
#define STREAM(WHO, DECL, OBJ) W(stream_##WHO) { const size_t CAPACITY = 3; dev_init(nullptr, 0, 0); char c = byte(0), d = byte(1); { DECL(simple_writer) OBJ s << c << std::string(1, d) << 12 << (long)-3 << (long long)45; } char e[9] = { c, d, '1', '2', '-', '3', '4', '5' }; arrived("streamed values in order", e, 8, 8); }
STREAM(sink, SINK, simple_writer_stream s(w);) STREAM(fast, FASTW, fast_write& s = w;)
W(file_direct) { dev_init(nullptr, 0, 0); char a = byte(0), b[2] = { byte(1), byte(2) }; { file_writer w(nullptr); w.write_char((unsigned char)a).write(b, 2); } char e[3] = { a, b[0], b[1] }; arrived("file_writer passes everything on", e, 3, 3); vf_true("destruction flushes", dev.flushes >= 1); }
// moving hands the buffer over
W(moved) { dev_init(nullptr, 0, 0); char a = byte(0), b = byte(1); { fast_write w(nullptr, 3); w.write_char((unsigned char)a); fast_write v(std::move(w)); v.write_char((unsigned char)b); } char e[3] = { a, b, 0 }; arrived("moving a writer keeps what it holds", e, 2, 2); }
W(moved_reader) { char d[2] = { byte(0), byte(1) }; dev_init(d, 2, 2); fast_read r(nullptr, 3); vf_true("first", r.read_char() == (unsigned char)d[0]); fast_read q(std::move(r)); vf_true("moving a reader keeps what it holds", q.read_char() == (unsigned char)d[1] && q.read_char() == -1); }
// two writers used alternately do not share state
W(independent) { dev_init(nullptr, 0, 0); char o1[8], o2[8]; for (int i = 0; i < 8; i++) o1[i] = o2[i] = 'z'; { string_writer s1(o1, 8), s2(o2, 8); simple_writer w1(s1, 4), w2(s2, 4); w1.write_int(12); w2.write_int(34); w1.write_int(5); w2.write_int(-6); } vf_true("independent", o1[0] == '1' && o1[1] == '2' && o1[2] == '5' && o1[3] == 'z' && o2[0] == '3' && o2[1] == '4' && o2[2] == '-' && o2[3] == '6' && o2[4] == 'z'); }
#ifdef VF_BIG
MIX(fast, FASTW, 2, 4) MIX(fast, FASTW, 4, 4)
#undef WRITE3
#define WRITE3(w, x) w.write(x, 3);
MIX(sink, SINK, 2, 4) MIX(sink, SINK, 4, 4)
#endif
