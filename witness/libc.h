// Stand-ins for the C library functions the I/O headers call, so that their effects are visible to the analysis.
// Include after <cstring> and <cstdio>; compile with -fno-builtin.
#pragma once
#include <cstring>
#include <cstdio>
#include <string>
template class std::basic_string<char>; // definitions of the members that libc++ keeps in its library
// one input and one output device; reads hand out 1..dev_k characters per call, as they please
struct device { const char* in; size_t n, pos; int calls; int k; char out[40]; size_t wr; int flushes; };
static device dev;
static int dev_pick(int i, int n) { int v = 0; for (int b = 0; (1 << b) < n; b++) v += bool_sym(4 * i + b) ? 1 << b : 0; vf_assume(v < n); return v; }
INL void dev_init(const char* s, size_t n, int k) { dev.in = s; dev.n = n; dev.pos = 0; dev.calls = 0; dev.k = k; dev.wr = 0; dev.flushes = 0; for (int i = 0; i < 40; i++) dev.out[i] = 0; }
extern "C" {
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int fgetc(FILE*) { return dev.pos < dev.n ? (unsigned char)dev.in[dev.pos++] : -1; }
size_t fread(void* b, size_t sz, size_t c, FILE*) { size_t k = c, m = 0; if (dev.k > 0 && dev.calls <= 20) k = 1 + dev_pick(100 + dev.calls++, dev.k); while (m < k && m < c && dev.pos < dev.n) ((char*)b)[m++] = dev.in[dev.pos++]; return m; }
int fputc(int c, FILE*) { if (dev.wr < 40) dev.out[dev.wr] = (char)c; dev.wr++; return (unsigned char)c; }
size_t fwrite(const void* b, size_t sz, size_t c, FILE*) { for (size_t i = 0; i < c; i++) { if (dev.wr < 40) dev.out[dev.wr] = ((const char*)b)[i]; dev.wr++; } return c; }
int fflush(FILE*) { dev.flushes++; return 0; }
}
