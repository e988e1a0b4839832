// Fixed larger instances: with -DVF_LARGE=<count> every unknown boolean becomes a generated bit, and every witness runs on <count> instances.
#pragma once
#ifdef VF_LARGE
static unsigned vf_inst;
INL unsigned inst_word(int64_t k) { unsigned x = vf_inst * 2654435761u ^ (unsigned)(k + 1) * 0x9E3779B9u; x ^= x >> 15; x *= 0x2c1b3c6du; x ^= x >> 12; x *= 0x297a2d39u; return x ^ x >> 15; }
INL bool inst_bool(int64_t k) { return inst_word(k) % 16 < 3 + vf_inst * 5 % 9; }
INL int inst_pick(int64_t k, int n) { return (int)(inst_word(k) % (unsigned)n); }
#define bool_sym(k) inst_bool(k)
#define vf_assume(c) do { if (!(c)) return; } while (0)
#undef W
#define W(n) INL void body_##n(); extern "C" void w_##n() { for (vf_inst = 1; vf_inst <= VF_LARGE; vf_inst++) body_##n(); } INL void body_##n()
#endif
