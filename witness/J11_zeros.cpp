#include "ring.h"
#include "sorts.h"
#include "altruct/algorithm/math/polynoms.h"
using namespace altruct::math;
INL double ab(double x) { return x < 0 ? -x : x; }
struct Cubic { double a, b, c; int dir; double operator()(double x) const { return dir * (a * x * x * x + b * x + c); } };
// monotonic functions of either direction: every value attained in the interval is found
#define MONO(TAG, A, B, C) W(monotonic_##TAG) { for (int dir = -1; dir <= 1; dir += 2) { Cubic f{ A, B, C, dir }; for (int b = -3; b <= 2; b++) for (int e = b + 1; e <= b + 4; e++) for (int t = 4 * b; t <= 4 * e; t++) { double x = t / 4.0 + (t > 4 * b && t < 4 * e ? 0.0625 * (t % 3) - 0.03 : 0), y = f(x); double r = monotonic_search<Cubic, double>(f, b, e, y); vf_true("inside the interval", r >= b && r <= e); vf_true("value attained", ab(f(r) - y) <= 1e-9); } } }
MONO(line, 0, 1, 0) MONO(shifted, 0, 0.5, -3) MONO(cubic, 1, 0.25, 1) MONO(steep, 2, 3, 0)
W(monotonic_tolerance) { Cubic f{ 0, 1, 0, 1 }; for (int y = -4; y <= 4; y++) { double r = monotonic_search<Cubic, double>(f, -5, 5, y + 0.3, 0.125); vf_true("within the tolerance of the value", ab(f(r) - (y + 0.3)) <= 0.125); r = monotonic_search<Cubic, double>(f, -5, 5, y + 0.3, 0, 0.25); vf_true("within the tolerance of the argument", ab(r - (y + 0.3)) <= 0.25); } }
// all real zeros, in order, and nothing else
template<int N> INL void zeros(const double (&z)[N], double lead, double shift) { polynom<double> p{ lead }; for (int i = 0; i < N; i++) p *= polynom<double>{ -z[i], 1 }; if (shift != 0) p *= polynom<double>{ shift, 0, 1 }; auto r = find_zeros<double, double>(p, 64, 1e-4); bool up = true, real = true; for (int i = 0; i < (int)r.size(); i++) { bool hit = false; for (int j = 0; j < N; j++) hit = hit || ab(r[i] - z[j]) < 0.01; real = real && hit; up = up && (i == 0 || r[i - 1] <= r[i]); } vf_true("only zeros", real); vf_true("in order", up); for (int j = 0; j < N; j++) { bool hit = false; for (int i = 0; i < (int)r.size(); i++) hit = hit || ab(r[i] - z[j]) < 1e-2; vf_true("every zero", hit); } bool simple = true; for (int j = 0; j < N; j++) for (int k = 0; k < j; k++) simple = simple && z[j] != z[k]; if (simple && shift == 0) vf_true("simple zeros once", (int)r.size() == N); }
W(zeros_1) { for (int a = -3; a <= 3; a++) for (int l = -2; l <= 3; l += 5) { zeros<1>({ a * 1.5 }, l, 0); zeros<1>({ a * 1.5 }, l, 2); } }
W(zeros_2) { for (int a = -3; a <= 3; a++) for (int b = a; b <= 3; b++) for (int l = -1; l <= 1; l += 2) zeros<2>({ a * 1.0, b * 1.0 }, l, 0); zeros<2>({ -1, 3 }, 1, 5); zeros<2>({ 0.25, 60 }, 1, 0); }
W(zeros_3) { for (int a = -2; a <= 2; a++) for (int b = a + 1; b <= 3; b++) for (int c = b + 1; c <= 4; c++) zeros<3>({ a * 1.0, b * 1.0, c * 1.0 }, a - 0.5, 0); zeros<3>({ 1, 2, 2 }, 1, 0); zeros<3>({ 1, 1, 2 }, 1, 0); zeros<3>({ -0.5, 0.125, 7 }, 2, 3); }
W(zeros_4) { zeros<4>({ -3, -1, 0, 5 }, 1, 0); zeros<4>({ -2, -1, 1, 2 }, -1, 0); zeros<4>({ 1, 2, 3, 4 }, 1, 0); zeros<5>({ -2, -1, 0, 1, 2 }, 1, 0); }
W(zeros_none) { polynom<double> p{ 1, 0, 1 }, q{ 2 }, s{ 1, 1, 1, 1, 1 }; vf_true("no zeros", find_zeros<double, double>(p, 64, 1e-6).empty() && find_zeros<double, double>(q, 64, 1e-6).empty() && find_zeros<double, double>(s, 64, 1e-6).empty()); }
