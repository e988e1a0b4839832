// Instantiates the integer-generic parts of the library with 64-bit integers; only its syntax tree is looked at.
#include <functional>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include "altruct/algorithm/math/base.h"
#include "altruct/algorithm/math/bits.h"
#include "altruct/algorithm/math/primes.h"
#include "altruct/algorithm/math/factorization.h"
#include "altruct/algorithm/math/modulos.h"
#include "altruct/algorithm/math/fractions.h"
#include "altruct/algorithm/math/sums.h"
#include "altruct/algorithm/math/divisor_sums.h"
#include "altruct/algorithm/math/mertens.h"
#include "altruct/algorithm/math/prime_counting.h"
#include "altruct/algorithm/math/prime_pi.h"
#include "altruct/algorithm/math/triples.h"
#include "altruct/algorithm/math/squares_r.h"
#include "altruct/algorithm/math/convergents.h"
#include "altruct/algorithm/math/comb_primes.h"
#include "altruct/algorithm/math/comb_mod_pp.h"
#include "altruct/algorithm/math/counting.h"
#include "altruct/algorithm/math/pell.h"
#include "altruct/algorithm/math/recurrence.h"
#include "altruct/algorithm/math/ranges.h"
#include "altruct/algorithm/math/reduce.h"
#include "altruct/algorithm/math/sequences.h"
#include "altruct/algorithm/search/binary_search.h"
#include "altruct/structure/math/modulo.h"
#include "altruct/structure/math/fraction.h"
#include "altruct/structure/math/quadratic.h"
#include "altruct/structure/math/polynom.h"
#include "altruct/structure/math/fenwick_tree.h"
#include "altruct/structure/math/prime_holder.h"
#include "altruct/structure/math/matrix.h"
#include "altruct/structure/container/sqrt_map.h"
using namespace altruct::math; typedef int64_t L; typedef std::pair<L, int> PE;
void w_base(L a, L b, L c) {
    absT<L>(a); minT<L>(a, b); maxT<L>(a, b); boundT<L>(a, b, c); powT<L, L>(a, b); powT<modulo<L, 1000000007, modulo_storage::CONSTANT>, L>(a, b); gcd<L>(a, b); L x, y; gcd_ex<L>(a, b, &x, &y); gcd_max<L>(a, b); lcm<L>(a, b); sqT<L>(a); sqrtT<L>(a); is_square<L>(a); cbT<L>(a); cbrtT<L>(a); is_cube<L>(a); div_floor<L>(a, b); div_ceil<L>(a, b); div_round<L>(a, b); multiple<L>(a, b);
    castOf<L>(a); identityOf<L>(a); zeroOf<L>(a);
}
void w_mertens(L n, std::map<L, L>& tbl, altruct::container::sqrt_map<L, L>& pi, const int* pa, int m) { mertens<L, L>(n, tbl, 1); mertens_odd<L, L>(n, tbl, 1); mertens_even<L, L>(n, tbl, 1); mertens<L>(n, pi, pa, m, L(1)); mertens_odd<L>(n, pi, pa, m, L(1)); mertens_even<L>(n, pi, pa, m, L(1)); }
void w_pi(L n, const int* p, const int* pi) { prime_power_sum_sqrt<L, L>(1, n, 1); prime_sum_sqrt<L, L>(n, 1); prime_sum<L, L>(n, 1); prime_pi_sqrt<L>(n); prime_pi<L>(n); prime_pi13_sqrt<L>(n); prime_pi1<L>(n); prime_pi3<L>(n); prime_pi_deprecated<L, int>(n, pi, p); }
void w_sums(L a, L b, L q, L n) { sum_ratio<L, L>(a, b, q, n); sum<L, L>([](L k) { return k; }, a, b); sum_pow<L, L>(3, n); sum_powx<L, L>(3, a, n); sum_sqrt<L, L>([](L k) { return k; }, n); sum_sqrt2m<L, L>([](L k) { return k; }, [](L k) { return k; }, n); sum_sqrt2m<L, L>([](L k) { return k; }, [](L k) { return k; }, [](L k) { return k; }, n); sum_sqrt2<L, L>([](L k, L) { return k; }, n); }
void w_divisor_sums(L n, std::map<L, L>& tbl, const int* pa, int m) {
    sum_m<L, L>([](L k) { return k; }, [](L k) { return k; }, n, tbl, L(1)); sum_m<L, L>([](L k) { return k; }, n, tbl, L(1)); sqfree_count<L, L>(n, tbl, L(1)); make_sqrt_map<L, L>([](L k) { return k; }, n); std::vector<L> vn{ n }; sum_phi_D_L<L>(2, 3, vn, 10, L(1)); sum_phi_D_L<L>(2, 3, n, 10, L(1)); sum_phi<L, L>(n, L(1));
    altruct::container::sqrt_map<L, L> s(10, n); auto f = [](L x, int p, int e) { return x * p + e; }; sum_multiplicative<L>(s, f, n, pa, m, L(1)); L ps[3] = { 2, 3, 5 }; coprime_sum<L, L>(ps, ps + 3, n, [](L k, L) { return k; });
}
void w_fractions(L n, L p, L q) { fraction<L> f(p, q), g(q, p); farey_neighbour<L>(n, f, g); repeating_decimal<L>(10, p, q); L r; rational_digit<L>(n, 10, p, q, &r); rational_digits<L>(n, 5, 10, p, q); f += g; f -= g; f *= g; f /= g; f %= g; (void)(f < g); (void)(f == g); -f; }
void w_factorization(L n, std::vector<PE>& vf) { miller_rabin<L>(n); pollard_rho_repeated<L>(n); factor_integer<L>(n); factor_integer_slow<L>(n); int e; factor_out<L, L>(n, L(2), e); from_factorization<L>(vf); std::vector<L> vp; from_primes<L, L>(vp, n, [](const std::vector<PE>&, L) {}); divisors<L>(vf); std::vector<L> vd; squarefree_signed_divisors<L>(vd, vf); prime_factors<L>(vf); prime_exponents<L>(vf); divisor_sigma0<L>(vf); euler_phi<L>(vf); carmichael_lambda<L>(vf); integer_digits<L, int>(n, 10); std::vector<int> d; from_digits<L, int>(d, 10); integer_string<L, int>(n, 10); std::vector<L> nu; std::vector<L> de; fraction_reduce<L, L>(nu, de, [](L a, L b) { return gcd(a, b); }); }
void w_modulos(L a, L b, L m, std::vector<PE>& vf, std::vector<L>& fs) {
    L r, s; chinese_remainder<L>(&r, &s, a, m, b, m); chinese_remainder<L>(&r, &s, a, m); chinese_remainder<L>(a, m, b, m); jacobi<L>(a, m); sqrt_cipolla<L>(a, m); sqrt_hensel_lift<L>(a, m, b); sqrt_hensel_lift_p2<L>(a, b); sqrt_mod<L, L>(a, vf); multiplicative_order<L, L>(a, m, b, fs); primitive_root<L, L>(m, b, fs); primitive_root_of_unity<L>(m, b, fs); kth_roots_of_unity<L>(m, a, b, a); kth_roots<L>(m, a, b, a, b);
    discrete_log_brute_force<L>(a, b, m); discrete_log_baby_giant<L>(a, b, m, m); discrete_log_shanks<L>(a, b, m); discrete_log_oddp<L>(a, b, m); discrete_log_p2<L>(a, b, 5); discrete_log_pp<L>(a, b, m, 3); discrete_log<L, L>(a, b, m, m, fs);
    std::vector<moduloX<L>> v{ moduloX<L>(a, m) }; garner(v);
}
void w_modulo(L a, L b) {
#define MOD(M) { M x(a), y(b); x += y; x -= y; x *= y; x /= y; x %= y; -x; (void)(x == y); (void)(x < y); x.inv(); powT(x, b); }
    typedef modulo<L, 1000000007, modulo_storage::CONSTANT> MC; typedef modulo<L, 1, modulo_storage::STATIC> MS; MOD(MC) MOD(MS) moduloX<L> x(a, b), y(b, b); x += y; x -= y; x *= y; x /= y; -x; x.inv(); modulo_normalize<L>(a, b); modulo_add<L>(a, b, b); modulo_sub<L>(a, b, b); modulo_neg<L>(a, b); modulo_mul<L>(a, b, b); modulo_inv<L>(a, b); modulo_div<L>(a, b, b);
}
void w_triples(L n, std::vector<PE>& vf) { pythagorean_triples<L>(n, true); pythagorean_triples_fixed_leg<L>(n, vf); eisenstein_triples60<L>(n, true, [](L, L, L) {}); eisenstein_triples60<L>(n, true); eisenstein_triples120<L>(n, true); almost_pythagorean_triples<L>(n); pythagorean_triples_generators<L>(n); }
void w_squares(L n, std::vector<PE>& vf) { cornacchia<L>(n, n); squares_r_prime<L>(n); squares_r_prime_table<L>(n); std::unordered_map<L, std::pair<L, L>> t; squares_r_list<L, L>(vf, true, t, n); squares_r_list<L, L>(vf, true); squares_r<L, L>(vf, true); }
void w_convergents(L p, L q, L n) { sqrt_convergent<L>(n, q); auto v = continued_fraction<L>(p, q); convergents<L>(v, n); line_closest_lattice_point<L>(p, q, n, p, q); minimize_floor_ladder<L>(p, q, n, p, q, p, q); }
void w_comb(L n, L k, L p, std::vector<L>& v) { factorial_prime_exponent<L>(n, p); binomial_prime_exponent<L>(n, k, p); multinomial_prime_exponent<L>(v.begin(), v.end(), p); multinomial_prime_exponent<L>(v, p); multinomial<L>(v.begin(), v.end(), L(1)); elements_multinomial<L>(v.begin(), v.end(), L(1)); stirling_s2<L, L>(n, 5, L(1));
    std::vector<L> t; factorial_mod_pp_skipped_slow<L, L>(n, 3, 2); factorial_mod_pp_reduced_slow<L, L>(n, 3, 2); binomial_mod_pp_reduced_slow<L, L>(n, k, 3, 2); factorial_mod_pp_reduced_2<L, L>(n, 3, 2, t.data()); binomial_mod_pp_reduced_2<L, L>(n, k, 3, 2, t.data()); factorial_mod_pp_skipped<L, L>(n, 3, 2, t.data()); factorial_mod_pp_reduced<L, L>(n, 3, 2, t.data()); binomial_mod_pp_reduced<L, L>(n, k, 3, 2, t.data()); }
void w_pell(L d, L n, std::vector<PE>& vf) { L x, y; pell1<L>(d, n, x, y); std::vector<L> a, b; pellS<L>(d, n, a, b); pell_mz<L>(d, n, n, x, y); pell<L, L>(d, n, vf); pell1<L>(d, n, n, n, 5); pell<L, L>(d, n, vf, n, n, 5); }
void w_recurrence(L n, std::vector<L>& f, std::vector<L>& i) { linear_recurrence<L, L, L>(f, i, n); fibonacci<L, L>(n, 1); lucas_l<L, L>(n, 1); lucas_u<L, L>(n, n, n); lucas_v<L, L>(n, n, n); typedef modulo<L, 1000000007, modulo_storage::CONSTANT> M; fibonacci<M, L>(n, M(1)); polynom<M> p, q; powT(p, n); }
void w_structures(L n) { altruct::container::sqrt_map<L, L> m(10, n); m[n]; const auto& c = m; c.at(n); c.count(n); m.reset_max(n); m.el(n); fenwick_tree<L, std::plus<L>> f(10, std::plus<L>(), L(0)); f.get_sum(3); f.add(3, n); quadraticX<L> q(n, n, n); q *= q; q += q; q /= q; matrix<L> a(2, 2); powT(a, n); }
