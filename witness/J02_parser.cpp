#include "ring.h"
#include "sorts.h"
#include <cmath>
#include "altruct/algorithm/parser/shunting_yard.h"
using namespace altruct::parser::shunting_yard;
typedef infix_token::type_t K;
typedef postfix_token::type_t P;
INL int pick(int i, int n) { int v = 0; for (int b = 0; (1 << b) < n; b++) v += bool_sym(4 * i + b) ? 1 << b : 0; vf_assume(v < n); return v; }
// every well-formed sequence of L tokens over operands, two binary operators, a prefix (and a postfix) operator, parentheses, functions and separators, for the given precedences and associativity
enum { OPND, B0, B1, PRE, LP, RP, FN, SEP, POST };
template<int L, int KINDS> struct input {
    int k[L + 1]; bool top; int end[L + 1], close[L + 1];
    INL input() { for (int i = 0; i < L; i++) k[i] = pick(i, KINDS); k[L] = -1; }
    // grammar, as a machine with a stack of parentheses
    INL void well_formed() {
        bool after = false; int depth = 0; bool fn[L + 2]; for (int i = 0; i < L + 2; i++) fn[i] = false; fn[0] = true;
        for (int i = 0; i < L; i++) {
            bool call = i > 0 && k[i - 1] == FN, open = i > 1 && k[i - 1] == LP && k[i - 2] == FN; int t = k[i];
            vf_assume(!call || t == LP);
            if (t == OPND) { vf_assume(!after); after = true; }
            else if (t == B0 || t == B1) { vf_assume(after); after = false; }
            else if (t == PRE) vf_assume(!after);
            else if (t == POST) vf_assume(after);
            else if (t == LP) { vf_assume(!after); depth++; for (int d = 1; d <= L; d++) if (d == depth) fn[d] = call; }
            else if (t == RP) { vf_assume((after || open) && depth > 0); depth--; after = true; }
            else if (t == FN) vf_assume(!after);
            else { bool in = false; for (int d = 0; d <= L; d++) if (d == depth) in = fn[d]; vf_assume(after && in); after = false; }
        }
        vf_assume(after && depth == 0);
    }
    // end[i]: first position that does not belong to the right operand of the operator at i (for a function or parenthesis: past its end)
    template<class PREC> INL void ranges(PREC prec, const bool (&right)[4]) {
        for (int i = L - 1; i >= 0; i--) {
            int depth = 0; close[i] = L; bool done = false;
            for (int j = i; j < L; j++) if (!done) { if (k[j] == LP) depth++; if (k[j] == RP) { depth--; if (depth == 0) { close[i] = j + 1; done = true; } } }
        }
        for (int i = L - 1; i >= 0; i--) {
            end[i] = i + 1;
            if (k[i] == FN) { for (int q = 0; q <= L; q++) if (i + 1 < L && q == i + 1) end[i] = close[q]; }
            else if (k[i] == LP) end[i] = close[i];
            else if (k[i] == B0 || k[i] == B1 || k[i] == PRE) {
                int e = i + 1 < L ? end[i + 1] : L; // a primary or the range of a prefix operator
                for (int q = i + 2; q < L; q++) if (q == e && (k[q] == B0 || k[q] == B1 || k[q] == POST)) { int a = prec(k[q]), b = prec(k[i]); bool r = right[0]; for (int w = 0; w < 4; w++) if (k[q] == w) r = right[w]; bool takes = a > b || (a == b && (k[q] == POST ? false : r)); if (takes) e = end[q]; }
                end[i] = e;
            }
        }
    }
};
#define YARD(TAG, L, KINDS, P0, P1, PU, PP, R0, R1) W(yard_##TAG##_##L##_##KINDS) { input<L, KINDS> in; in.well_formed(); auto prec = [](int k) { return k == B0 ? P0 : k == B1 ? P1 : k == PRE ? PU : PP; }; bool right[4] = { false, R0, R1, true }; in.ranges(prec, right); \
  std::vector<operator_desc> ops{ { 0, operator_desc::assoc_t::LEFT, operator_desc::arity_t::BINARY }, { P0, R0 ? operator_desc::assoc_t::RIGHT : operator_desc::assoc_t::LEFT, operator_desc::arity_t::BINARY }, { P1, R1 ? operator_desc::assoc_t::RIGHT : operator_desc::assoc_t::LEFT, operator_desc::arity_t::BINARY }, { PU, operator_desc::assoc_t::RIGHT, operator_desc::arity_t::UNARY }, { 0, operator_desc::assoc_t::LEFT, operator_desc::arity_t::BINARY }, { 0, operator_desc::assoc_t::LEFT, operator_desc::arity_t::BINARY }, { 0, operator_desc::assoc_t::LEFT, operator_desc::arity_t::BINARY }, { 0, operator_desc::assoc_t::LEFT, operator_desc::arity_t::BINARY }, { PP, operator_desc::assoc_t::LEFT, operator_desc::arity_t::UNARY } }; \
  std::vector<infix_token> t; for (int i = 0; i < L; i++) { int k = in.k[i]; t.push_back({ k == OPND ? K::OPERAND : k == LP ? K::LEFT_PARENTHESIS : k == RP ? K::RIGHT_PARENTHESIS : k == FN ? K::FUNCTION : k == SEP ? K::SEPARATOR : K::OPERATOR, k == OPND || k == FN ? i : k }); } \
  auto r = infix_to_postfix(t, ops); int n = 0; for (int i = 0; i < L; i++) n += in.k[i] != LP && in.k[i] != RP && in.k[i] != SEP; vf_true("every operand and operation once", r.size() == (size_t)n); \
  for (int i = 0; i < L; i++) { int k = in.k[i]; if (k == LP || k == RP || k == SEP) continue; int pos = 0; \
    for (int j = 0; j < L; j++) if (j != i) { int q = in.k[j]; bool em = q != LP && q != RP && q != SEP; bool wraps_j = (q == B0 || q == B1 || q == PRE || q == FN) && j < i && i < in.end[j], wraps_i = (k == B0 || k == B1 || k == PRE || k == FN) && i < j && j < in.end[i]; pos += em && ((j < i && !wraps_j) || wraps_i); } \
    int args = k == OPND ? 0 : k == PRE || k == POST ? 1 : 2; if (k == FN) { int seps = 0, depth = 0; bool some = false; for (int j = i + 1; j < L; j++) if (j < in.end[i]) { if (in.k[j] == LP) depth++; else if (in.k[j] == RP) depth--; else { some = true; if (in.k[j] == SEP && depth == 1) seps++; } if (in.k[j] == LP && depth > 1) some = true; } args = some ? seps + 1 : 0; } \
    for (int p = 0; p < L; p++) if (p == pos) { vf_true("type of the token in its place", (r[p].type == P::OPERAND) == (k == OPND)); vf_true("operand or operation in its place", r[p].id == (k == OPND || k == FN ? i : k)); vf_true("number of arguments", r[p].num_args == args); } } }
YARD(binary_lr, 3, 3, 1, 2, 9, 0, false, true) YARD(binary_lr, 5, 3, 1, 2, 9, 0, false, true) YARD(binary_rl, 5, 3, 1, 2, 9, 0, true, false) YARD(binary_same_left, 5, 3, 1, 1, 9, 0, false, false) YARD(binary_same_right, 5, 3, 1, 1, 9, 0, true, true) YARD(binary_lr, 7, 3, 1, 2, 9, 0, false, true)
YARD(prefix_high, 4, 4, 1, 2, 9, 0, false, true) YARD(prefix_high, 5, 4, 1, 2, 9, 0, false, true) YARD(prefix_high, 6, 4, 1, 2, 9, 0, false, true) YARD(prefix_middle, 4, 4, 1, 9, 5, 0, false, true) YARD(prefix_middle, 5, 4, 1, 9, 5, 0, false, true) YARD(prefix_middle, 6, 4, 1, 9, 5, 0, false, true) YARD(prefix_low, 5, 4, 2, 3, 1, 0, false, true)
YARD(parens, 1, 6, 1, 2, 9, 0, false, true) YARD(parens, 3, 6, 1, 2, 9, 0, false, true) YARD(parens, 5, 6, 1, 2, 9, 0, false, true) YARD(parens, 6, 6, 1, 2, 9, 0, false, true) YARD(parens, 7, 6, 1, 2, 9, 0, false, false)
YARD(calls, 3, 8, 1, 2, 9, 0, false, true) YARD(calls, 4, 8, 1, 2, 9, 0, false, true) YARD(calls, 5, 8, 1, 2, 9, 0, false, true) YARD(calls, 6, 8, 1, 2, 9, 0, false, true) YARD(calls, 7, 8, 1, 2, 9, 0, false, true)
YARD(postfix, 4, 9, 1, 2, 9, 8, false, true) YARD(postfix, 5, 9, 1, 2, 9, 10, false, true)
#ifdef VF_BIG
YARD(calls, 8, 8, 1, 2, 9, 0, false, true) YARD(calls, 9, 8, 2, 1, 9, 0, false, true) YARD(parens, 9, 6, 2, 1, 3, 0, true, false) YARD(postfix, 6, 9, 1, 2, 9, 8, false, true) YARD(binary_lr, 11, 3, 1, 2, 9, 0, false, true)
#endif
// evaluation
INL postfix_token op(int i) { return { P::OPERAND, i, 0 }; }
INL postfix_token fn(int i, int n) { return { P::FUNCTION, i, n }; }
struct evs { struct call { int id; INL R operator()(R* a) const { return id == 0 ? -a[0] : id == 1 ? rhandle(a[0], ring_fn2(51, a[0].h, a[1].h)) : id == 2 ? rhandle(a[0], ring_fn2(52, ring_fn2(53, a[0].h, a[1].h), a[2].h)) : R(7); } }; INL call operator[](int i) const { return { i }; } };
#define F2(a, b) rhandle(a, ring_fn2(51, (a).h, (b).h))
W(evaluate) { std::vector<R> x; for (int i = 0; i < 4; i++) x.push_back(rsym(i)); auto ev = [&](std::vector<postfix_token> t) { return evaluate_postfix<R>(t, x, evs()); };
  { auto r = ev({}); vf_true("nothing", r.empty()); } { auto r = ev({ op(2) }); vf_true("one value", r.size() == 1); EQ("operand", r[0], x[2]); }
  { auto r = ev({ op(0), op(1), fn(1, 2) }); vf_true("one value", r.size() == 1); EQ("arguments in order", r[0], F2(x[0], x[1])); } { auto r = ev({ op(0), op(1), op(2), fn(1, 2), fn(1, 2) }); EQ("right nested", r[0], F2(x[0], F2(x[1], x[2]))); }
  { auto r = ev({ op(0), op(1), fn(1, 2), op(2), fn(0, 1), fn(1, 2) }); vf_true("one value", r.size() == 1); EQ("left nested, unary", r[0], F2(F2(x[0], x[1]), -x[2])); } { auto r = ev({ op(3), op(2), op(1), fn(2, 3), op(0) }); vf_true("one value per expression", r.size() == 2); EQ("three arguments", r[0], rhandle(x[0], ring_fn2(52, ring_fn2(53, x[3].h, x[2].h), x[1].h))); EQ("second expression", r[1], x[0]); }
  { auto r = ev({ fn(3, 0) }); vf_true("one value", r.size() == 1); EQ("no arguments", r[0], R(7)); } { auto r = ev({ op(0), fn(3, 0), fn(1, 2) }); EQ("no arguments, as an argument", r[0], F2(x[0], R(7))); } }
// operation tables
W(table_basic) { typedef basic_math<R> B; auto& e = B::evaluators(); auto& o = B::operators(); R a[2] = { rsym(0), rsym(1) }; EQ("negation", e[B::NEG](a), -a[0]); EQ("product", e[B::MUL](a), a[0] * a[1]); EQ("quotient", e[B::DIV](a), a[0] / a[1]); EQ("sum", e[B::ADD](a), a[0] + a[1]); EQ("difference", e[B::SUB](a), a[0] - a[1]);
  vf_true("arity", o[B::NEG].num_args() == 1 && o[B::MUL].num_args() == 2 && o[B::DIV].num_args() == 2 && o[B::ADD].num_args() == 2 && o[B::SUB].num_args() == 2); vf_true("precedence", o[B::NEG].precedence > o[B::MUL].precedence && o[B::MUL].precedence == o[B::DIV].precedence && o[B::DIV].precedence > o[B::ADD].precedence && o[B::ADD].precedence == o[B::SUB].precedence); vf_true("associativity", o[B::MUL] < o[B::DIV] && o[B::SUB] < o[B::SUB] && !(o[B::NEG] < o[B::NEG])); }
#define OPI(NAME, EXPR) vf_true("operator " #NAME, e[B::NAME](a) == (int)(EXPR));
W(table_integer) { typedef integer_math<int> B; auto& e = B::evaluators(); auto& o = B::operators(); int a[2] = { pick(0, 8) - 3, pick(1, 8) - 3 }; int x = a[0], y = a[1]; OPI(NEG, -x) OPI(MUL, x * y) OPI(ADD, x + y) OPI(SUB, x - y) OPI(LTE, x <= y) OPI(GTE, x >= y) OPI(LT, x < y) OPI(GT, x > y) OPI(EQ, x == y) OPI(NEQ, x != y) OPI(BIT_NOT, -1 - x) OPI(BIT_AND, x & y) OPI(BIT_XOR, (x | y) - (x & y)) OPI(BIT_OR, x | y) OPI(LOG_NOT, x == 0) OPI(LOG_AND, x != 0 && y != 0) OPI(LOG_XOR, (x != 0) != (y != 0)) OPI(LOG_OR, x != 0 || y != 0)
  if (y != 0) { OPI(DIV, x / y) OPI(MOD, x - x / y * y) } if (y >= 0 && x >= 0) { OPI(SHL, x * (1 << y)) OPI(SHR, x / (1 << y)) }
  for (int i = B::NEG; i <= B::LOG_OR; i++) vf_true("unary operators", (o[i].num_args() == 1) == (i == B::NEG || i == B::BIT_NOT || i == B::LOG_NOT)); }
