"""Which analyses decide which property."""
import os
import common as c
THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'

GVN = 'value numbering of the optimised LLVM IR of a witness that instantiates the repository template with an opaque element type; '


def jobs(*specs):
    """specs: (witness, fn regex, [defs], tag[, obligation regex])"""
    def run():
        return c.gvn_many([dict(witness=s[0], fn=s[1], defs=s[2], tag=s[3], ob=s[4] if len(s) > 4 else None) for s in specs])
    return run


def pga(fn=None, ctx=False):
    d = ['-DVF_CTX'] if ctx else []
    return [('C02_pga.cpp', fn, ['-DVF_PART=%d' % i] + d, 'part%d%s' % (i, '-ctx' if ctx else '')) for i in range(3)]


def ctx(w, fn=None):
    return (w, fn, ['-DVF_CTX'], 'ctx')


def jobs1(*specs):
    """As jobs(), on code with its loops and calls left in place.  specs: (witness[, defs, tag, fn])"""
    return lambda: c.gvn_many([dict(witness=s[0], defs=s[1] if len(s) > 1 else [], tag=s[2] if len(s) > 2 else '', fn=s[3] if len(s) > 3 else None, opt=c.OPT1) for s in specs])


PROPS = {}


def prop(pid, run, note, **kw):
    PROPS[pid] = dict(run=run, note=note, **kw)


prop('C01', jobs(('C01_cl3.cpp', None, [], '')), GVN + 'geometric-product oracle computed from the algebra signature')
prop('C02', jobs(*[j for j in pga()[:1]], ('C02_pga.cpp', r'un_|conv', ['-DVF_PART=2'], 'part2')), GVN + 'oracle: Clifford algebra with one null basis vector')
prop('C03', jobs(('C03_quadratic.cpp', r'alg_|static', [], '')), GVN + 'oracle: (a + b sqrt D) arithmetic written out component-wise')
prop('C04', jobs(('C04_vector.cpp', None, [], '')), GVN + 'oracle: component formulas')
prop('C05', jobs(('C05_moebius.cpp', None, [], '')), GVN + 'functions compared as rational functions of the argument')
prop('C06', jobs(('C06_infinity.cpp', None, [], '')), GVN + 'oracle: the operation tables in the class documentation')
prop('C07', jobs(('C07_fraction.cpp', None, [], '')), GVN + 'value as a rational function; gcd interpreted algebraically')
prop('C08', lambda: c.gvn_many([dict(witness='C08_order.cpp', fn=None, defs=[], tag='', ob=None), dict(witness='C08_containers.cpp', fn=None, defs=[], tag='', ob=None, opt=c.OPT1)]), GVN + 'comparison results as BDDs over component comparisons')
prop('C10', jobs(ctx('C01_cl3.cpp'), *pga(ctx=True), ctx('C03_quadratic.cpp'), ctx('C04_vector.cpp'), ctx('C05_moebius.cpp'), ctx('C06_infinity.cpp'), ctx('C07_fraction.cpp')),
     GVN + 'every element carries a context handle, as a run-time modulus does; the handle of each result component is compared with the one of the operands')

INPLACE = r'[-+*/%]=|in place|self|same object|normalize|reduce'
prop('C09', jobs(('C01_cl3.cpp', None, [], '', INPLACE), ('C02_pga.cpp', 'un_', ['-DVF_PART=2'], 'part2', INPLACE), ('C03_quadratic.cpp', r'asg_|self_', [], ''), ('C04_vector.cpp', r'asg|self', [], ''),
                 ('C05_moebius.cpp', None, [], '', INPLACE), ('C06_infinity.cpp', None, [], '', INPLACE), ('C07_fraction.cpp', None, [], '', INPLACE)),
     GVN + 'in-place operators against the binary ones, including operands that are (part of) the target')
prop('C11', jobs(('C02_pga.cpp', None, ['-DVF_PART=1'], 'part1'), ('C02_pga.cpp', r'inv_|make|diff2', ['-DVF_PART=2'], 'part2')), GVN + 'sandwich, inverses and constructors against the multivector oracle')


BVN = 'bit-level abstract interpretation of the LLVM IR of a witness (one canonical decision diagram per bit; traps mark undefined arithmetic); '


def bjobs(*js):
    return lambda: c.many('bitv', list(js))


prop('B01', bjobs(dict(witness='B01_bits.cpp', init='_GLOBAL__sub_I')), BVN + 'start-up tables by induction over their fill loops')

MODULI = list(range(1, 26)) + [27, 30, 32, 36, 42, 49, 60, 63, 64, 90, 97, 100, 127, 128] if not THOROUGH else list(range(1, 161)) + [192, 210, 240, 251, 255]
M8 = r'^w_(mul|inv)_u?int8_t$'
prop('B02', bjobs(dict(witness='B02_modulo.cpp', fn=r'^w_(add|sub|neg|cls)_'), dict(witness='B02_modulo.cpp', fn=r'^w_norm'), dict(witness='B02_modulo.cpp', fn=r'^w_wide'),
                  dict(witness='B02_modulo.cpp', fn=r'^w_mul_'), *[dict(witness='B02_modulo.cpp', fn=M8, defs=['-DVF_M=%d' % m], tag='m%d' % m) for m in sorted(MODULI, reverse=True)]),
     BVN + 'oracle: exact integer arithmetic')

GVL = 'abstract interpretation of the LLVM IR of a witness (one joined state per program point, element values as normal forms over symbols, guards as BDDs); '
prop('D01', jobs1(('D01_convolution.cpp',)), GVL + 'oracle: the defining sums of the transforms and convolutions', level='other')
prop('D02', jobs1(('D02_polynom.cpp',)), GVL + 'oracle: coefficient formulas of polynomial arithmetic', level='other')
prop('D03', jobs1(('D03_series.cpp',)), GVL + 'oracle: coefficient recurrences, differential equations of exp and ln, composition by Horner', level='other')
prop('D04', jobs1(('D04_matrix.cpp',)), GVL + 'oracle: defining sums, permutation expansion of the determinant, minors for the rank', level='other')
prop('D05', jobs1(*[(w, ['-DVF_CTX'], 'ctx') for w in ('D01_convolution.cpp', 'D02_polynom.cpp', 'D03_series.cpp', 'D04_matrix.cpp', 'D07_ranges.cpp', 'D08_dirichlet.cpp')]), GVL + 'every element carries a context handle, compared with the one of the operands', level='other')
prop('D06', jobs1(('D06_segment_tree.cpp',)), GVL + 'oracle: fold of a plain array; elements are affine maps under composition (non-commutative, free)', level='other')
prop('D07', jobs1(('D07_ranges.cpp',)), GVL + 'oracle: products, recurrences and difference equations written out', level='other')
prop('D08', jobs1(('D08_dirichlet.cpp',)), GVL + 'oracle: the divisor sum or plain sum itself; multiplicative functions have one free symbol per prime power', level='other')

BIG = ['-DVF_BIG'] if THOROUGH else []
CO_NOTE = 'oracle: a plain model (array, adjacency matrix) updated alongside; all orders of the elements, or all graphs, are covered by one symbolic state'
prop('E01', jobs1(('E01_heap.cpp', BIG)), GVL + CO_NOTE, level='other')
prop('E02', jobs1(('E02_bst.cpp', BIG)), GVL + CO_NOTE, level='other')
prop('E03', jobs1(('E03_sequence.cpp', BIG)), GVL + CO_NOTE, level='other')
prop('E04', jobs1(('E04_link_cut.cpp', BIG)), GVL + CO_NOTE, level='other')
prop('E05', jobs1(('E05_graph.cpp', BIG), ('E05_graph.cpp', ['-DVF_LARGE=12'], 'large')), GVL + CO_NOTE, level='other')
prop('E06', jobs1(('E06_undirected.cpp', BIG), ('E06_undirected.cpp', ['-DVF_LARGE=12'], 'large')), GVL + CO_NOTE, level='other')
prop('E07', jobs1(('E07_trees.cpp', BIG), ('E07_trees.cpp', ['-DVF_LARGE=5'], 'large')), GVL + CO_NOTE, level='other')
prop('E08', jobs1(('E08_flow.cpp', BIG)), GVL + CO_NOTE, level='other')
prop('F01', jobs1(('F01_strings.cpp', BIG), ('F01_strings.cpp', ['-DVF_LARGE=9'], 'large')), GVL + CO_NOTE.replace('all orders of the elements, or all graphs, are', 'all strings are'), level='other')
prop('F02', jobs1(('F02_lookup.cpp', BIG)), GVL + CO_NOTE, level='other')
prop('F03', jobs1(('F03_hash.cpp',)), GVL + 'oracle: the polynomial evaluated modulo M', level='other')

NOCMP = r'^w_(build|set|resize|shift|logic|reverse|rotate|swap|apply|apply2|scan)$'


def bvec():
    js = []
    def add(w, n, sizes, cap, fn=None):
        js.append(dict(witness='B03_bit_vector.cpp', tag='%s-%d' % (w, n), fn=fn, defs=['-DVF_W=uint%s_t' % w, '-DVF_CAP=%d' % cap, '-DVF_N=%d' % n, '-DVF_SIZES=' + sizes]))
    if THOROUGH:
        add('64', 130, '64,130', 5, NOCMP)
        add('32', 65, '1,33,65', 5)
        add('8', 26, '0,8,17,26', 7, NOCMP)
        add('8', 20, '0,1,7,8,9,16,17,26', 7)
        add('64', 127, '64,127', 5, NOCMP)
        add('32', 64, '1,32,64', 5)
    add('64', 65, '0,63,64,65', 5)
    add('64', 64, '0,63,64,65', 5)
    for n in (17, 16, 15, 9, 8, 7, 1, 0):
        add('8', n, '0,1,7,8,9,16,17,26', 7)
    for n in (33, 17, 16, 0):
        add('16', n, '0,1,15,16,17,33', 6)
    add('32', 33, '0,1,31,32,33,40', 5)
    add('32', 95, '64,95', 6, r'^w_(reverse|rotate|shift)$')
    return lambda: c.many('bitv', js)


prop('B03', bvec(), BVN + 'oracle: the operation on a plain sequence of bits; std::vector replaced by an array with checked indices', level='other')

prop('B04', bjobs(dict(witness='B04_words.cpp', defs=['-DVF_NIM32'], tag='nim32', fn='nim_pow'), dict(witness='B04_words.cpp', defs=['-DVF_NIM16'], tag='nim16', fn='nim_'), dict(witness='B04_words.cpp', defs=['-DVF_NIM'], tag='nim8', fn='nim_'),
                  dict(witness='B04_words.cpp', defs=['-DVF_SQRT'], tag='sqrt', fn='sqrt_16'), dict(witness='B04_words.cpp', defs=[], tag='')), BVN + 'oracle: exclusive-or / and per bit; the product rule for Fermat powers, expanded on pairs of bits; the stated range', level='other')
prop('B05', bjobs(dict(witness='B05_double_int.cpp', defs=['-DVF_DIGIT'], tag='digit'), dict(witness='B05_double_int.cpp', defs=[], tag='prim', init='_GLOBAL__sub_I')), BVN + 'oracle: two\'s-complement arithmetic of the total width', level='other')

NB = ['-fno-builtin']
IO_NOTE = 'the C library calls are replaced by a device that hands out characters in pieces of any length; oracle: the byte sequence itself'
prop('H01', jobs1(('H01_reader.cpp', NB + BIG)), GVL + IO_NOTE, level='other')
prop('H02', jobs1(('H02_writer.cpp', NB + BIG)), GVL + IO_NOTE, level='other')

NS = NB + ['-fno-threadsafe-statics'] + BIG
prop('E09', jobs1(('E09_allocator.cpp', NS)), GVL + CO_NOTE, level='other')
prop('D09', jobs1(('D09_modular_product.cpp', NS)), GVL + 'oracle: the product by definition', level='other')
prop('J01', jobs1(('J01_permutation.cpp', NS)), GVL + 'oracle: the definition, applied to every element', level='other')
prop('J02', jobs1(('J02_parser.cpp', NS)), GVL + 'oracle: a precedence-climbing recogniser of the grammar', level='other')
prop('J03', jobs1(('J03_sieves.cpp', NS)), GVL + 'oracle: trial division', level='other')
prop('J04', jobs1(('J04_counting.cpp', NS)), GVL + 'oracle: enumeration of the counted objects, trial division', level='other')
prop('J05', jobs1(('J05_modulos.cpp', NS)), GVL + 'oracle: exhaustive search of the residues', level='other')
prop('J06', jobs1(('J06_combinatorial.cpp', NS)), GVL + 'oracle: the exact number, by its definition', level='other')
prop('J07', jobs1(('J07_diophantine.cpp', NS)), GVL + 'oracle: exhaustive search of the window', level='other')
prop('J08', jobs1(('J08_triples.cpp', NS)), GVL + 'oracle: exhaustive search of the window', level='other')
prop('J09', jobs1(('J09_integers.cpp', NS)), GVL + 'oracle: the definition, by exhaustive search', level='other')
prop('J10', jobs1(('J10_random.cpp', NS)), GVL + 'oracle: the published recurrence', level='other')
prop('J11', jobs1(('J11_zeros.cpp', NS)), GVL + 'oracle: polynomials built from their zeros', level='other')

import lint
LN = 'rule over the type-checked syntax tree of every header and source; '
prop('G01', lambda: lint.per_file({'state'}, lint.g01, 'no hidden state'), LN + 'every variable of static storage duration is constant, or is one of the documented class-wide parameters, streams and memo tables', level='other')
prop('G02', lambda: lint.per_file({'owner'}, lint.g02, 'memory has one owner'), LN + 'classes that release memory or point into themselves define or delete both copy operations and do not take over pointers they leave behind', level='other')
prop('G03', lint.g03, 'rule over the instantiated syntax tree: the integer-generic templates are instantiated with 64-bit integers, and no conversion in an instantiated body drops bits of a value that is not bounded by its own operands', level='other')
prop('G04', lint.g04, LN + 'each header alone, in four configurations (two standard libraries, two language levels)', level='other')
prop('G05', jobs1(('G05_parallel.cpp', NS + ['-DVF_STEPS=%d' % (9 if THOROUGH else 6)])), GVL + 'threads and mutexes are stand-ins with free scheduling choices; oracle: lock discipline and job accounting', level='other')
