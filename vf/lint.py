"""Rules over the facts that tool/gast.cpp extracts from the type-checked syntax trees."""
import glob, json, os
from concurrent.futures import ThreadPoolExecutor
import common as c

BASE = ['-x', 'c++', '-pthread', '-w', '-fms-extensions', '-fms-compatibility', '-fms-compatibility-version=19.30', '-U_MSC_VER',
        '-fno-delayed-template-parsing', '-include', os.path.join(c.VERIF, 'vf', 'gnuc_macros.h')]
CONFIGS = {'libc++ gnu++14': ['-stdlib=libc++', '-std=gnu++14'], 'libc++ gnu++17': ['-stdlib=libc++', '-std=gnu++17'],
           'libstdc++ gnu++14': ['-std=gnu++14'], 'libstdc++ gnu++17': ['-std=gnu++17']}


def facts(src, inst=False, config='libc++ gnu++14', extra=(), root=None):
    """(facts, errors) of one translation unit"""
    res = facts.res = getattr(facts, 'res', None) or c.sh([c.CLANG, '-print-resource-dir']).stdout.strip()
    cmd = [c.tool('gast')] + (['--inst'] if inst else []) + ['--root=' + (root or c.REPO + '/'), src, '--'] + BASE + CONFIGS[config] + list(extra) + c.INC + ['-I' + os.path.join(c.VERIF, 'witness'), '-resource-dir', res]
    r = c.sh(cmd)
    errs = [l for l in r.stderr.splitlines() if 'error:' in l]
    if r.returncode and not errs:
        errs = ['analyser failed: ' + r.stderr[-300:]]
    return [json.loads(l) for l in r.stdout.splitlines() if l.startswith('{')], errs


def headers():
    hs = []
    for d in ('include', 'experimental/include'):
        for p, _, fs in os.walk(os.path.join(c.REPO, d)):
            hs += [os.path.join(p, f) for f in fs if f.endswith('.h')]
    return sorted(hs)


def sources():
    return sorted(glob.glob(os.path.join(c.REPO, 'src', '**', '*.cpp'), recursive=True))


def rel(p):
    return os.path.relpath(p, c.REPO)


def per_file(kinds, rule, title, extra=('-include', 'utility')):
    """Analyses every header and source of its own; rule(fact) -> None or what is wrong.  One obligation per file."""
    files = headers() + sources()
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda f: facts(f, extra=extra), files))
    bad, n, sites = {}, 0, set()
    for fs, errs in rs:
        for f in fs:
            if f['kind'] in kinds:
                key = (f['file'], f['line'], f['name'], f['kind'])
                if key in sites:
                    continue
                sites.add(key)
                w = rule(f)
                if w:
                    bad.setdefault(f['file'], []).append('%s:%d %s: %s' % (f['file'], f['line'], f['name'], w))
    obls = []
    for f, (fs, errs) in zip(files, rs):
        r = rel(f)
        b = bad.pop(r, [])
        if errs:
            obls.append(c.obl(r + ' / ' + title, 'UNDECIDED', errs[0][:600], r))
        else:
            obls.append(c.obl(r + ' / ' + title, 'FAIL' if b else 'ok', '; '.join(b)[:1000], r))
    for r, b in bad.items():
        obls.append(c.obl(r + ' / ' + title, 'FAIL', '; '.join(b)[:1000], r))
    return obls, [{'files': len(files), 'sites': len(sites), 'rule': title}]


# ---------------------------------------------------------------------------------------------- G01
# mutable objects of static storage duration that are documented or inherent (name only: what they are follows each)
STATE = {
    'polynomial_hash.h': {'W', 'WI', 'M', 'B', 'BI'},  # class-wide hash parameters, set once
    'modulo.h': {'_M'}, 'quadratic.h': {'_D'}, 'series.h': {'_N'},  # *_storage::STATIC: a class-wide value, by name
    'vector2d.h': {'EPS'}, 'vector3d.h': {'EPS'},  # tunable tolerance
    'root_wrapper.h': {'tables'},  # grows, never changes an entry
    'prime_pi.h': {'tbl'}, 'nimber.h': {'tbl'},  # memo tables
    'shunting_yard.h': {'operators', 'evaluators'},  # user-extensible tables
    'mersenne_twister.h': {'differ'},  # counter that makes time seeds differ
    'fast_io.h': {'fin', 'fout', 'ferr'}, 'reader.h': {'fin', 'sin'}, 'writer.h': {'fout', 'sout', 'ferr', 'serr'},  # the standard streams
    'iostream_overloads.h': {'iostream_pair_state', 'iostream_container_state', 'iostream_map_state'},
    'iostream_overloads.cpp': {'iostream_pair_state', 'iostream_container_state', 'iostream_map_state'},
    'factorization.h': {'bases1', 'bases2', 'bases3', 'bases4', 'bases5', 'bases6', 'bases7', 'bases8', 'bases9'},
    'primes.h': {'c'},
    'bits.cpp': {'_tbl_ilog2_16_full', '_tbl_ilog2_16', '_tbl_ilog2_32', '_tbl_ilog2_64', '_tbl_cnt1_16', '_tbl_rev_4', '_tbl_rev_8', '_tbl_rev_16', '_altruct_math_bits_initialized'},  # filled before main
}


def g01(f):
    short = f['name'].split('::')[-1]
    if f['from']:
        return 'a function-local static is initialised from %s: later calls with other values see the first one' % f['from']
    if f['const'] != '1' and short not in STATE.get(os.path.basename(f['file']), ()):
        if short.startswith('iostream_') and os.path.basename(f['file']).startswith('iostream_overloads'):
            return None
        return 'mutable object of static storage duration (%s): results depend on earlier calls and on other threads' % f['type']
    return None


# ---------------------------------------------------------------------------------------------- G02
def g02(f):
    if f['frees']:
        for k, what in (('cc', 'copy constructor'), ('ca', 'copy assignment')):
            if f[k] in ('implicit', 'defaulted') and not (f[k] == 'implicit' and (f['mc'] not in ('none',) or f['ma'] not in ('none',))):
                return 'its destructor releases memory (%s) but the %s is the memberwise one: two objects release the same memory' % (f['frees'], what)
            if f[k] == 'defaulted':
                return 'its destructor releases memory (%s) but the %s is defaulted' % (f['frees'], what)
        if f['mc'] == 'defaulted' or f['ma'] == 'defaulted':
            return 'its destructor releases memory (%s) but moving is memberwise and leaves the source pointing at it' % f['frees']
    if f['frees'] and (f['shallow_copy'] or f['shallow_move']):
        return 'copy or move constructor takes over pointer %s and leaves the source owning it too' % (f['shallow_copy'] + f['shallow_move'])
    if f['news'] and f['ptr'] and not f['frees']:
        return 'allocates with new but has no destructor that releases'
    if f['self'] and (f['cc'] in ('implicit', 'defaulted') or f['ca'] in ('implicit', 'defaulted')):
        return 'member %s points into the object itself but copies are memberwise and point into the source' % f['self']
    return None


# ---------------------------------------------------------------------------------------------- G03
# where an explicit conversion states a bound that the surrounding algorithm guarantees
EXPLICIT = {'base.h': {'of'}, 'modulo.h': {'modulo_mul'}, 'divisor_sums.h': None, 'prime_pi.h': None}
# words taken apart (decided bit by bit under B01), indices of int tables
WORDS = {'bits.cpp', 'primes.cpp'}


def g03():
    root = os.path.commonpath([c.REPO, c.VERIF]) + '/' if os.path.commonpath([c.REPO, c.VERIF]) != '/' else '/'
    units = [os.path.join(c.VERIF, 'witness', w) for w in ('G03_wide.cpp',)] + sources()
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda f: facts(f, inst=True, extra=('-include', 'utility'), root=root), units))
    files, bad, obls, nfn = {}, {}, [], 0
    rp, vp = c.REPO.lstrip('/') + '/', c.VERIF.lstrip('/') + '/witness/'
    for u, (fs, errs) in zip(units, rs):
        name = os.path.basename(u)
        obls.append(c.obl(name + ' / instantiates for 64-bit integers', 'FAIL' if errs else 'ok', ' | '.join(errs[:3])[:1000], name))
        for f in fs:
            p = '/' + f['file'].lstrip('/') if root == '/' else os.path.join(root, f['file'])
            if p.startswith(c.REPO + '/'):
                r = rel(p)
            elif p.startswith(os.path.join(c.VERIF, 'witness')):
                r = 'signatures'
            else:
                continue
            files.setdefault(r, 0)
            if f['kind'] == 'fn':
                files[r] += 1
                continue
            w = None
            base, fn = os.path.basename(r), f['name'].split('::')[-1]
            if f['kind'] == 'narrow' and f['why'] not in ('fits', 'size'):
                ok = f['implicit'] == '0' and (base in WORDS or base in EXPLICIT and (fn in EXPLICIT[base] if EXPLICIT[base] else f['why'] in ('quotient', 'root')) and not (base == 'modulo.h' and f['from'] != 'uint64_t'))
                if not ok:
                    w = '%s %s is narrowed to %s' % (f['from'], f['expr'], f['to'])
            if f['kind'] == 'widen' and not (base == 'comb_mod_pp.h' and f['expr'] in ('p * e', 'e * p')):
                w = 'product %s is computed in 32 bits and widened to %s afterwards' % (f['expr'], f['to'])
            if w:
                bad.setdefault(r, []).append('%s:%d in %s: %s' % (r, f['line'], f['name'], w))
    for r in sorted(files):
        obls.append(c.obl(r + ' / keeps 64-bit values 64 bits wide', 'FAIL' if r in bad else 'ok', '; '.join(sorted(set(bad.get(r, []))))[:1200], r))
    return obls, [{'units': len(units), 'functions_instantiated': sum(files.values()), 'files': len(files)}]


# ---------------------------------------------------------------------------------------------- G04
def g04():
    hs = headers()
    js = [(h, k) for h in hs for k in CONFIGS]
    c.tool('gast')
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda j: facts(j[0], config=j[1]), js))
    comp, adl, odr = {}, {}, {}
    for (h, k), (fs, errs) in zip(js, rs):
        r = rel(h)
        if errs:
            comp.setdefault(r, []).append(k + ': ' + errs[0][:300])
        for f in fs:
            if f['kind'] == 'adl' and f['file'] == r:
                adl.setdefault(r, set()).add('line %d: %s' % (f['line'], f['name']))
            if f['kind'] == 'odr' and f['file'] == r:
                odr.setdefault(r, set()).add('line %d: %s %s' % (f['line'], f['what'], f['name']))
    obls = []
    for h in hs:
        r = rel(h)
        obls.append(c.obl(r + ' / compiles on its own', 'FAIL' if r in comp else 'ok', '; '.join(comp.get(r, []))[:900], r))
        obls.append(c.obl(r + ' / every name it uses is declared by what it includes', 'FAIL' if r in adl else 'ok', '; '.join(sorted(adl.get(r, [])))[:900], r))
        obls.append(c.obl(r + ' / may be included by several translation units', 'FAIL' if r in odr else 'ok', '; '.join(sorted(odr.get(r, [])))[:900], r))
    return obls, [{'headers': len(hs), 'configurations': sorted(CONFIGS)}]
