"""Shared plumbing of the static checks: tool build, analysis compile flags, evidence, known findings, verdict."""
import hashlib, json, os, re, subprocess, sys, tempfile, time, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
OUT = os.path.join(VERIF, 'out')
CLANG = 'clang++-18'
LANG = ['-stdlib=libc++', '-std=gnu++14', '-pthread', '-w', '-fms-extensions', '-fms-compatibility',
        '-fms-compatibility-version=19.30', '-U_MSC_VER', '-fno-delayed-template-parsing',
        '-include', os.path.join(VERIF, 'vf', 'gnuc_macros.h'), '-include', 'utility']
INC = ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'experimental', 'include'), '-I' + os.path.join(REPO, 'src')]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, **kw)


def llvm_flags(which):
    return sh(['llvm-config-18'] + which).stdout.split()


TOOLS = {
    # name: (source, extra link components)
    'gvn': ('gvn.cpp', ['--libs', 'core', 'irreader', 'analysis', 'support']),
    'bitv': ('bitv.cpp', ['--libs', 'core', 'irreader', 'support']),
    'gast': ('gast.cpp', ['clang']),
}


def tool(name):
    """Builds (if the source changed) and returns the path of one of our analysers."""
    src, libs = TOOLS[name]
    src = os.path.join(VERIF, 'tool', src)
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(BUILD, '%s-%s' % (name, h))
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, name + '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        cxx = [f for f in llvm_flags(['--cxxflags']) if not f.startswith('-std=') and f != '-fno-exceptions']
        if libs and libs[0] == 'clang':
            link = ['-l:libclang-cpp.so.18.1', '-L/usr/lib/llvm-18/lib', '-Wl,-rpath,/usr/lib/llvm-18/lib'] + llvm_flags(['--ldflags']) + ['-lLLVM-18']
        else:
            link = llvm_flags(['--ldflags'] + libs)
        cmd = [CLANG, '-O1', '-std=c++17'] + cxx + ['-fexceptions', '-fno-rtti', '-w', src, '-o', exe + '.tmp'] + link
        r = sh(cmd)
        if r.returncode:
            sys.stderr.write(r.stderr[-4000:])
            raise SystemExit(2)
        os.rename(exe + '.tmp', exe)
    return exe


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='vf-')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def obl(name, status, detail='', where=''):
    """One obligation: name is stable under refactoring; status ok | FAIL | UNDECIDED."""
    return {'name': name, 'status': status, 'detail': detail, 'where': where}


# ------------------------------------------------------------------------------------------------ value numbering
OPT = ['-O2', '-fno-vectorize', '-fno-slp-vectorize', '-fno-exceptions', '-fno-strict-aliasing', '-mllvm', '-inline-threshold=1000000',
       '-mllvm', '-unroll-threshold=100000']


# loops and calls left in place: the analyser iterates loops and follows calls itself
OPT1 = ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-exceptions', '-fno-strict-aliasing', '-fno-unroll-loops']


def gvn(witness, fn=None, defs=(), opt=OPT, tag='', ob=None):
    """Returns (obligations, stats) of one witness translation unit, restricted to witness functions matching `fn`."""
    src = os.path.join(VERIF, 'witness', witness)
    base = os.path.splitext(witness)[0] + (':' + tag if tag else '')
    with Scratch() as d:
        bc = os.path.join(d, 'w.bc')
        r = sh([CLANG] + LANG + INC + ['-I' + os.path.join(VERIF, 'witness')] + opt + list(defs) + ['-emit-llvm', '-c', src, '-o', bc])
        if r.returncode:
            first = [l for l in r.stderr.splitlines() if 'error:' in l][:3]
            notes = [l for l in r.stderr.splitlines() if '/include/altruct/' in l][:4]
            return [obl(base + ' / instantiates', 'FAIL', ' | '.join(first + notes)[:1200])], {'witness': witness, 'compile': 'failed'}
        r = sh([tool('gvn'), bc])
        if r.returncode:
            return [obl(base + ' / analysable', 'UNDECIDED', 'analyser failed: ' + (r.stderr or str(r.returncode))[-500:])], {'witness': witness}
        data = json.loads(r.stdout)
    res, fns, cnt = [], set(), {}
    for o in data['obligations']:
        if fn and not re.search(fn, o['fn']):
            continue
        if ob and o['name'] != '<function>' and not re.search(ob, o['name']):
            continue
        fns.add(o['fn'])
        n = '%s / %s / %s' % (base, o['fn'][2:], o['name'])
        res.append(obl(n, o['status'], o['detail'], witness))
    # the same sink may be duplicated by the optimiser (tail duplication): worst status wins
    m = {}
    for o in res:
        p = m.get(o['name'])
        if p is None or (p['status'] == 'ok' and o['status'] != 'ok'):
            m[o['name']] = o
    return list(m.values()), {'witness': witness, 'defs': list(defs), 'functions': len(fns), 'values_numbered': data['values'], 'obligations': len(m)}


BITOPT = ['-O1', '-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero', '-fsanitize-trap=all', '-fno-vectorize', '-fno-slp-vectorize', '-fno-exceptions',
          '-mllvm', '-inline-threshold=1000000', '-mllvm', '-unroll-threshold=100000']


def bitv(witness, fn=None, defs=(), tag='', init=None, opt=BITOPT, extra=None):
    """Bit-precise analysis of one witness translation unit; same result shape as gvn(). `extra` receives exported data."""
    src = os.path.join(VERIF, 'witness', witness)
    base = os.path.splitext(witness)[0] + (':' + tag if tag else '')
    with Scratch() as d:
        bc = os.path.join(d, 'w.bc')
        r = sh([CLANG] + LANG + INC + ['-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(VERIF, 'witness')] + opt + list(defs) + ['-emit-llvm', '-c', src, '-o', bc])
        if r.returncode:
            first = [l for l in r.stderr.splitlines() if 'error:' in l][:3]
            return [obl(base + ' / instantiates', 'FAIL', ' | '.join(first)[:1200])], {'witness': witness, 'compile': 'failed'}
        r = sh([tool('bitv'), bc] + (['--init=' + init] if init else []) + (['--fn=' + fn] if fn else []))
        if r.returncode:
            return [obl(base + ' / analysable', 'UNDECIDED', 'analyser failed: ' + (r.stderr or str(r.returncode))[-500:])], {'witness': witness}
        data = json.loads(r.stdout)
    if extra is not None:
        extra.extend(data['extra'])
    m, n = {}, 0
    for o in data['obligations']:
        n += 1
        nm = '%s / %s / %s' % (base, o['fn'][2:], o['name'])
        p = m.get(nm)
        if p is None or (p['status'] == 'ok' and o['status'] != 'ok'):
            m[nm] = obl(nm, o['status'], o['detail'], witness)
    return list(m.values()), {'witness': witness, 'defs': list(defs), 'functions': data['functions'], 'values_abstracted': data['values'],
                              'diagram_nodes': data['bdd_nodes'], 'program_points_checked': n, 'obligations': len(m)}


def many(kind, jobs):
    f = {'gvn': gvn, 'bitv': bitv}[kind]
    tool(kind)
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda k: f(**k), jobs))
    return sum((o for o, _ in rs), []), [s for _, s in rs]


def gvn_many(jobs):
    """jobs: list of kwargs for gvn(); run in parallel."""
    tool('gvn')
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda k: gvn(**k), jobs))
    obls, stats = [], []
    for o, s in rs:
        obls += o
        stats.append(s)
    return obls, stats


# ------------------------------------------------------------------------------------------------ verdict
def known(prop):
    # lines `known: {"property": .., "obligation": .., "what": ..}`; lines `fixed: ...` are a record only and suppress nothing
    p = os.path.join(VERIF, 'known_findings.txt')
    ks = [json.loads(l[len('known:'):]) for l in open(p) if l.startswith('known:')] if os.path.exists(p) else []
    return [k for k in ks if k['property'] == prop]


def finish(prop, obls, coverage, technique_note, t0, level='proof', expected=True, assumptions=(), bless=False, trusted=()):
    """Compares obligations with the expected list and the known findings, writes evidence, prints verdict, returns exit code."""
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    exp_file = os.path.join(VERIF, 'expected', prop + '.txt')
    names = [o['name'] for o in obls]
    if bless:
        with open(exp_file, 'w') as f:
            for n in sorted(set(names)):
                f.write(n + '\n')
    if expected and os.path.exists(exp_file):
        have = set(names)
        broken = [o for o in obls if o['name'].endswith('/ instantiates') and o['status'] != 'ok']
        for n in open(exp_file).read().split('\n'):
            if n and n not in have:
                if any(n.startswith(b['name'][:-len('/ instantiates')]) for b in broken):
                    continue  # already reported: its witness does not compile
                obls.append(obl(n, 'UNDECIDED', 'obligation vanished: the compiler proved its program point unreachable (undefined behaviour), or its witness function could not be analysed'))
    bad = [o for o in obls if o['status'] != 'ok']
    ks = known(prop)
    kn, viol = [], []
    for o in bad:
        k = next((k for k in ks if k['obligation'] == o['name']), None)
        (kn if k else viol).append((o, k))
    for o, k in kn:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    os.makedirs(OUT, exist_ok=True)
    rp = os.path.join(OUT, prop + '.replay.json')
    if viol:
        json.dump([o for o, _ in viol], open(rp, 'w'), indent=1)
        for o, _ in viol[:8]:
            print('  %s: %s%s\n      %s' % (o['status'], o['name'], (' @ ' + o['where']) if o['where'] else '', o['detail'][:400]))
        if len(viol) > 8:
            print('  ... and %d more (see replay file)' % (len(viol) - 8))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
    elif os.path.exists(rp):
        os.remove(rp)
    ok = sum(1 for o in obls if o['status'] == 'ok')
    cov = {'obligations': len(obls), 'discharged': ok, 'checker_cmd': 'python3 vf/check.py ' + prop, 'trusted_base': list(trusted) or ['clang 18 front end and optimiser', 'the analyser in /verif/tool and /verif/vf'],
           'explanation': technique_note, 'analysed': coverage, 'known_findings': len(kn),
           'samples': [o['name'] for o in obls[:: max(1, len(obls) // 12)]][:14]}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': list(assumptions),
          'wall_s': round(time.time() - t0, 3), 'violations': len(viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    if not viol:
        print('OK property=%s obligations=%d discharged=%d known=%d wall=%.1fs' % (prop, len(obls), ok, len(kn), time.time() - t0))
    return 1 if viol else 0
