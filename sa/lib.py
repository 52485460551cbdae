"""Common driver: lowers /repo's current sources to IR, runs a property's
analyses (in parallel over entry points), filters known findings, writes the
evidence file and the VIOLATION line."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from multiprocessing import Pool

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'sa'))
from engine import AnalysisError
from ir import Module


def sh(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise AnalysisError('%s failed:\n%s' % (' '.join(cmd[:3]), p.stdout[-3000:]))
    return p.stdout


def irdump_bin():
    src = os.path.join(VERIF, 'tool', 'irdump.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    d = os.path.join(VERIF, 'build')
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, 'irdump-' + h)
    if os.path.exists(out):
        return out
    cx = sh(['llvm-config', '--cxxflags']).split()
    ld = sh(['llvm-config', '--ldflags', '--libs', 'core', 'irreader', 'demangle', 'support']).split()
    tmp = out + '.%d' % os.getpid()
    sh(['g++', '-O1'] + cx + [src, '-o', tmp] + ld)
    os.replace(tmp, out)
    return out


def c_sources():
    """the C files of the library, from its build description"""
    d = os.path.join(REPO, 'filehash')
    names = []
    cm = os.path.join(d, 'CMakeLists.txt')
    if os.path.exists(cm):
        m = re.search(r'add_library\s*\(\s*filehash(.*?)\)', open(cm).read(), re.S)
        if m:
            names = re.findall(r'[\w.-]+\.c\b', m.group(1))
    if not names:
        raise AnalysisError('cannot find the source list of the filehash library')
    return [os.path.join(d, n) for n in names]


class Work:
    """scratch directory for one run"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='verif-sa-')

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


CFLAGS = ['-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-discard-value-names', '-w']


def _cc(job):
    return sh(*job)


def lower_c(work, defs=('-D_FILE_OFFSET_BITS=64',)):
    """C library -> Module"""
    irdump = irdump_bin()
    jobs, bcs = [], []
    for s in c_sources():
        bc = os.path.join(work.dir, os.path.basename(s) + '.bc')
        bcs.append(bc)
        jobs.append((['clang', '-std=gnu17'] + CFLAGS + list(defs) + ['-I', os.path.join(REPO, 'filehash'), '-emit-llvm', '-c', s, '-o', bc],))
    with Pool(8) as p:
        p.map(_cc, jobs)
    return link(work, bcs, irdump, 'c')


def lower_flat(work, name):
    """one file of the C library, its own functions inlined, local variables dissolved -> Module"""
    base = os.path.join(work.dir, name)
    js = base + '.flat.json'
    sh(['clang', '-std=gnu17', '-w', '-O1', '-g', '-Xclang', '-disable-llvm-passes', '-D_FILE_OFFSET_BITS=64', '-I', os.path.join(REPO, 'filehash'),
        '-emit-llvm', '-c', os.path.join(REPO, 'filehash', name), '-o', base + '.raw.bc'])
    sh(['opt', '-passes=function(sroa,early-cse),cgscc(inline),function(sroa,early-cse<memssa>,instsimplify,early-cse<memssa>)', base + '.raw.bc', '-o', base + '.flat.bc'])
    sh([irdump_bin(), base + '.flat.bc', js])
    return js


def cxx_sources():
    """the C++ files of the library, from its build description"""
    d = os.path.join(REPO, 'src')
    cm = os.path.join(d, 'CMakeLists.txt')
    m = re.search(r'add_library\s*\(\s*filedb(.*?)\)', open(cm).read(), re.S) if os.path.exists(cm) else None
    names = re.findall(r'[\w.-]+\.(?:cpp|cc|cxx)\b', m.group(1)) if m else []
    if not names:
        raise AnalysisError('cannot find the source list of the filedb library')
    return [os.path.join(d, n) for n in names]


def lower_cxx(work):
    """C++ library and its interface, instantiated -> Module"""
    irdump = irdump_bin()
    jobs, bcs = [], []
    for s in cxx_sources() + [os.path.join(VERIF, 'sa', 'cxx', 'roots.cpp')]:
        bc = os.path.join(work.dir, os.path.basename(s) + '.bc')
        bcs.append(bc)
        jobs.append((['clang++', '-std=c++14'] + CFLAGS + ['-D_FILE_OFFSET_BITS=64', '-D_FILEDB_LITTLE_ENDIAN', '-I', os.path.join(REPO, 'src'),
                      '-I', os.path.join(REPO, 'filehash'), '-emit-llvm', '-c', s, '-o', bc],))
    with Pool(8) as p:
        p.map(_cc, jobs)
    return link(work, bcs, irdump, 'cxx')


def link(work, bcs, irdump, tag):
    allbc = os.path.join(work.dir, tag + '.all.bc')
    opt = os.path.join(work.dir, tag + '.opt.bc')
    js = os.path.join(work.dir, tag + '.json')
    sh(['llvm-link'] + bcs + ['-o', allbc])
    sh(['opt', '-passes=mem2reg', allbc, '-o', opt])
    sh([irdump, opt, js])
    return js


def constants(work, headers, names):
    """values of macros, as the compiler folds them"""
    src = os.path.join(work.dir, 'const.c')
    with open(src, 'w') as f:
        for h in headers:
            f.write('#include %s\n' % h)
        for i, n in enumerate(names):
            f.write('const unsigned long long K_%d = (unsigned long long)(%s);\n' % (i, n))
    bc = os.path.join(work.dir, 'const.bc')
    js = os.path.join(work.dir, 'const.json')
    sh(['clang', '-std=gnu17', '-w', '-O0', '-D_FILE_OFFSET_BITS=64', '-I', os.path.join(REPO, 'filehash'), '-emit-llvm', '-c', src, '-o', bc])
    sh([irdump_bin(), bc, js])
    g = json.load(open(js))['globals']
    out = {}
    for i, n in enumerate(names):
        e = g.get('K_%d' % i)
        if e is None or 'init' not in e:
            raise AnalysisError('constant %s vanished' % n)
        out[n] = e['init']
    return out


# ------------------------------------------------------------ parallel roots
_G = {}


def _init(js):
    _G['mod'] = Module(js)


def _task(t):
    f, a = t
    try:
        return ('ok', f(_G['mod'], *a))
    except AnalysisError as e:
        return ('err', '%s: %s' % (a[:1], e))


def prun(js, func, argslist, procs=8):
    """[(status, result)] of func(mod, *args) for each args"""
    with Pool(min(procs, max(1, len(argslist))), initializer=_init, initargs=(js,)) as p:
        return p.map(_task, [(func, a) for a in argslist], chunksize=1)


# ------------------------------------------------------------ verdict
def known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == prop and k.get('status') == 'open']


def matches(k, v):
    m = k['match']
    for f, pat in m.items():
        if not re.search(pat, str(v.get(f, ''))):
            return False
    return True


def main(prop, run, level='other'):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER_OVERRIDE') or ('thorough' if '--thorough' in sys.argv else 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    work = Work()
    rc = 0
    try:
        try:
            viol, cov, assume = run(work, tier)
        except KeyError as e:
            raise AnalysisError('anchor vanished: %s' % e)
    except AnalysisError as e:
        print('NO-VERDICT property=%s %s' % (prop, e))
        work.close()
        return 3
    finally:
        work.close()
    kn = known(prop)
    rest, hit = [], {}
    for v in viol:
        for i, k in enumerate(kn):
            if matches(k, v):
                hit.setdefault(i, []).append(v)
                break
        else:
            rest.append(v)
    for i, vs in hit.items():
        print('KNOWN-FINDING: property=%s %s' % (prop, kn[i]['what']))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': assume, 'wall_s': round(time.time() - t0, 2),
          'violations': len(rest)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if rest:
        rp = os.path.join(VERIF, 'evidence', prop + '.violations.json')
        json.dump(rest, open(rp, 'w'), indent=1)
        for v in rest[:40]:
            print('%s: %s in %s: %s' % (v['location'], v['rule'], v['function'], v['message']))
            for c in v.get('call_path', [])[-4:]:
                print('    called: %s' % c)
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        rc = 1
    else:
        print('OK property=%s (%.1fs) %s' % (prop, time.time() - t0, cov.get('explanation', '')[:160]))
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    return rc
