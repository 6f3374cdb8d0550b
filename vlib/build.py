"""Builds the driver (src/vdrv.c) together with /repo's current sources.

Nothing is written below /repo.  Output goes to /verif/.cache/<key>/, where the
key hashes every input, so that an unchanged tree is not compiled twice."""
import hashlib, os, subprocess, sys, fcntl, glob, shutil, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
CC = '/usr/bin/gcc' if os.path.exists('/usr/bin/gcc') else 'gcc'

SRCS = '''alloc char continuation deep-cadrs encoding env error eval format
legacy-macro list load module-srfi1 module-srfi2 module-srfi23 module-srfi28
module-srfi34 module-srfi38 module-srfi43 module-srfi48 module-srfi55
module-srfi6 module-srfi60 module-srfi8 module-srfi9 module-sscm-ext module
number-io number port procedure promise qquote read scmport-basechar
scmport-file scmport-mbchar scmport-str sigscheme storage-gc storage
string-procedure string symbol syntax vector write'''.split()
FUNCTABLES = {'sscm-core': ['error', 'module'], 'r5rs-core': ['eval', 'list', 'procedure'],
              'legacy-macro': ['legacy-macro'], 'sscm-ext': ['module-sscm-ext'], 'siod': ['module-siod']}
for n in 'syntax qquote macro promise number number-io char string string-procedure vector port read write load deep-cadrs'.split():
    FUNCTABLES['r5rs-' + n] = [n]
for n in '1 2 6 8 9 23 28 34 38 43 48 55 60'.split():
    FUNCTABLES['srfi' + n] = ['module-srfi' + n]
PUBLIC = 'config-old.h scmint.h global.h encoding.h encoding-dummy.h sigscheme.h storage-common.h storage-fatty.h storage-compact.h'.split()

FLAVORS = {
    'o3': ['-O3', '-g1', '-fno-var-tracking'], 'clang': ['-O2', '-g1'],       # other code generators
    'rel': ['-O2', '-g', '-fno-var-tracking'],
    'asan': ['-O1', '-g1', '-fno-omit-frame-pointer',
             '-fsanitize=address,integer-divide-by-zero,null,bounds,return,unreachable,vla-bound',
             '-fno-sanitize-recover=all'],
}

def _hash_inputs(cfg, flavor):
    h = hashlib.sha256()
    files = sorted(glob.glob(REPO + '/src/*.[ch]') + glob.glob(REPO + '/tools/*func*') +
                   glob.glob(VERIF + '/src/*.[ch]') + [VERIF + '/cfg/%s/config.h' % cfg, __file__])
    for f in files:
        if os.path.basename(f) == 'config.h' and f.startswith(REPO):
            continue
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fp:
            h.update(fp.read())
    h.update(repr((cfg, flavor, FLAVORS[flavor])).encode())
    return h.hexdigest()[:24]

WRAP = 'malloc calloc realloc free strdup posix_memalign memalign fopen fclose'.split()

class BuildError(Exception):
    pass

def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout.decode(errors='replace')))

def build(cfg='compact', flavor='rel'):
    """Returns the path of the driver executable."""
    os.makedirs(CACHE, exist_ok=True)
    key = _hash_inputs(cfg, flavor)
    out = os.path.join(CACHE, key)
    exe = os.path.join(out, 'vdrv')
    with open(os.path.join(CACHE, '%s-%s.lock' % (cfg, flavor)), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            os.utime(out)
            return exe
        _prune()
        tmp = out + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        _build(cfg, flavor, tmp)
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
    return exe

def _prune(keep=12):
    """removes old builds; others may be pruning at the same time"""
    def mtime(d):
        try: return os.path.getmtime(d)
        except OSError: return None
    ds = [(mtime(d), d) for d in glob.glob(CACHE + '/' + '?' * 24)]
    ds = sorted(x for x in ds if x[0])
    for t, d in ds[:-keep]:
        if time.time() - t > 3600:
            shutil.rmtree(d, ignore_errors=True)

def _build(cfg, flavor, tmp):
    inc = os.path.join(tmp, 'include', 'sigscheme')
    gen = os.path.join(tmp, 'gen')
    os.makedirs(inc); os.makedirs(gen)
    for p in PUBLIC:
        os.symlink(os.path.join(REPO, 'src', p), os.path.join(inc, p))
    shutil.copy(VERIF + '/cfg/%s/config.h' % cfg, os.path.join(inc, 'config.h'))
    shutil.copy(VERIF + '/cfg/%s/config.h' % cfg, os.path.join(gen, 'config.h'))
    srcs = list(SRCS)
    if cfg == 'hygienic':
        srcs.append('macro')
    pool = ThreadPoolExecutor(8)
    def gentab(item):
        n, ss = item
        _run(['ruby', '-I' + REPO + '/tools', REPO + '/tools/build_func_table.rb',
              'functable-%s.c' % n, 'scm_functable_' + n.replace('-', '_')] +
             [os.path.join(REPO, 'src', s + '.c') for s in ss], cwd=gen)
        # the generator prints to stdout or a file depending on the version
    list(pool.map(gentab, FUNCTABLES.items()))
    cc = 'clang' if flavor == 'clang' else CC
    base = [cc, '-std=gnu11', '-w', '-DHAVE_CONFIG_H', '-DNDEBUG', '-DSCM_COMPILING_LIBSSCM=1',
            '-DSCM_VERIF_HOOKS=1', '-DPKGDATADIR="/nonexistent"', '-DSCMLIBDIR="/nonexistent"',
            '-I', gen, '-I', os.path.join(tmp, 'include'), '-I', REPO + '/src']
    def comp(s):
        fl = list(FLAVORS[flavor])
        if flavor == 'asan' and s == 'storage-gc':
            # scans the C stack conservatively, redzones included
            fl = [f for f in fl if 'sanitize' not in f]
        src = os.path.join(REPO, 'src', s + '.c') if not s.startswith('/') else s
        o = os.path.join(gen, os.path.basename(s).replace('.c', '') + '.o')
        _run(base + fl + ['-c', src, '-o', o], cwd=gen)
        return o
    drv = [f for f in sorted(glob.glob(VERIF + '/src/*.c'))]
    objs = list(pool.map(comp, srcs + drv + ['main']))
    mainobj = objs.pop()
    # the interpreter proper: the library without the driver
    _run([cc] + FLAVORS[flavor] + ['-o', os.path.join(tmp, 'sscm'), mainobj] + objs[:len(srcs)] + ['-lgcroots', '-lm', '-ldl'])
    _run([cc] + FLAVORS[flavor] + ['-rdynamic', '-o', os.path.join(tmp, 'vdrv')] + objs +
         ['-Wl,' + ','.join('--wrap=' + f for f in WRAP), '-lgcroots', '-lm', '-ldl'])
    pool.shutdown()
    for o in objs + [mainobj]:
        os.unlink(o)

def build_many(pairs):
    with ThreadPoolExecutor(len(pairs)) as ex:
        return list(ex.map(lambda p: build(*p), pairs))

if __name__ == '__main__':
    for a in sys.argv[1:] or ['compact:rel', 'fatty:rel', 'hygienic:rel', 'compact:asan', 'fatty:asan']:
        t = time.time()
        print(a, build(*a.split(':')), '%.1fs' % (time.time() - t))
