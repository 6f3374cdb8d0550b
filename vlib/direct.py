"""Histories of the C interface (src/direct.c)."""
import subprocess, os
from . import core, build as B

def run(spec, lines):
    """answers, one per line"""
    spec = dict(cfg='compact', flavor='rel', heap=4096, heaps_max=64, threshold=1000) | spec
    exe = B.build(spec['cfg'], spec['flavor'])
    a = [exe, '--lib', B.REPO + '/lib', '--heap', str(spec['heap']), '--heaps-max', str(spec['heaps_max']), '--heaps-init', str(spec.get('heaps_init', 1)), '--threshold', str(spec['threshold']), '--file', core.VERIF + '/scm/prelude.scm']
    for f in spec.get('files', ()): a += ['--file', core.VERIF + '/scm/' + f]
    if spec.get('enc'): a += ['--enc', spec['enc']]
    env = dict(os.environ, LC_ALL='C', **core.ASAN_ENV)
    out = []
    pre = [] if lines[0].startswith('!') else ['i']      # the others share one interpreter
    while len(out) < len(lines):
        p = subprocess.run(a + ['direct'], input=('\n'.join(pre + lines[len(out):]) + '\n').encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=core.scratch(), env=env)
        got = p.stdout.decode('latin-1').split('\n')
        if not got or got[0] != 'READY': raise core.StartFailure('direct: %r %r' % (got[:1], p.stderr[-500:]))
        got = [x.strip() for x in got[1 + len(pre):] if x]
        out += got
        if len(out) < len(lines):
            out.append('DIED %s %s' % (p.returncode, p.stderr.decode('latin-1')[-600:]))
    return out[:len(lines)]

def compare(st, spec, lines, judge, maxv=3):
    """judge(i, answer) -> None or why"""
    CH = 3000
    for o in range(0, len(lines), CH):
        part = lines[o:o + CH]
        for j, r in enumerate(run(spec, part)):
            w = judge(o + j, r)
            if w is None: continue
            if len(st.viol) >= maxv: st.add('further_mismatches'); continue
            l = part[j]
            alone = l if l.startswith('!') else '!i ' + l
            r2 = run(spec, [alone])[0]
            if judge(o + j, r2) is not None: st.violation('direct ' + l[:60], 'C interface history "%s": %s | got: %s' % (l, w, r2[:400]), dict(spec=spec, direct=[alone], got=r2))
            else:
                r3 = run(spec, part[:j + 1])[-1]
                if judge(o + j, r3) is not None: st.violation('direct ' + l[:60], 'C interface history "%s" after %d others: %s | got: %s' % (l, j, w, r3[:400]), dict(spec=spec, direct=part[:j + 1], got=r3))
                else: st.unrepro.append('direct %s: %s' % (l, w))
    st.add('traces_validated_against_impl', len(lines))

# ---- words of protection operations, with a model of what is alive
ALPHA = ['a0', 'a1', 'p0', 'p1', 'u0', 'u1', 'q0', 'd0', 'd1', 'k0', 'g1', 'w01', 'w10', 'c', 'x']
class M:
    """g: object numbers (None: nothing valid), p: protected, h: variables, n: serial"""
    def __init__(s): s.g = [None, None]; s.p = [0, 0]; s.h = [None, None]; s.n = 0
    def copy(s):
        m = M(); m.g = s.g[:]; m.p = s.p[:]; m.h = s.h[:]; m.n = s.n; return m
    def alive(s): return {x for x in [s.g[i] for i in (0, 1) if s.p[i]] + s.h if x is not None}
    def collect(s):
        a = s.alive()
        s.g = [x if x in a else None for x in s.g]
    def step(s, op):
        """None if the operation is not allowed here"""
        m = s.copy(); i = int(op[1]) if len(op) > 1 else 0
        k = op[0]
        if k == 'a': m.collect(); m.n += 1; m.g[i] = m.n
        elif k == 'q':
            if m.p[i]: return None
            m.collect(); m.n += 1; m.g[i] = m.n; m.p[i] = 1
        elif k == 'p':
            if m.p[i] or m.g[i] is None: return None
            m.p[i] = 1
        elif k == 'u': m.p[i] = 0
        elif k == 'd':
            if m.g[i] is None: return None
            m.h[i] = m.g[i]
        elif k == 'k': m.h[i] = None
        elif k == 'g':
            if m.h[i] is None: return None
            m.g[i] = m.h[i]
        elif k == 'w':
            j = int(op[2])
            if m.g[i] is None: return None
            m.g[j] = m.g[i]
        else: m.collect()
        return m
def words(depth, first=None):
    """(tokens, expected answer) of every allowed word of exactly this length"""
    def rec(m, w):
        if len(w) == depth:
            exp = []; t = list(w)
            m2 = m.copy(); m2.collect()          # 'c' keeps what is alive
            t.append('c')
            for i in (0, 1):
                if m2.g[i] is not None: t += ['r%d' % i, 'v%d' % i]; exp += ['r%d' % m2.g[i], 'v1']
            t.append('l'); exp.append('l%d' % len(m2.alive()))
            yield t, exp
            return
        for op in ALPHA if w or first is None else [first]:
            n = m.step(op)
            if n is not None: yield from rec(n, w + [op])
    yield from rec(M(), [])
RESET = ['u0', 'u1', 'k0', 'k1', 'c']
def stderr(spec, line):
    spec = dict(cfg='compact', flavor='rel', heap=4096, heaps_max=64, threshold=1000) | spec
    a = [B.build(spec['cfg'], spec['flavor']), '--lib', B.REPO + '/lib', '--heap', str(spec['heap']), '--heaps-max', str(spec['heaps_max']), '--threshold', str(spec['threshold']), '--file', core.VERIF + '/scm/prelude.scm', 'direct']
    p = subprocess.run(a, input=(line + '\n').encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=core.scratch(), env=dict(os.environ, LC_ALL='C', **core.ASAN_ENV))
    return p.stderr.decode('latin-1')
