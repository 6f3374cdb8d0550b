"""C03: memory exhaustion."""
import itertools, subprocess
from vlib import core, calls, direct
from vlib.rs import tx
from vlib.calls import POOL, SIGS, FULL
from checks import c01, c02, c07
from checks.c01 import chunks, HOLD, MG, MODFILE, NAMES

ID = 'C03'
LEVEL = 'fault_enumeration'
TECHNIQUE = 'exhaustive fault enumeration: every single memory request (malloc, calloc, realloc, strdup, aligned heap request) of every program of a set, and of a whole interpreter session from initialization to finalization, is refused in turn, alone and with all later ones; every heap size of a range around the need of programs, with one heap; every size around the powers of two for objects of a chosen size. The outcome must be the fatal-error path (message, callback or failure status) and nothing else'
NOTE = 'Bounded: the listed programs. Memory that the C library itself requests (stdio) is not refused. Exhaustion of the C stack is outside this property.'
BUILDS = [('compact', 'rel'), ('fatty', 'rel'), ('compact', 'asan')]
BOUNDS = {'quick': 'every request of 1349 holder programs, 205 error sources, 200 operations and one call of each procedure with each valid argument list of arity up to 2 (first 40); every request of 8 sessions; 12 programs x 400 heap sizes; 30 size expressions x 250 sizes',
          'thorough': 'holder programs of size 2 (every third), more argument lists'}
RULE = 'every (program, request number, mode) is distinct'
NONVACUOUS = {'faults': 20000, 'states': 20000}

def enum_faults(st, spec, srcs, flags='f', modes='mM', kmax=400):
    d = core.driver(**spec)
    base = d.eval([core.case(s, flags + 'm', 0) for s in srcs])
    cs, ref = [], []
    for s, b in zip(srcs, base):
        if b.kind not in 'VER': st.add('not_judged'); continue
        st.add('states')
        for m in modes:
            for k in range(1, min(b.allocs, kmax) + 1):
                cs.append(core.case(s, flags + m, k)); ref.append(b)
    core.compare(st, spec, cs, lambda i, r: None if r.kind == 'F' else 'request %d refused%s: fatal error expected; without faults: %s' % (cs[i][2], ' and all later ones' if 'M' in cs[i][1] else '', ref[i].show()[:200]))
    st.add('faults', len(cs)); st.add('transitions', len(cs))

SESSIONS = ['i', 'i s ' + c02.E('(list 1 2)'), 'i s ' + c02.E('(require-extension (srfi 1 8 48 60 69 95)) (format #f "~a" (string-append "a" "b"))') + ' ' + c02.E('(car 1)'), 'i a0 p0 x d0 u0 q1 x', 'i s ' + c02.E('(call-with-output-file "c03.out" (lambda (p) (write (list 1 "x") p)))') + ' ' + c02.E('(call-with-input-file "c03.out" read)'), 'i z i s ' + c02.E('(guard (e (#t e)) (raise (list 1)))'),
            'i s ' + c02.E('(string->symbol (make-string 3000 #\\a))') + ' ' + c02.E('(vector->list (make-vector 3000 1))') + ' x z i s', 'i s ' + c02.E('(let lp ((i 0) (l (list))) (if (< i 20000) (lp (+ i 1) (cons i l)) (length l)))')]

HUGE = []
def sizes():
    o = []
    for k in list(range(20, 64)):
        for d in (-2, -1, 0, 1, 2, 5): o.append(2 ** k + d)
    for m in (8, 16, 2, 3, 4, 6): 
        for w in (64, 63, 62, 61, 60, 59):
            for d in (0, 1, 2, 9): o.append(2 ** w // m + d)
    return sorted(set(o))
SIZED = [('(make-vector %d)', 8), ('(make-vector %d 1)', 8), ('(make-vector %d (list 1))', 8), ('(make-string %d)', 1), ('(make-string %d #\\a)', 1), ('(make-string %d #\\\u03bb)', 2), ('(make-string %d #\\\u3042)', 3), ('(make-string %d (integer->char 66000))', 4), ('(vector-length (make-vector %d (quote x)))', 8), ('(string-length (make-string %d #\\z))', 1), ('(read-string %d (open-input-string "abc"))', 0), ('(list-tail (list 1 2) %d)', 0), ('(vector-ref (vector 1) %d)', 0), ('(string-ref "a" %d)', 0), ('(substring "abc" 0 %d)', 0), ('(make-list-not-bound %d)', 0)]
SIZED_M = [(43, '(vector-grow (vector 1) %d)', 8), (43, '(vector-unfold (lambda (i) i) %d)', 8), (1, '(take (list 1) %d)', 0), (1, '(list-ref (list 1) %d)', 0), (48, '(format "~%da" 1)', 1), (48, '(format "~%d,2f" 1)', 1)]
LIMIT = 1 << 19

FILLS = ['(let lp ((i 0) (l (list))) (if (< i 150) (lp (+ i 1) (cons i l)) (length l)))', '(length (string->list (make-string 120 #\\a)))', '(length (map (lambda (x) (list x)) (vector->list (make-vector 40 1))))', '(let ((f (lambda (x) x))) (let lp ((i 0)) (if (< i 30) (begin (set! f (let ((g f)) (lambda (x) (g x)))) (lp (+ i 1))) (f 5))))', '(guard (e (#t (length e))) (raise (vector->list (make-vector 60 1))))', '(length (read (open-input-string "(a b (c d \\"e\\" #(f g)) h . (i j k l m n o p q r s t u v w x y z 1 2 3 4 5))")))',
         '(begin (define (f n) (if (= n 0) (list) (cons (delay n) (f (- n 1))))) (length (map force (f 20))))', '(length `(1 ,@(vector->list (make-vector 50 2)) ,(list 3 4) #(5 ,@(list 6 7))))', '(call-with-values (lambda () (apply values (vector->list (make-vector 60 1)))) (lambda a (length a)))', '(call/cc (lambda (k) (dynamic-wind (lambda () (list 1)) (lambda () (k (apply + (vector->list (make-vector 70 1))))) (lambda () (list 2)))))', '(length (let lp ((i 0) (l (list))) (if (< i 40) (lp (+ i 1) (cons (string->symbol (number->string (+ i 5000))) l)) l)))', '(string-length (apply string-append (map (lambda (x) (string-append "a" x)) (vector->list (make-vector 30 "b")))))']

def items(tier):
    th = tier == 'thorough'
    o = []
    for cfg, fl in BUILDS:
        for i in range(len(SESSIONS)): o += [('session', cfg, fl, i, p, 4) for p in range(4)]
        asan = fl == 'asan'
        n = HOLD.count('S', 1)
        for lo, hi in chunks(n, 60 if not asan else 40):
            if th or (lo // 40 % 4 == 0 if asan else cfg == 'compact' or lo // 60 % 2 == 0): o.append(('hold', cfg, fl, 1, lo, hi))
        if th:
            for lo, hi in chunks(HOLD.count('S', 2), 100)[::3]: o.append(('hold', cfg, fl, 2, lo, hi))
        for m, (pro, g) in enumerate(MG): o.append(('mod', cfg, fl, m))
        for p in range(6): o.append(('ops', cfg, fl, p, 6))
        for m in sorted(c02.MOPS): o.append(('mops', cfg, fl, m))
        for p in range(4): o.append(('src', cfg, fl, p, 4))
        for i in range(len(NAMES)): o.append(('calls', cfg, fl, i))
        for i in range(len(FILLS)): o.append(('fill', cfg, fl, i))
        for i in range(len(SIZED)): o.append(('sized', cfg, fl, i))
        for i in range(len(SIZED_M)): o.append(('sizedm', cfg, fl, i))
        o.append(('conf', cfg, fl))
    return o

def run_item(item, st, tier):
    kind, cfg, fl = item[:3]
    th = tier == 'thorough'
    spec = dict(cfg=cfg, flavor=fl, files=['gc.scm'], heap=1024, heaps_max=64)
    modes = 'mM' if fl == 'rel' else 'm'
    if kind == 'session':
        i, part, parts = item[3:]
        sp = dict(cfg=cfg, flavor=fl, heap=1024)
        b = SESSIONS[i]
        ref = direct.run(sp, ['!m0 %s n z n' % b])[0]
        n = int(ref.split(' n')[-1].split()[0]) if ' n' in ref else 0
        if not n: st.violation('session%d' % i, 'session %s: %s' % (b, ref), dict(spec=sp, direct=['!m0 %s n z n' % b])); return
        lines = ['!%s%d %s z' % (m, k, b) for m in modes for k in range(1 + part, n + 1, parts)]
        st.add('states'); st.add('faults', len(lines)); st.add('transitions', len(lines))
        direct.compare(st, sp, lines, lambda j, r: None if r.endswith('F') or r == 'EXIT 1' else 'fatal error expected')
        for l in lines[:40 if fl == 'rel' else 10]:        # the message
            err = direct.stderr(sp, l)
            if 'rror: fatal: ' not in err: st.violation('message ' + l[:40], 'no fatal error message: ' + err[-300:], dict(spec=sp, direct=[l]))
    elif kind == 'hold':
        size, lo, hi = item[3:]
        enum_faults(st, spec, [tx(p) for p in HOLD.iter('S', size, lo, hi)], modes=modes if size == 1 and (th or lo // 60 % 3 == 0) else 'm')
    elif kind == 'mod':
        pro, g = MG[item[3]]
        spec['files'] = ['gc.scm', 'm-%s.scm' % MODFILE[item[3]]]
        enum_faults(st, spec, [(pro + ' ' if item[3] == 0 else '') + tx(p) for s in (0, 1) for p in g.iter('S', s, 0, min(g.count('S', s), 1000 if s == 0 else 60))], modes=modes)
    elif kind == 'ops':
        spec['files'] = ['gc.scm', 'c02.scm']
        enum_faults(st, spec, c02.split(c02.OPS)[item[3]::item[4]], modes=modes)
    elif kind == 'mops':
        spec['files'] = ['gc.scm', 'm-srfi-%d.scm' % item[3]]
        enum_faults(st, spec, c02.split(c02.MOPS[item[3]]), modes=modes)
    elif kind == 'src':
        spec['files'] = ['t.scm']
        srcs = [x for x in c07.sources() + list(c07.RAISES) if '%%fail' not in x][item[3]::item[4]]
        enum_faults(st, spec, srcs + ['(guard (e (#t 1)) %s)' % x for x in srcs], modes=modes)
    elif kind == 'calls':
        name = NAMES[item[3]]
        args, nreq, rest, total = SIGS[name]
        mx = len(args) if rest is None else max(2, len(args))
        ts = []
        for n in range(nreq, min(mx, 3) + 1):
            c = 0
            for t in itertools.product({0: [], 1: FULL, 2: FULL, 3: calls.P3}[n], repeat=n):
                if calls.excluded(name, t): continue
                ty = [POOL[x][1] for x in t]
                if any('huge' in x for x in ty) or calls.domain(name, ty) != 'D': continue
                ts.append(t); c += 1
                if c >= (400 if th else 40): break
        spec['files'] = ['calls.scm']
        enum_faults(st, spec, ['(%s%s)' % (name, ''.join(' ' + POOL[x][0] for x in t)) for t in ts], modes='m')
    elif kind == 'fill':
        src = FILLS[item[3]]
        ref = core.run_fresh(dict(spec, heap=20000), [core.case(src)])[0]
        sp0 = dict(spec, heap=20000)
        base = int(core.run_fresh(sp0, [core.case('(%live)')])[0].val)
        for h in range(base - 40, base + (400 if fl == 'rel' else 200), 1 if fl == 'rel' else 7):
            for mx in (1, 2):
                sp = dict(spec, heap=h if mx == 1 else (h + 1) // 2, heaps_max=mx, heaps_init=mx, threshold=10)
                d = core.Driver(**sp)
                try:
                    d.start()
                except core.StartFailure as e:
                    d.close()
                    if 'fatal' not in str(e): st.violation('fill start', 'one heap of %d cells: %s' % (h, e), dict(spec=sp))
                    st.add('refused_at_start'); continue
                rs = d.eval([core.case(src, 'f'), core.case(src, 'fs')])
                d.close()
                for r in rs:
                    st.add('transitions'); st.add('exhausted' if r.kind == 'F' else 'sufficed')
                    if r.kind != 'F' and (r.kind, r.val) != (ref.kind, ref.val):
                        r2 = core.run_fresh(sp, [core.case(src, 'f')])[0]
                        st.violation('fill%d' % item[3], '%s with one heap of %d cells: %s (in a large heap: %s)' % (src, h, r2.show(), ref.show()), dict(spec=sp, cases=[core._enc_case(core.case(src, 'f'))]))
                        return
        st.add('states')
    elif kind in ('sized', 'sizedm'):
        if kind == 'sized': t, unit = SIZED[item[3]]
        else:
            m, t, unit = SIZED_M[item[3]]
            spec['files'] = ['gc.scm', 'm-srfi-%d.scm' % m]
        vs = [n for n in sizes()]
        vs = vs + [-n for n in vs[::5]]
        lim = 2 ** 59 - 1 if cfg == 'compact' else 2 ** 63 - 1
        cs = [core.case(t % n, 'fB', LIMIT) for n in vs]
        def judge(i, r):
            n = vs[i]
            if r.kind in 'EF': return None
            if r.kind in 'SXH?': return 'crash'
            if r.kind == 'V' and 0 <= n and n * unit + 64 > LIMIT * 4 and unit: return 'an object of %d units of %d bytes cannot exist' % (n, unit)
            return None
        core.compare(st, spec, cs, judge)
        st.add('states', len(cs)); st.add('transitions', len(cs))
    elif kind == 'conf':
        # configurations that cannot be satisfied
        for h, ini, mx, hs in [(2 ** 45, 1, 2, 512), (2 ** 50, 1, 1, 512), (2 ** 60, 1, 1, 512), (2 ** 61, 1, 1, 512), (2 ** 60 + 3, 1, 1, 512), (2 ** 59 + 1, 1, 1, 512), (2 ** 62, 2, 4, 512), (1000, 1, 2 ** 61 + 1, 512), (1000, 1, 2 ** 60, 512), (1000, 1, 2 ** 63, 512), (16, 1, 1, 512), (1, 1, 1, 512), (2, 1, 1, 512), (100, 2, 2, 512), (1000, 4, 2, 512), (1000, 3, 3, 512), (4096, 0, 1, 512), (4096, 0, 4, 512), (64, 1, 64, 512)]:
            for e in ('', ' s'):
                sp = dict(cfg=cfg, flavor=fl, heap=h, heaps_max=mx, heaps_init=ini)
                r = direct.run(sp, ['!i%s z' % e])[0]
                st.add('states'); st.add('transitions')
                if not (r.endswith('F') or r == 'EXIT 1' or r == '0,0 .'):
                    st.violation('conf %d %d %d' % (h, ini, mx), 'configuration heap_size %d, n_heaps_init %d, n_heaps_max %d: %s' % (h, ini, mx, r), dict(spec=sp, direct=['!i%s z' % e]))
