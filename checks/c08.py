"""C08: no argument can crash a procedure."""
import itertools
from vlib import core, calls
from vlib.calls import POOL, SIGS, FULL, P3, P4, P5, domain, MODPROCS

ID = 'C08'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of calls: every procedure applied to every tuple of values (up to an arity) of a pool covering every object type and boundary value, under AddressSanitizer and in release builds, each outcome compared with a table of signatures (wrong number or type: error; total and in the domain: value; never a crash), and every syntax applied to every tuple of operand forms of a pool; literals compared after every batch'
NOTE = 'Bounded: all tuples of 42 values up to arity 2, 19 values at arity 3, 7 at arity 4, 4 at arity 5 for 230 C-coded procedures; 16 values up to arity 3 for the procedures of the Scheme-coded modules (crashes only: they may loop on arguments outside their domain). Procedures that R5RS defines only for finite lists (append, map, equal?, write ...) are not called with circular arguments. Requests for huge objects may end in the reported memory exhaustion.'
BUILDS = [('compact', 'rel'), ('fatty', 'rel'), ('compact', 'asan')]
BOUNDS = {'quick': 'arity 3 under AddressSanitizer (compact), arity 2 in the release builds of both layouts, syntaxes with 2 operand forms of 28 and 3 of 12',
          'thorough': 'arity 5 everywhere, arity 3 with all 42 values for procedures of 3 or more parameters, syntaxes with 3 operand forms of 28'}
NONVACUOUS = {'states': 300000, 'error_cases': 100000, 'value_cases': 10000}

P3F = ['2', 'f', 'nil', 'l3', 'dot', 'ms', 'a', 'v3', 'lam1', 'lam2', 'err', 'op']
NAMES = sorted(SIGS)
SYN = 'quote lambda if set! cond case and or let let* letrec begin do delay quasiquote unquote unquote-splicing define define-macro let-optionals* guard cond-expand require-extension use'.split()
SYNX = {'receive': '(use srfi-8)', 'and-let*': '(use srfi-2)', 'define-record-type': '(use srfi-9)'}
FORMS = ['1', 'x', '"s"', '#\\a', '()', '(x)', '(x 1)', '((x 1))', '((x 1) (y x))', '(x . y)', '((x . 1))', '(x x)', '#(x 1)', '(else 1)', '(#t => list)', '((1 2) 3)', '(lambda (x) x)', 'else', '=>', '(define x 1)', '(begin (define y 2))', '(1 . 2)', '(quote a)', '(unquote x)', '((x 1 (+ x 1)))', 'if', '(e (#t 1))', "'(quote)"]
F3 = ['1', 'x', '()', '(x)', '((x 1))', '(x . y)', '((x . 1))', '(else 1)', '(#t => list)', '(define x 1)', '#(x 1)', '((x 1 (+ x 1)))']

def items(tier):
    th = tier == 'thorough'
    o = []
    for i in range(len(NAMES)):
        o.append(('calls', 'compact', 'asan', i, 5 if th else 4, th))
        for cfg in ('compact', 'fatty'): o.append(('calls', cfg, 'rel', i, 5 if th else 2, False))
    o.sort(key=lambda x: (NAMES[x[3]] not in calls.FORK))
    for m in calls.MODPROCS:
        n = len(calls.MODPROCS[m])
        for j in range(0, n, 8): o.append(('mods', 'compact', 'asan', m, j, 4 if th else 3))
        o.append(('mods', 'fatty', 'rel', m, -1, 3))
    for k in SYN + list(SYNX):
        o.append(('syn', 'compact', 'asan', k, 2 if th else -2)); o.append(('syn', 'compact', 'rel', k, 3 if th else -3))
        o.append(('syn', 'fatty', 'rel', k, 2))
    for cfg, fl in BUILDS: o += [('special', cfg, fl, p) for p in range(8)]
    return o

def why(cfg, name, t, r):
    types = [POOL[x][1] for x in t]
    if r.kind not in 'VERF': return 'must return or signal an error'
    if r.kind == 'F':
        if any('huge' in x for x in types) and name in ('make-string', 'make-vector'): return None
        return 'must return or signal an error'
    d = domain(name, types)
    if d == 'A' and r.kind != 'E': return 'wrong number of arguments must be an error'
    if d == 'T' and r.kind != 'E': return 'an argument of a wrong type must be an error'
    if d == 'D' and SIGS[name][3] and r.kind != 'V': return 'must return a value'
    if cfg == 'fatty' and name in ('set-car!', 'set-cdr!') and t and 'qpair' in types[0] and r.kind != 'E': return 'must not modify a literal'
    return None

LIT = '("abc" (1 b "c") #(1 b "c"))'
def batch(st, spec, cs, judge):
    """the calls, then a comparison of the literals"""
    core.compare(st, spec, cs + [core.case('(q-all)', 'w')],
                 lambda i, r: (judge(i, r) if i < len(cs) else None if r.kind == 'V' and r.val.decode('latin-1') == LIT else 'a literal was modified: should be ' + LIT))

def run_item(item, st, tier):
    kind, cfg, fl = item[:3]
    spec = dict(cfg=cfg, flavor=fl, files=['calls.scm'], limit=1000)
    if kind == 'calls':
        i, depth, wide = item[3:]
        name = NAMES[i]
        args, nreq, rest, total = SIGS[name]
        mx = len(args) + 1 if rest is None else 5
        if wide and (len(args) < 3 or rest is not None or name in calls.FORK): wide = False
        sizes = {0: [], 1: FULL, 2: FULL, 3: FULL if wide else P3 if name not in calls.FORK or depth > 4 else P3F, 4: P4, 5: P5}
        ts = [t for n in range(0, min(mx, depth) + 1) for t in itertools.product(sizes[n], repeat=n) if not calls.excluded(name, t)]
        fork = name in calls.FORK
        CH = 20000
        for o in range(0, len(ts), CH):
            part = ts[o:o + CH]
            cs = [core.case('(%s%s)' % (name, ''.join(' ' + POOL[x][0] for x in t)), 's' + ('f' if fork else '')) for t in part]
            n = {'V': 0, 'E': 0}
            def judge(i, r):
                n[r.kind] = n.get(r.kind, 0) + 1
                return why(cfg, name, part[i], r)
            batch(st, spec, cs, judge)
            st.add('states', len(cs)); st.add('transitions', len(cs))
            st.add('error_cases', n['E']); st.add('value_cases', n['V'])
    elif kind == 'mods':
        m, j, depth = item[3:]
        names = calls.MODPROCS[m]
        if j >= 0: names = names[j:j + 8]
        spec['limit'] = 300
        spec['heaps_max'] = 16
        for name in names:
            pm = calls.PM if cfg == 'fatty' else [x for x in calls.PM if x != 'ql']     # constant lists only there
            sizes = {0: [], 1: pm, 2: pm, 3: calls.PM3, 4: calls.PM3[:6]}
            ts = [t for n in range(0, depth + 1) for t in itertools.product(sizes[n], repeat=n)]
            cs = [core.case('(%s%s)' % (name, ''.join(' ' + POOL[x][0] for x in t)), 's') for t in ts]
            sp = dict(spec, files=['calls.scm', 'm-%s.scm' % m])
            n = {'V': 0, 'E': 0}
            def judge(i, r):
                n[r.kind] = n.get(r.kind, 0) + 1
                return 'must not crash' if r.kind not in 'VERHF' else None
            batch(st, sp, cs, judge)
            st.add('states', len(cs)); st.add('transitions', len(cs))
            st.add('error_cases', n['E']); st.add('value_cases', n['V'])
    elif kind == 'syn':
        k, n = item[3:]
        pre = SYNX.get(k, '')
        fs = F3 if n < 0 else FORMS
        n = abs(n)
        ts = [t for a in range(0, n + 1) for t in itertools.product(fs, repeat=a)]
        if k == 'let': ts = [t for t in ts if not (t and t[0] == 'x' and {'(x)', '(x 1)', '(x x)', '(x . y)'} & set(t))]    # loops
        if k in ('define', 'set!', 'define-macro'): ts = [t for t in ts if t[:1] != ('if',)]      # would redefine it for the whole program
        cs = []
        for t in ts:
            f = '(%s%s)' % (k, ''.join(' ' + x for x in t))
            cs.append(core.case('%s %s' % (pre, f), 'sf'))
            if len(t) < 3:
                for c in ('(let ((x 1) (y 2)) %s)', '(lambda (x) %s 1)', '(%s 1)', '(list %s)', '((lambda (x) %s x) 5)', '(let () (define z 1) %s)', "(eval '%s (interaction-environment))"):
                    cs.append(core.case('%s %s' % (pre, c % f), 'sf'))
            if t: cs.append(core.case('%s (%s%s . %s)' % (pre, k, ''.join(' ' + x for x in t[:-1]), t[-1]), 'sf'))
        def judge(i, r):
            return None if r.kind in 'VER' else 'must return or signal an error'
        batch(st, dict(spec, limit=1500), cs, judge)
        st.add('states', len(cs)); st.add('transitions', len(cs))
    elif kind == 'special':
        rows = []
        for x in calls.FULL:
            rows.append('(%%%%prealloc-heaps %s)' % POOL[x][0])
            rows.append('(exit %s 1)' % POOL[x][0])
            rows.append('(%s 1)' % POOL[x][0])
            rows.append('(%s)' % POOL[x][0])
            rows.append('(apply %s (list 1 2))' % POOL[x][0])
            rows.append('(begin (define-macro (mm) %s) (mm))' % POOL[x][0])
            rows.append('(eval %s (interaction-environment))' % POOL[x][0])
            rows.append('`(1 ,@%s)' % POOL[x][0]); rows.append('`(,@%s . 1)' % POOL[x][0]); rows.append('`#(,@%s)' % POOL[x][0])
            rows.append('(call-with-values (lambda () %s) list)' % POOL[x][0])
            rows.append('(raise %s)' % POOL[x][0])
            rows.append('(let-optionals* %s ((a 1) (b 2)) (list a b))' % POOL[x][0])
            rows.append('(case %s ((1) 2) (else 3))' % POOL[x][0])
            rows.append('(let loop ((i 0) (x %s)) (if (< i 3) (loop (+ i 1) x) x))' % POOL[x][0])
            for y in calls.FULL:
                rows.append('(guard (e (#t (equal? e %s))) (raise %s))' % (POOL[y][0], POOL[x][0]))
                rows.append('(begin (use srfi-48) (format %s %s))' % (POOL[x][0], POOL[y][0]))
                rows.append('(begin (use srfi-48) (format #f "~a ~s ~d ~f" %s %s 1 2))' % (POOL[x][0], POOL[y][0]))
                rows.append('(error "x" %s %s)' % (POOL[x][0], POOL[y][0]))
                rows.append('(error %s %s)' % (POOL[x][0], POOL[y][0]))
                rows.append('(let-optionals* (list %s) ((a 1) (b %s)) (list a b))' % (POOL[x][0], POOL[y][0]))
                rows.append('(begin (define-record-type %s (mk %s) r?) (list r?))' % (POOL[x][0], POOL[y][0]))
        rows = [r for r in rows if not ('nested-v' in r and 'equal?' in r)]
        rows = [r for r in rows if '(circ)' not in r or not ('format' in r or 'equal?' in r)]
        rows = [r for r in rows if not ('nested-v' in r and 'format' in r)]
        cs = [core.case(r, 'sf') for r in rows[item[3]::8]]
        batch(st, dict(spec, heap=1024, heaps_max=64), cs, lambda i, r: None if r.kind in 'VER' else 'must return or signal an error')
        st.add('states', len(cs)); st.add('transitions', len(cs))
