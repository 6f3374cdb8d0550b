"""C04: proper tail recursion, measured on the C stack."""
import itertools
from vlib import core, table
from vlib.core import case, compare
from vlib.table import Exp

ID = 'C04'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of all nestings of tail contexts around every way of calling the next iteration; the real loop runs and the C stack pointer is sampled at the same point of every iteration (the reachable set of stack depths must repeat with the period of the loop), and long runs in a fixed small heap bound the memory of the loop'
NOTE = 'Bounded: nestings up to the listed depth. eval is documented as outside of the guarantee (doc/spec.txt) and call/cc keeps a frame (continuations are nested-only).'
BUILDS = [('compact', 'rel'), ('fatty', 'rel')]
BOUNDS = {'quick': 'depth 2 for all 56 contexts x 16 calls, depth 3 for 24 contexts x 6 calls, mutual recursion of 2 procedures through every pair of contexts, 40 iterations each; 40000 iterations in 2 heaps of 4000 cells for depth 1 and the pairs of 24 contexts (4000)',
          'thorough': 'depth 3 for all contexts x 4 calls, 400000 iterations, both layouts'}
NONVACUOUS = {'states': 50000, 'nontail_grows': 20}

# $X: tail position
CTX = ['$X', '(begin (tf) $X)', '(begin $X)', '(if (tt) $X 1)', '(if (tf) 1 $X)', '(if (tt) $X)', '(cond ((tt) $X))', '(cond ((tf) 1) ((tt) 2 $X) (else 3))', '(cond ((tf) 1) (else 2 $X))', '(cond (else $X))', '(cond ((tf)) (else $X))', '(case (tf) ((#f) 1 $X) (else 2))', '(case 1 ((2) 3) (else $X))', '(case 1 ((2) 3) ((5 1) $X))', '(and $X)', '(and (tt) $X)', '(and 1 2 $X)', '(or $X)', '(or (tf) $X)', '(or #f #f $X)',
       '(let () $X)', '(let ((m n)) $X)', '(let ((m n) (o 1)) (tf) $X)', '(let* () $X)', '(let* ((m n) (o m)) $X)', '(let* ((m n)) (tf) $X)', '(letrec () $X)', '(letrec ((m 1)) $X)', '(letrec ((m (lambda () m))) (tf) $X)', '(let lp ((m n)) $X)', '(let lp () (tf) $X)', '(let lp ((i 0)) (if (< i 2) (lp (+ i 1)) $X))', '(let () (define m 1) $X)', '(let () (define (m) $X) (m))', '(let () (begin (define m 1)) (begin (tf) $X))', '(do () ((tt) $X))', '(do ((i 0 (+ i 1))) ((= i 2) 1 $X) (tf))',
       '((lambda () $X))', '((lambda (m) $X) 1)', '((lambda m (tf) $X) 1 2)', '((lambda (a . m) $X) 1 2)', '((if (tt) (lambda () $X) 1))', '(apply (lambda () $X) (list))', '(apply (lambda (a b) $X) 1 (list 2))', '(call-with-values (lambda () 1) (lambda (m) $X))', '(call-with-values (lambda () (values 1 2)) (lambda m $X))', '(call-with-values values (lambda () (tf) $X))', '(receive (a b) (values 1 2) $X)', '(receive m (values) (tf) $X)', '(let-optionals* (list 1) ((a 2) (b 3)) $X)', '(let-optionals* (list) ((a 2) . r) (tf) $X)', '(and-let* ((m n)) $X)', '(and-let* () $X)', '(and-let* ((m 1) ((tt)) m) (tf) $X)', '(tm $X)', '(tm2 $X)', '(thunk (lambda () $X))', '(let ((loop loop)) $X)', '(cond (5 => (lambda (m) $X)))', '(let ((m (lambda () $X))) (m))']
CORE = ['(begin (tf) $X)', '(if (tt) $X 1)', '(if (tf) 1 $X)', '(cond ((tf) 1) ((tt) 2 $X) (else 3))', '(cond (else $X))', '(case 1 ((2) 3) ((5 1) $X))', '(case 1 ((2) 3) (else $X))', '(and 1 2 $X)', '(or #f $X)', '(let ((m n) (o 1)) (tf) $X)', '(let* ((m n) (o m)) $X)', '(letrec ((m (lambda () m))) $X)', '(let lp ((i 0)) (if (< i 2) (lp (+ i 1)) $X))', '(let () (define (m) $X) (m))', '(do ((i 0 (+ i 1))) ((= i 2) 1 $X) (tf))', '((lambda m (tf) $X) 1 2)', '(apply (lambda (a b) $X) 1 (list 2))', '(call-with-values (lambda () (values 1 2)) (lambda m $X))', '(receive (a b) (values 1 2) $X)', '(let-optionals* (list 1) ((a 2) (b 3)) $X)', '(and-let* ((m 1) ((tt)) m) $X)', '(tm2 $X)', '(thunk (lambda () $X))', '(cond (5 => (lambda (m) $X)))']
CALL = ['(loop (- n 1))', '(apply loop (list (- n 1)))', '(apply loop (- n 1) (list))', '(call-with-values (lambda () (- n 1)) loop)', '((lambda (f) (f (- n 1))) loop)', '((if (tt) loop 1) (- n 1))', '((begin loop) (- n 1))', '(let ((g loop)) (g (- n 1)))', '(receive (g m) (values loop (- n 1)) (g m))', '((car (list loop)) (- n 1))', '(begin (guard (e (#t 1)) (raise 1)) (loop (- n 1)))', '(begin (call/cc (lambda (k) (list (k 1)))) (loop (- n 1)))', '(begin (dynamic-wind tf tf tf) (loop (- n 1)))', '(begin (guard (e (#t 1)) (car 1)) (map (lambda (x) (+ x 1)) (list 1 2)) (loop (- n 1)))',
        '(begin (with-exception-handler tf (lambda () 1)) (loop (- n 1)))', '(cond ((- n 1) => loop))']
PARTNER = ['(define (loop n) (%%rec n) (if (< n 1) (%%verdict %d) %s))', '(define (loop . n) (set! n (car n)) (%%rec n) (if (< n 1) (%%verdict %d) %s))', '(define loop (let ((k 0)) (lambda (n) (%%rec n) (set! k (+ k 1)) (if (< n 1) (%%verdict %d) %s))))', '(define (loop n) (define q n) (%%rec q) (if (< q 1) (%%verdict %d) %s))']
# not tail positions: the stack has to grow (nonvacuity of the measurement)
NONTAIL = ['(+ 1 $X)', '(begin $X 1)', '(list $X)', '(if $X 1 2)', '(let ((m $X)) m)', '(and $X 1)', '(or $X 1)', '(cond ($X 1))', '(cond ($X => list))', '(case $X ((1) 1) (else 2))', '(dynamic-wind tf (lambda () $X) tf)', '(guard (e (#f 1)) $X)', '(map (lambda (x) $X) (list 1))', '(let* ((m $X)) m)', '(letrec ((m $X)) m)', '(apply list (list $X))', '(call-with-values (lambda () $X) list)', '(do ((i $X 1)) (#t 1))', '(force (delay $X))', '(vector $X)', '(set! g $X)', '`(1 ,$X)', '(receive m $X m)']

def nest(cs, call):
    s = call
    for c in reversed(cs): s = c.replace('$X', s)
    return s
def ctxs(name): return {'all': CTX, 'core': CORE}[name]
def programs(depth, cname, ncall, part, parts):
    C = ctxs(cname)
    for i, cs in enumerate(itertools.product(C, repeat=depth)):
        if i % parts != part: continue
        for k in range(ncall):
            p = PARTNER[i % len(PARTNER)]
            yield nest(cs, CALL[k]), p
def run_rows(st, spec, progs, n):
    rows = []
    def flush():
        table.run(st, spec, rows, 'w', ''); rows.clear()
    for body, p in progs:
        rows.append(((p % (10, body)) + ' (loop %d)' % n, Exp('ok', '')))
        if len(rows) >= 20000: flush()
    if rows: flush()

def items(tier):
    th = tier == 'thorough'
    o = [('nontail', 'compact', 'rel'), ('nontail', 'fatty', 'rel')]
    for cfg in ('compact', 'fatty'):
        o += [('nest', cfg, 'rel', 1, 'all', 16, 0, 1)]
        o += [('nest', cfg, 'rel', 2, 'all', 16 if th or cfg == 'compact' else 4, i, 8) for i in range(8)]
        o += [('nest', cfg, 'rel', 3, 'core', 6 if th or cfg == 'compact' else 2, i, 8) for i in range(8)]
        if th: o += [('nest', cfg, 'rel', 3, 'all', 4, i, 32) for i in range(32)]
        o += [('mutual', cfg, 'rel', i, 8) for i in range(8)]
        o += [('long', cfg, 'rel', 1, i, 16, 400000 if th else 40000) for i in range(16)]
        o += [('long', cfg, 'rel', 2, i, 16, 20000 if th else 4000) for i in range(16)]
    return o
def run_item(item, st, tier):
    kind, cfg, fl = item[:3]
    spec = dict(cfg=cfg, flavor=fl, files=['tail.scm'])
    if kind == 'nest':
        run_rows(st, spec, programs(*item[3:]), 40)
    elif kind == 'mutual':
        part, parts = item[3:]
        rows = []
        for i, (a, b) in enumerate(itertools.product(CTX, CTX)):
            if i % parts != part: continue
            for c1, c2 in [('(other (- n 1) 5)', '(loop (- m 1))'), ('(apply other (- n 1) (list 5))', '(apply loop (list (- m 1)))')]:
                rows.append(('(define (loop n) (%%rec n) (if (< n 1) (%%verdict 8) %s)) (define (other mm o) (let ((n mm)) %s)) (loop 60)' % (a.replace('$X', c1), b.replace('$X', c2.replace('m ', 'mm '))), Exp('ok', '')))
        table.run(st, spec, rows, 'w', '')
    elif kind == 'long':
        depth, part, parts, n = item[3:]
        spec = dict(spec, heap=4000, heaps_init=2, heaps_max=2, limit=60000)
        rows = []
        C = CTX if depth == 1 else CORE
        i = 0
        for cs in itertools.product(C, repeat=depth):
            for k in range(len(CALL) if depth == 1 else 1):
                i += 1
                if i % parts != part: continue
                call = CALL[k] if depth == 1 else CALL[(i * 7) % len(CALL)]
                rows.append(('(define (loop n) (if (< n 1) (quote done) %s)) (loop %d)' % (nest(cs, call), n), Exp('done', '')))
        table.run(st, spec, rows, 'w', 'L')
    elif kind == 'nontail':
        cases = [case('(define v #f) ' + ('(define (loop n) (%%rec n) (if (< n 1) (begin (set! v (%%verdict 10)) 1) %s))' % c.replace('$X', k)) + ' (begin (loop 40) (car v))') for c in NONTAIL for k in CALL]
        def judge(i, r):
            if r.kind == 'V' and r.val in ('grows', b'grows'): st.add('nontail_grows', 1); return None
            if r.kind == 'E': return None
            return 'the stack of a recursion that is not a tail call should grow (self-check of the measurement)'
        compare(st, spec, cases, judge)
