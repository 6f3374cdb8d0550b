"""C06: continuations, dynamic-wind and multiple values, against the reference evaluator (vlib/rs.py)."""
from vlib import core, table, prog, rs
from vlib.rs import parse, rules, tx, Sym, Dot, Vlit
from vlib.gram import G

ID = 'C06'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of programs over grammars of call/cc, dynamic-wind, values, guard, raise and error, each run by the real code and by an explicit machine model of nested continuations and dynamic extents (value, output trace, error-or-not compared), followed by a probe of the state left behind'
NOTE = 'Bounded: all programs of the listed grammars up to the listed sizes. Continuations of this implementation are escape-only: using one whose extent was left is an error, and the model says which ones those are.'
BUILDS = [('compact', 'rel'), ('fatty', 'rel'), ('compact', 'asan')]
BOUNDS = {'quick': 'all programs of size 6 (wind), 5 (after, mix), 4 (esc, mv), two continuation variables and one global one, up to 5 nested extents',
          'thorough': 'size 7 (wind), 6 (after, mix), 5 (esc), both layouts, AddressSanitizer'}
NONVACUOUS = {'states': 100000, 'error_cases': 1000}

PRO = '(define g (lambda (x) (list "g" x))) (define (k . x) (t "K") (list "k" x)) (define (j . x) (t "J") (list "j" x))'
CC = ['(call/cc (lambda (k) $E))', '(call-with-current-continuation (lambda (j) $E))']
WIND = ['(dynamic-wind (lambda () (t "b")) (lambda () $E) (lambda () (t "a")))', '(dynamic-wind (lambda () (t "B")) (lambda () (t "T") $E) (lambda () (t "A")))']
FAMS = {}
def fam(name, pro, rl, start, quick, thorough):
    FAMS[name] = (pro, G(rules(rl)), start, quick, thorough)

fam('wind', PRO, {'E': ['1', '(k 2)', '(j 3)', '(k $E)', '(j $E)', '(list $E $E)', '(begin $E $E)', '(t 4 $E)', '(begin (set! g k) $E)', '(g $E)', '(if $E $E $E)', '(set! k j)'] + CC + WIND}, 'E', [1, 2, 3, 4, 5, 6], [7])
# escapes from the before and after thunks, and while others are pending
fam('after', PRO, {'S': [(0, '(call/cc (lambda (k) $W))'), (0, '(call/cc (lambda (j) (t 1) (call/cc (lambda (k) $W))))'), (0, '(list 0 (call/cc (lambda (j) (list 1 (call/cc (lambda (k) (list 2 $W)))))))'),
        (0, '(dynamic-wind (lambda () (t "x")) (lambda () (call/cc (lambda (j) (call/cc (lambda (k) $W)) (j 5)))) (lambda () (t "y")))'), (0, '(guard (e (#t (t 8) e)) (call/cc (lambda (k) $W)))'), (0, '(guard (e (#t (k e))) (call/cc (lambda (k) $W)))'),
        (0, '(call/cc (lambda (k) (guard (e (#t (k e))) $W)))'), (0, '(call/cc (lambda (k) (with-exception-handler (lambda (e) (t 9) (k e)) (lambda () (list $W)))))')],
   'W': ['(dynamic-wind (lambda () $X) (lambda () $X) (lambda () $X))', '(dynamic-wind (lambda () (t "b")) (lambda () $W) (lambda () $X))', '(dynamic-wind (lambda () (t "B")) (lambda () $W $X) (lambda () (t "A")))'],
   'X': [(0, '(t "n" 0)'), '(k 1)', '(j 2)', '(raise 3)', '(begin (t "s") (k (t "r" 4)))', '(car 5)', '(guard (e (#t (t e))) (raise 6))', '(guard (e (#f (t e))) (raise 7))', '(call/cc (lambda (m) (m 8)))', '(begin (set! g k) 0)', '(g 9)', '(dynamic-wind (lambda () (t "p")) (lambda () (k 10)) (lambda () (t "q")))', '$W', '(values 1 2)', '(k 1 2)']}, 'S', [1, 2, 3, 4, 5], [6])
# every operand position through which a continuation can be taken
fam('esc', PRO, {'S': ['(call/cc (lambda (k) $E))', '(list (call/cc (lambda (k) $E)) (t 7 7))', '(begin (call/cc (lambda (k) (set! g k) $E)) (g 4))', '(call/cc (lambda (k) (dynamic-wind (lambda () (t "b")) (lambda () $E) (lambda () (t "a")))))', '(call/cc (lambda (k) (guard (e (#t (list e))) $E)))',
        '(call/cc (lambda (k) (guard (e ((k e) 5)) $E)))', '(call/cc (lambda (k) (guard (e (#f 5)) $E)))', '(call-with-values (lambda () (call/cc (lambda (k) $E))) list)', '(receive (x . y) (call/cc (lambda (k) $E)) (list x y))', '(begin (call/cc (lambda (k) (set! g k) (list $E))) (call/cc (lambda (k) (t 6) $E)))'],
   'E': ['1', '(k 2)', '(k)', '(k 3 4)', '(g 5)', '(list $E (t 1 1))', '(if $E (t 2) (t 3))', '(let ((x $E)) (list x))', '(let* ((x $E) (y $E)) (list x y))', '(letrec ((x $E)) (list x))', '(begin (t 4) $E (t 5))', '(cond ($E => list) (else 1))', '(cond (#f 1) ($E (t 5)) (else 2))', '(case $E ((1) 2) (else 3))', '(and $E (t 8 8))', '(or #f $E (t 8 8))',
         '(apply k (list $E))', '(apply list $E (list 1))', '(map (lambda (x) $E) (list 1 2))', '(for-each (lambda (x) (t x) $E) (list 1 2))', '(do ((i 0 (+ i 1))) ((= i 2) $E) (t i))', '(do ((i $E (+ i 1))) ((= i 2) 5) $E)', '(force (delay $E))', '(let () (define x $E) (list x))', '(eval (list (quote g) 1) (interaction-environment))',
         '(call-with-values (lambda () $E) (lambda x (list x)))', '(call-with-values (lambda () (values 1 2)) (lambda (x y) $E))', '(receive x $E (list x))', '($E 1)', '(vector $E $E)', '(set! g k)', '(set! g $E)', '(call/cc (lambda (m) $E (m 9)))', '(call/cc (lambda (m) (k (m $E))))', '(call/cc k)', '(let lp ((i 0)) (if (= i 2) $E (lp (+ i 1))))', '`(1 ,$E ,@(list $E))', '(with-exception-handler k (lambda () $E))',
         '(with-exception-handler (lambda (e) $E) (lambda () (raise 1)))', '(with-exception-handler (lambda (e) (k e)) (lambda () $E))', '(raise $E)', '(guard (e (#t $E)) (raise 1))', '(guard (e ($E 2)) (raise 1))', '(car $E)', '(dynamic-wind (lambda () (t "B")) (lambda () $E) (lambda () (t "A")))', '(k (k $E))', '(begin (define-macro (mc) (list (quote quote) 1)) $E)']}, 'S', [1, 2, 3, 4], [5])
fam('mv', '(define (k . x) 0)', {'S': ['(call-with-values (lambda () $E) list)', '(call-with-values (lambda () $E) (lambda (a) (list a)))', '(call-with-values (lambda () $E) (lambda (a b) (list a b)))', '(call-with-values (lambda () $E) (lambda (a . b) (list a b)))', '(receive x $E x)', '(receive (a b) $E (list a b))', '(receive (a . b) $E (list a b))', '(receive () $E 1)', '(list $E)', '$E', '(begin $E 5)', '(define x $E)',
        '(call-with-values (lambda () (guard (e (#t (values e 5))) $E)) list)', '(call-with-values (lambda () (dynamic-wind (lambda () (t 1)) (lambda () $E) (lambda () (t 2)))) list)', '(call-with-values (lambda () (call/cc (lambda (k) $E))) list)', '(call-with-values (lambda () (with-exception-handler list (lambda () $E))) list)', '(call-with-values (lambda () (call-with-values (lambda () $E) values)) list)', '(call-with-values (lambda () $E) k)', '(call-with-values list (lambda x (call-with-values (lambda () $E) list)))',
        '(call-with-values (lambda () $E) (lambda x (apply values x)))', '(list (call-with-values (lambda () $E) list) (call-with-values (lambda () $E) list))'],
   'E': ['(values)', '(values 1)', '(values 1 2)', '(values (list 1) 2 3)', '1', '(values $E $E)', '(begin $E $E)', '(begin 1 $E)', '(if $E $E 1)', '(if #t $E)', '(let ((x $E)) x)', '(let ((x 1)) $E)', '(let* ((x 1)) $E)', '(letrec ((x 1)) $E)', '(let f ((x 1)) $E)', '(let () (define y 1) $E)', '(let () (define y $E) y)', '(cond (#t $E))', '(cond (#f 1) (else $E))', '(cond ($E))', '(cond ($E => values))', '(cond (1 => (lambda (x) $E)))', '(case 1 ((1) $E))', '(case 2 ((1) 1) (else $E))', '(case $E ((1) 1) (else 2))', '(and $E)', '(and 1 $E)', '(or $E)', '(or #f $E)', '(and $E 1)', '(or $E 1)',
         '(apply values (list 1 2 3))', '(apply values $E (list 3))', '((lambda x $E) 1)', '((lambda x x) $E)', '(k $E)', '(k 6 7)', '(k)', '(do () (#t $E))', '(do ((i $E i)) (#t i))', '(force (delay $E))', '(dynamic-wind (lambda () $E) (lambda () 1) (lambda () 2))', '(dynamic-wind (lambda () 1) (lambda () 2) (lambda () $E))', '(dynamic-wind (lambda () 1) (lambda () $E) (lambda () 2))', '(guard (e (#t $E)) (raise 1))', '(guard (e (#f 1)) $E)', '(raise $E)', '(set! k $E)', '(call/cc (lambda (m) $E))', '(call/cc (lambda (m) (m 1 2)))', '(eval (quote (values 4 5)) (interaction-environment))', '(call-with-values (lambda () $E) (lambda x $E))', '(receive x $E (apply values x))', '(for-each (lambda (x) $E) (list 1))', '(for-each (lambda (x) $E) (list 1 2))', '($E 1)', '(not $E)', '(vector $E)', '`(1 ,$E)']}, 'S', [1, 2, 3, 4], [])
fam('mix', PRO, {'E': ['1', '(k $E)', '(raise $E)', '(error "x" $E)', '(car $E)', '(list $E $E)', '(begin (t 4) $E)', '(begin $E $E)', '(guard (e (#t (t "G") e)) $E)', '(guard (e ((eqv? e 1) (t "H") e)) $E)', '(guard (e (#f 1)) $E)', '(with-exception-handler (lambda (e) (t "h") (k e)) (lambda () $E))', '(with-exception-handler (lambda (e) (t "i") $E) (lambda () $E))', '(values $E $E)', '(call-with-values (lambda () $E) list)', '(begin (set! g k) $E)', '(g $E)'] + CC[:1] + WIND}, 'E', [1, 2, 3, 4, 5], [6])

PROBE = parse('''(list (call/cc (lambda (k) (dynamic-wind (lambda () (t "pb")) (lambda () (k 7)) (lambda () (t "pa"))))) (guard (e (#t (list e))) (with-exception-handler (lambda (e) (t "ph") (raise (list e))) (lambda () (raise 8)))) (call-with-values (lambda () (values 1 2)) list))''')
def famitems(name, cfg, fl, sizes, per=30000):
    pro, g, start, q, t = FAMS[name]
    o = []
    for n in sizes:
        c = g.count(start, n)
        k = max(1, (c + per - 1) // per)
        o += [('fam', cfg, fl, name, n, i, k) for i in range(k)]
    return o

def items(tier):
    th = tier == 'thorough'
    o = []
    for name, (pro, g, start, q, t) in FAMS.items():
        o += famitems(name, 'compact', 'rel', q)
        if th:
            o += famitems(name, 'compact', 'rel', t) + famitems(name, 'fatty', 'rel', q) + famitems(name, 'compact', 'asan', q)
        else:
            o += famitems(name, 'fatty', 'rel', q[:-1]) + famitems(name, 'compact', 'asan', q[:-2])
    return o

GUARDED = parse('(guard (e (#t (t "caught") 0)) $X)')[0]
def subst(t, v):
    from vlib.gram import N
    if isinstance(t, N): return v
    if type(t) is list: return [subst(e, v) for e in t]
    return t
def run_item(item, st, tier):
    kind, cfg, fl = item[:3]
    spec = dict(cfg=cfg, flavor=fl, files=['rows.scm', 't.scm'])
    name, n, i, k = item[3:]
    pro, g, start, q, t = FAMS[name]
    s = prog.Suite(pro)
    c = g.count(start, n)
    lo, hi = c * i // k, c * (i + 1) // k
    prog.run(st, spec, s, g.iter(start, n, lo, hi))
    if cfg == 'compact' and (n < q[-1] or tier == 'thorough'):
        prog.runs(st, spec, s, ([subst(GUARDED, p)] + PROBE for p in g.iter(start, n, lo, hi)))
