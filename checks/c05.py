"""C05: core evaluation, against a reference evaluator (vlib/rs.py)."""
import itertools
from vlib import core, table, prog, rs
from vlib.table import V, E, Exp
from vlib.rs import parse, rules, tx, Sym, Dot, Vlit
from vlib.gram import G

ID = 'C05'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of programs over grammars of the primitive and derived expression types, each evaluated by the real code and by an independent reference evaluator (value, output, error-or-not compared)'
NOTE = 'Bounded: all programs of the listed grammars up to the listed sizes. Programs whose behaviour R5RS leaves open (value of an unspecified expression used, letrec restriction, duplicate variables) are counted as not_judged.'
BUILDS = [('compact', 'rel'), ('fatty', 'rel'), ('compact', 'asan')]
BOUNDS = {'quick': 'programs of size 5 (scope, closures, control, loops), promises of size 6, bodies up to 3 items in 12 contexts, all formals of <= 3 variables x <= 5 operands, every syntax and 12 procedures shadowed in 12 ways, malformed forms with one fault',
          'thorough': 'programs of size 6, promises of size 7, bodies of size 5, both layouts, AddressSanitizer'}
NONVACUOUS = {'states': 200000, 'error_cases': 2000}

TFN = '(define (t n . v) (display n) (display " ") (if (pair? v) (car v)))'
FAMS = {}
def fam(name, pro, rl, start, quick, thorough):
    FAMS[name] = (pro, G(rules(rl)), start, quick, thorough)

fam('scope', '(define a 10) (define b 20) (define (f x) (list "g" x))', {
    'E': ['1', 'a', 'b', '(f $E)', '(set! $V $E)', '(let (($V $E)) $E)', '(let ((a $E) (b $E)) $E)', '(let* ((a $E) (b $E)) $E)',
          '(let* ((b $E) (a $E)) $E)', '(let* ((a $E) (a $E)) $E)', '(letrec ((f $L)) $E)', '(letrec ((f $L) (a $E)) $E)', '(let ((f $L)) $E)', '((lambda ($V) $E) $E)', '((lambda $V $E) $E)',
          '((lambda (b . a) $E) $E $E)', '(begin $E $E)', '(let () (define $V $E) $E)', '(let () (define (f $V) $E) $E)', '(let f (($V $E)) $E)',
          '(list $E $E)', '(if (eqv? a 10) $E $E)', '(t a $E)', '(do ((a $E b) (i 0 (+ i 1))) ((eqv? i 2) $E) $E)'],
    'L': [(0, '(lambda ($V) $E)')], 'V': [(0, 'a'), (0, 'b')]}, 'E', [1, 2, 3, 4, 5], [6])
fam('closure', '(define (mk n) (lambda (x) (set! n (+ n x)) n)) (define a (mk 1)) (define b (mk 10)) (define c a)', {
    'E': ['1', '(a $E)', '(b $E)', '(c $E)', '((mk $E) $E)', '(+ $E $E)', '(let ((a b) (b a)) $E)', '(let* ((a b) (b a)) $E)', '(begin (set! a (mk $E)) $E)', '(begin (set! c b) $E)',
          '(let ((mk (lambda (n) (lambda (y) (set! n (* n y)) n)))) $E)', '(let ((a (mk $E))) $E)', '(list $E $E)', '(let () (define n $E) (define (a x) (set! n (+ n x)) n) $E)',
          '(letrec ((a (lambda (x) (if (< x 3) (b (+ x 1)) x))) (b (lambda (x) (if (< x 3) (a (+ x 2)) (list x))))) $E)',
          '(map a (list $E $E))', '(apply b (list $E))', '(do ((i 0 (+ i 1)) (l (list) (cons (lambda () i) l))) ((= i 2) (map (lambda (p) (p)) l)) $E)']}, 'E', [1, 2, 3, 4, 5], [6])
fam('control', '', {
    'E': ['(t 1 #t)', '(t 2 #f)', '(t 3 7)', '(if $E $E)', '(if $E $E $E)', '(and)', '(and $E)', '(and $E $E)', '(and $E $E $E)', '(or)', '(or $E)', '(or $E $E)', '(or $E $E $E)',
          '(cond ($E))', '(cond ($E $E) ($E $E))', '(cond ($E $E) (else $E))', '(cond ($E => list) (else $E))', '(cond ($E => $P))', '(cond ($E $E $E))', '(cond ($E) (else $E $E))',
          '(case $E ((7) $E) (else $E))', '(case $E ((#t #f) $E) ((8 7) $E $E))', '(case $E ((#f) $E) (() $E))', '(begin $E $E)', '(not $E)', '(list $E $E)', '(let ((x $E)) (if x x $E))',
          '(do ((i 0 (+ i 1))) ((or (= i 2) $E) $E) $E)', '(do ((i 0 (+ i 1)) (x $E $E)) ((= i 2) x))', '(< $E $E $E)', '(vector $E $E)', '($P $E)'],
    'P': ['(lambda (x) $E)', '(begin (t 4) list)', '(if $E list vector)', '(t 5 car)']}, 'E', [1, 2, 3, 4, 5], [6])
fam('loop', '', {
    'S': ['(let lp ((i 0) (a $I)) (if (< i 3) $B (list i a)))', '(do ((i 0 (+ i 1)) (a $I $X)) ((= i 3) (list i a)) (t i))', '(do ((i 0 (+ i 1)) (a $I)) ((= i 3) (list i a)) (set! a $X))',
          '(letrec ((lp (lambda (i a) (if (< i 3) $B (list i a))))) (lp 0 $I))', '(let () (define (lp i a) (if (< i 3) $B (list i a))) (lp 0 $I))',
          '(let ((lp #f)) (set! lp (lambda (i a) (if (< i 3) $B (list i a)))) (lp 0 $I))', '(do ((a $I $X) (i 0 (+ i 1)) (l (list))) ((= i 2) (cons a (map (lambda (p) (p)) l))) (set! l (cons (lambda () (t i a)) l)))',
          '(let lp ((i 0) (lp2 $I)) (let lp2 ((j 0)) (if (< j 2) (begin (t (list i j)) (lp2 (+ j 1))))) (if (< i 1) (lp (+ i 1) lp2) lp2))'],
    'B': ['(lp (+ i 1) $X)', '(cons $X (lp (+ i 1) a))', '(cond ($C (lp (+ i 1) $X)) (else $X))', '(and $C (lp (+ i 1) $X))', '(or (and $C $X) (lp (+ i 1) $X))', '(begin (set! a $X) (lp (+ i 1) a))',
          '(let ((i (+ i 1))) (lp i $X))', '(let ((a $X)) (lp (+ i 1) a))', '(case i ((0 2) (lp (+ i 1) $X)) (else (lp (+ i 1) a)))', '(apply lp (list (+ i 1) $X))', '((lambda (i a) (lp i a)) (+ i 1) $X)',
          '(let lp ((i (+ i 1)) (a $X)) (if (< i 3) (list i a) a))', '(let* ((f lp) (lp 5)) (f (+ i 1) $X))', '(do ((lp (+ i 1) (+ lp 1))) ((> lp 2) (list lp $X)))'],
    'I': [(0, '0'), '(list)', '(t 9 1)'],
    'X': [(0, 'i'), 'a', '(cons i a)', '(list a i)', '(t i a)', '(t 7 i)', '(let ((i a)) (list i i))'],
    'C': [(0, '(< i 2)'), '(pair? a)', '(t 8 #t)', '(= i 1)']}, 'S', [1, 2, 3, 4, 5], [6])
# iterations of do: how many variables, which have a step, what is captured or assigned in an iteration
fam('doframe', '(define fs (list)) (define (cap! p) (set! fs (cons p fs))) (define (all) (map (lambda (p) (p)) fs)) (define n 0)', {
    'S': ['(do ($1) ((= $N 3) (list $N $R)) $B)', '(do ($1 $2) ((= $N 3) (list $N $R)) $B)', '(do ($2 $1) ((= $N 3) (list $N $R)) $B)', '(do ($1 $2 $2b) ((= $N 3) (list $N $R)) $B)', '(do () ((= n 3) $R) (set! n (+ n 1)) $B)',
          '(let ((i 0) (j 7)) (do ($2) ((= i 3) (list i $R)) (set! i (+ i 1)) $B))', '(list (do ($1) ((begin $B (= $N 3)) $R)) (do ($1) ((= $N 2) $R) $B))', '(do ($1) ((= $N 2) $R) (do ($1) ((= $N 2) $N) $B))', '(do ($1) ((= $N 2) $R) (do ($2) ((= j 2) j) $B (set! j 2)))'],
    '1': ['(i 0 (+ i 1))', '(i 0 (begin $B (+ i 1)))', '(i (begin $B 0) (+ 1 i))'],
    '2': ['(j 4)', '(j 5 (+ j 1))', '(j 5 (list $N j))', '(j 5 (begin $B j))'], '2b': ['(k 6 j)', '(k 6)'],
    'N': [(0, 'i')], 'R': ['(all)', '(begin $B (all))', '(map (lambda (p) (p)) (reverse fs))'],
    'B': ['1', '(cap! (lambda () $N))', '(cap! (lambda () (set! i (+ i 10)) i))', '(cap! (lambda () j))', '(cap! (lambda () (set! j i) (list i j)))', '(set! j (list j))', '(begin $B $B)', '(let ((i (+ i 20))) $B)', '(call/cc (lambda (k) (cap! (lambda () i)) (k 1)))', '(cap! (lambda () (do ((i i (+ i 1))) ((= i 4) i) 1)))', '(all)']}, 'S', [4, 5, 6], [7])
fam('promise', '(define x 1) (define p #f)', {
    'S': [(0, '(begin (set! p (delay $E)) $U)')],
    'U': ['(list (force p) (force p) x)', '(let ((x 50)) (list (force p) x))', '(begin (set! x 5) (list (force p) (force p) x))', '(let ((q p)) (set! p (delay 3)) (list (force q) (force p) (force q) x))', '(list x (procedure? p))',
          '(+ (force p) (begin (set! x 100) (force p)))'],
    'E': ['x', '1', '(t x x)', '(begin (set! x (+ x 1)) $E)', '(let ((x 20)) $E)', '(+ $E $E)', '(if (> x 1) $E $E)', '(if (< x 4) (begin (set! x (+ x 1)) (force p)) $E)', '(force (delay $E))', '(let ((q (delay $E))) (list (force q) (force q)))',
          '(begin (set! x (+ x 1)) (if (< x 4) (force p)) $E)']}, 'S', [2, 3, 4, 5, 6], [7])
# bodies
ITEM = ['(define a $E)', '(define b $E)', '(define (g) $E)', '(define (g b) $E)', '(define (g . a) $E)', '(begin (define a $E) (define b $E))', '(begin)', '(begin $E (define b 3))', '(begin (begin (define b $E)))', '$E', '(t 1 $E)', '(set! a $E)', '(begin (t 2 $E) $E)', '(define)', '(define a)', '(define a $E $E)', '(define (g))', '(define 5 $E)',
        '(define a (t 3 (g)))', '(if #t (define b 6))', '(let () (define b $E) b)', '(let ((define list)) (define a b))', '(define ((g a) b) $E)', '(define "a" $E)', '(set! zz $E)', '(define-record-type 1)']
CTX = ['(let () $I $I)', '(let () $I $I $I)', '(let ((a 1)) $I $I)', '(let* () $I $I)', '(let* ((a 1) (b a)) $I $I)', '(letrec () $I $I)', '(letrec ((g (lambda () a))) $I $I)', '((lambda (a) $I $I) 5)', '((lambda a $I $I) 5 6)', '(let g ((a 2)) $I $I)', '(begin (define (h b) $I $I) (h 3))', '(begin $I $I)', '(if #t $I $I)', '(cond (#t $I $I))', '(cond (else $I $I))', '(case 1 ((1) $I $I))', '(and $I $I)', '(or #f $I)', '(do ((i 0 (+ i 1))) ((= i 1) $I) $I)',
       '(list $I a)', '(begin (begin $I $I) (list a b (g)))', '(guard (e (#f 1)) $I $I)', '(guard (e (else $I a)) (raise 1))', '(guard (e (else a)) $I $I)', '(receive (a . b) (values 1 2) $I $I)', '(delay $I)', '(begin (define a $I) a)', '(dynamic-wind (lambda () $I 1) (lambda () $I) (lambda () 1))', '(let ((f (lambda () $I a))) (f) (f))', '(eval (quote $I) (interaction-environment))', '(let () (eval (quote $I) (interaction-environment)) a)']
fam('body', '(define a 10) (define b 20) (define (g . x) (list 30 x))', {'S': CTX, 'I': ITEM, 'E': [(0, '1'), 'a', 'b', '(g)', '(list a b)', '(lambda () a)']}, 'S', [1, 2, 3, 4], [5])
fam('quote', '(define x 5)', {'S': ['(quote $D)', '(list (quote $D) (quote $D))', '$D', '(let ((f (lambda () (quote $D)))) (eq? (f) (f)))', '(equal? (quote $D) (quote $D))', '(eqv? (quote $D) (quote $D))', '(let ((x (quote $D))) (if x (list x) 0))', '(case (quote $D) (($D) 1) (else 2))', '(case 5 (($D $D) 1) (else 2))', '(let ((quote list)) (quote $D))',
      '(vector (quote $D))', '(cond ((quote $D)) (else 9))'],
     'D': ['1', 'x', '#t', '#f', '"s"', '#\\a', '()', '($D)', '($D $D)', '($D . $D)', '($D $D . $D)', '#()', '#($D)', '#($D $D)', '(quote $D)', '(quasiquote $D)', '(unquote $D)', 'else', 'if', '-7', '(if $D)', '(lambda $D)', '(x . $D)', '(car $D)', '(cons $D $D)', '(quote . $D)', '(let $D $D)', '(let (($D $D)) $D)', '(let (x $D) $D)', '(set! x $D)', '(set! $D 1)', '(define $D 1)', '(begin . $D)', '(and . $D)', '(cond $D)', '(cond . $D)', '(case 1 $D)', '(do $D (#t 1))', '(do () $D 1)', '(lambda $D 1)', '(delay . $D)', '(case 1 ($D 2))']}, 'S', [2, 3, 4], [5])

def famitems(name, cfg, fl, sizes, per=40000):
    pro, g, start, q, t = FAMS[name]
    o = []
    for n in sizes:
        c = g.count(start, n)
        k = max(1, (c + per - 1) // per)
        o += [('fam', cfg, fl, name, n, i, k) for i in range(k)]
    return o

def items(tier):
    th = tier == 'thorough'
    o = []
    for name, (pro, g, start, q, t) in FAMS.items():
        o += famitems(name, 'compact', 'rel', q)
        if th:
            o += famitems(name, 'compact', 'rel', t) + famitems(name, 'fatty', 'rel', q) + famitems(name, 'compact', 'asan', q)
        else:
            o += famitems(name, 'fatty', 'rel', q[:-1]) + famitems(name, 'compact', 'asan', q[:-2])
    for cfg, fl in [('compact', 'rel'), ('fatty', 'rel'), ('compact', 'asan')]:
        o += [('formals', cfg, fl), ('order', cfg, fl), ('misc', cfg, fl)]
        o += [('shadow', cfg, fl, i) for i in range(4)]
        if fl == 'rel' or th: o += [('malformed', cfg, fl, i) for i in range(4)]
    return o

def run_item(item, st, tier):
    kind, cfg, fl = item[:3]
    spec = dict(cfg=cfg, flavor=fl, files=['rows.scm', 't.scm'])
    if kind == 'fam':
        name, n, i, k = item[3:]
        pro, g, start, q, t = FAMS[name]
        s = prog.Suite(pro)
        c = g.count(start, n)
        prog.run(st, spec, s, g.iter(start, n, c * i // k, c * (i + 1) // k))
        return
    s = prog.Suite('')
    prog.runs(st, spec, s, globals()['g_' + kind](*item[3:]), flags='f' if kind == 'malformed' else '')

# formals
def g_formals():
    for n in range(0, 4):
        for rest in (0, 1):
            for argc in range(0, 6):
                vs = [Sym(c) for c in 'xyz'[:n]]
                f = Dot(vs, Sym('r')) if rest and n else Sym('r') if rest else vs
                ref = [Sym('list')] + vs + ([Sym('r')] if rest else [])
                args = [[Sym('t'), i, i * 11] for i in range(argc)]
                vals = [Sym('list')] + args
                lam = [Sym('lambda'), f, ref]
                yield [[lam] + args]
                yield [[Sym('apply'), lam, vals]]
                for cut in range(0, argc + 1):
                    yield [[Sym('apply'), lam] + args[:cut] + [[Sym('list')] + args[cut:]]]
                df = Dot([Sym('fn')] + (vs if n else []), Sym('r')) if rest else [Sym('fn')] + vs
                yield [[Sym('define'), df, ref], [Sym('fn')] + args]
                yield [[Sym('define'), Sym('fn'), lam], [Sym('fn')] + args]
                yield [[Sym('let'), [[Sym('fn'), lam]], [Sym('fn')] + args]]
                yield [[Sym('letrec'), [[Sym('fn'), lam]], [Sym('fn')] + args]]
                yield [[Sym('let'), [], [Sym('define'), df, ref], [Sym('fn')] + args]]
                if not rest: yield [[Sym('let'), Sym('fn'), [[v, a] for v, a in zip(vs, args)], ref]] if argc == n else [[Sym('let'), Sym('fn'), [[v, 0] for v in vs], [Sym('if'), [Sym('eqv?'), vs[0] if n else 0, 0], [Sym('fn')] + args, ref]]] if n else [lam]
                # arguments are fresh: the rest list is not shared with the operand list
                if rest:
                    yield [[Sym('define'), Sym('l'), vals], [Sym('apply'), [Sym('lambda'), f, [Sym('if'), [Sym('pair?'), Sym('r')], [Sym('set-car!'), Sym('r'), 99]]], Sym('l')], Sym('l')]
                # every variable is assigned
                for v in vs + ([Sym('r')] if rest else []):
                    yield [[[Sym('lambda'), f, [Sym('set!'), v, 77], ref]] + args]
                    yield [[Sym('let'), [[v, 5]], [Sym('list'), [[Sym('lambda'), f, [Sym('set!'), v, 77], ref]] + args, v]]]

# shadowing of keywords and procedures
KW = ['quote', 'lambda', 'if', 'set!', 'begin', 'define', 'cond', 'case', 'and', 'or', 'let', 'let*', 'letrec', 'do', 'delay', 'else', '=>', 'guard', 'receive', 'define-macro', 'unquote', 'quasiquote',
      'list', 'car', 'cons', '+', 'apply', 'values', 'vector', 'map', 'call/cc', 'dynamic-wind', 'raise', 'error', 'eval', 'append', 'force', 'not', 'memv', 'eqv?', 'equal?', 'with-exception-handler', 'condition', 'guard-k', 'body', 'lex-env', 'handler-k', 'cond-catch']
USE = ['(if 1 2 3)', '(quote a)', '(begin 1 2)', '(define x 1)', '(cond (1 => list) (else 2))', '(cond (#f 1) (else 2))', '(cond (#f 1) (2))', '(case 1 ((1) 2) (else 3))', '(case 5 ((1) 2) (else 3))', '(let ((x 1)) x)', '(let* ((x 1) (y x)) (list x y))', '(letrec ((x 1)) x)', '(do ((i 0 (+ i 1))) ((= i 2) i))',
       '(lambda x x)', '((lambda x x) 1)', '(and 1 2)', '(or #f 2)', '(set! x 1)', '(list 1 2)', '(car (list 1 2))', '(cons 1 2)', '(+ 1 2)', '(apply list 1 (list 2))', '(call-with-values (lambda () (values 1 2)) list)', '(guard (e (#t (list 1 e))) (raise 2))', '(guard (e (#f 1)) (+ 1 2))', '(guard (e (#t 8)) (guard (e2 (#f 1)) (raise 2)))', '(map car (list (list 1)))', '(call/cc (lambda (k) (k 1)))', '(receive (a b) (values 1 2) (list a b))',
       '(force (delay 3))', '(not 1)', '(let loop ((i 0)) (if (< i 2) (loop (+ i 1)) i))', '(with-exception-handler (lambda (e) 1) (lambda () 2))', '(eval (quote (+ 1 2)) (interaction-environment))', '(begin (define-macro (mm a b) (list (quote list) b a)) (mm 1 2))', '(append (list 1) (list 2))', '(let () (define x 1) (+ x 1))', '(let () (begin (define x 1) (define y 2)) (list x y))', '(vector 1 2)', '(guard (e ((memv e (list 1 2)) => car)) (raise 1))', '(eqv? 1 1)', '(equal? 1 2)', '(error "x" 1)', '(dynamic-wind list list list)', '(raise 1)']
BINDV = ['list', 'vector', '5', '(lambda a (cons "s" a))']
def binders(k, v, use):
    yield '(let ((%s %s)) %s)' % (k, v, use)
    yield '((lambda (%s) %s) %s)' % (k, use, v)
    yield '(let* ((q 1) (%s %s)) %s)' % (k, v, use)
    yield '(letrec ((%s %s)) %s)' % (k, v, use)
    yield '(let () (define %s %s) (let () %s))' % (k, v, use)
    yield '(let () (define (fn %s) %s) (fn %s))' % (k, use, v)
    yield '(let %s ((q 1)) (if (eqv? q 1) 7 8))' % k
    yield '(let lp ((%s %s)) %s)' % (k, v, use)
    yield '(do ((%s %s)) (#t %s))' % (k, v, use)
    yield '((lambda (a . %s) (list a %s)) 1 2)' % (k, k)
    yield '(receive (%s) %s %s)' % (k, v, use)
    yield '(guard (%s (#t %s)) (raise %s))' % (k, use, v)
    yield '(let ((%s 1)) (set! %s %s) %s)' % (k, k, v, use)
    yield '(let ((f (lambda (n) %s))) (let ((%s %s)) (f 1)))' % (use, k, v)
    yield '(let ((%s %s)) ((lambda (%s) %s) 3))' % (k, v, 'zq', use)
    yield '(let ((%s %s)) (let ((%s %s)) %s))' % (k, v, k, 'cons', use)
def g_shadow(i):
    for k in KW[i::4]:
        for use in USE:
            for v in BINDV:
                for src in binders(k, v, use):
                    yield parse(src)

# one fault in a valid form
FORMS = ['(quote a)', '(lambda (x y) x y)', '((lambda (x . r) x) 1 2)', '(if 1 2 3)', '(set! v 1)', '(begin 1 2)', '(let ((x 1) (y 2)) x y)', '(let lp ((x 1)) x)', '(let* ((x 1) (y 2)) x y)', '(letrec ((x 1) (y 2)) x y)', '(do ((x 1 2) (y 2)) (#t 1 2) 3)', '(cond (#f 1) (1 2 3) (else 4))', '(cond (1 => list))', '(cond (else 1 2))', '(case 1 ((2 3) 4) ((1) 5 6) (else 7))', '(case 9 ((2 3) 4) (else 7 8))', '(and 1 2)', '(or #f 2)', '(delay 1)', '(define w 1)', '(define (w x y) x y)', '(define (w . r) r)', '(let () (define u1 1) (define (u2 x) x) u1)', '(guard (e (#f 1) (#t 2)) 3 4)', '(guard (e (#f 1) (else 2)) (raise 4))', '(receive (x . y) (values 1 2) x y)', '(car (quote (1)))', '(list 1 2)', '(define-macro (w x) x)', '((if #t car cdr) (list 1 2))']
FAULTS = ['5', '"s"', '()', '(1 2)', '#f', 'v', '(5)', '((5))', '(v 1)', '#(1)', '#\\a', '((v 1))', '(else 1)', '(v)', '(v . 1)']
def edits(x, faults):
    """all single faults of a form: drop, replace, insert, make improper"""
    if type(x) in (list, Dot):
        T = (lambda xs: Dot(xs, x.tail)) if type(x) is Dot else list
        for i in range(len(x)):
            if len(x) > 1 or type(x) is list: yield T(x[:i] + x[i + 1:]) if (len(x) > 1 or type(x) is list) else x
            for e in edits(x[i], faults): yield T(x[:i] + [e] + x[i + 1:])
        for i in range(len(x) + 1):
            for f in faults:
                yield T(x[:i] + [f] + x[i:])
        if type(x) is list and x:
            for f in faults:
                if not isinstance(f, list): yield Dot(list(x), f)
            if len(x) > 1 and not isinstance(x[-1], list): yield Dot(x[:-1], x[-1])
        for f in faults: yield f
    else:
        for f in faults: yield f
def g_malformed(k):
    fs = [parse(f)[0] for f in FAULTS]
    seen = set()
    for f in FORMS[k::4]:
        form = parse(f)[0]
        for e in edits(form, fs):
            t = tx(e)
            if t in seen: continue
            seen.add(t)
            yield [[Sym('define'), Sym('v'), 100], e]
            yield [[Sym('define'), Sym('v'), 100], [Sym('let'), [[Sym('q'), 1]], e]]

# evaluation order and single evaluation of operands
def g_order():
    ops = ['list', '+', '<', '=', '>', '<=', '>=', '*', '-', 'vector', 'cons', 'append', 'equal?', 'eqv?', '(lambda x x)', '(lambda (a b) (list b a))', '(lambda (a . b) (list b a))', '(begin (t 0) list)', '(let ((z 1)) (lambda x z))', 'apply', '(call/cc (lambda (k) k))', 'values', 'not', 'car', 'map', 'min']
    ops = [o for o in ops if o != 'min']
    for op in ops:
        for n in range(0, 4):
            for vals in itertools.product(['1', '2', '3'], repeat=n):
                args = ' '.join('(t %d %s)' % (i + 1, v) for i, v in enumerate(vals))
                yield parse('(%s %s)' % (op, args))
                yield parse('(let ((r 0)) (let ((x (%s %s))) (list r x)))' % (op, ' '.join('(begin (set! r (+ (* r 10) %d)) %s)' % (i + 1, v) for i, v in enumerate(vals))))
    for n in range(1, 4):
        for vals in itertools.product(['1', '2', '3'], repeat=n):
            b = ['(%s (t %d %s))' % ('xyz'[i], i, v) for i, v in enumerate(vals)]
            for l in ('let', 'let*', 'letrec'):
                yield parse('(%s (%s) (list %s))' % (l, ' '.join(b), ' '.join('xyz'[:n])))
            yield parse('(let lp (%s) (list %s))' % (' '.join(b), ' '.join('xyz'[:n])))
            yield parse('(do (%s) (#t (list %s)))' % (' '.join(b), ' '.join('xyz'[:n])))
            yield parse('(do (%s (i 0 (+ i 1))) ((= i 2) (list %s)))' % (' '.join('(%s (t %d %s) (t (list %d %s) (+ %s 1)))' % ('xyz'[i], i, v, i, 'xyz'[i], 'xyz'[n - 1 - i]) for i, v in enumerate(vals)), ' '.join('xyz'[:n])))
            yield parse('(let () %s (list %s))' % (' '.join('(define %s (t %d %s))' % ('xyz'[i], i, v) for i, v in enumerate(vals)), ' '.join('xyz'[:n])))
MISC = ['zz-unbound', '(set! zz-unbound 1)', '(zz-unbound 1)', '(define d1 5) (set! d1 (+ d1 1)) d1', '(define d1 5) (define d1 6) d1', '(define (d1) d2) (define d2 3) (d1)', '(define d3 (lambda () (d4))) (d3)', '(1 2)', '("a")', '((quote car) (quote (1)))', '(())', '()', '(car . (1))', "(car . ('(1 2)))", '(list . (1 2))', '(+ 1 . (2))', '(list 1 . 2)', '(if . (1 2 3))', '(let loop ((i 0)) (if (< i 1000) (loop (+ i 1)) i))', '(begin)', '(begin (begin))', '(begin 1)', '(define x 1) (begin (define x 2) (define y x) (list x y))',
        "(let ((x '(1 2 3))) (let ((y x)) (set-car! (list 1) 2) (eq? x y)))", '((lambda (x) (set! x 2) x) 1)', '(let ((x 1)) (define y x) (set! y 5) (list x y))', '((lambda () 1 2 3))', '(((lambda (x) (lambda (y) (list x y))) 1) 2)', '(let ((x 1) (y 2)) (let ((x y) (y x)) (list x y)))', '(let* ((x 1) (x (+ x 1)) (x (* x 10))) x)',
        '(letrec ((even? (lambda (n) (if (= n 0) #t (odd? (- n 1))))) (odd? (lambda (n) (if (= n 0) #f (even? (- n 1)))))) (list (even? 10) (odd? 10) (even? 7)))', '(define (f) (define (even? n) (if (= n 0) #t (odd? (- n 1)))) (define (odd? n) (if (= n 0) #f (even? (- n 1)))) (list (even? 10) (odd? 7))) (list (f) (f))',
        '(define k 1) (define (add) (set! k (+ k 1)) k) (list (add) (add) k)', '(let ((f (lambda (x) (lambda () (set! x (+ x 1)) x)))) (let ((a (f 0)) (b (f 10))) (list (a) (a) (b) (a) (b))))']
def g_misc():
    for m in MISC: yield parse(m)
