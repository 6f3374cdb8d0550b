"""C19: macros. define-macro against the reference evaluator; syntax-rules (hygienic build) against a reference matcher,
instantiator and renaming evaluator."""
import itertools
from vlib import core, table, prog, rs, synrules
from vlib.table import V, E, Exp
from vlib.rs import parse, rules, tx, Sym, Dot, Vlit, data
from vlib.gram import G
from vlib.model import wr

ID = 'C19'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of (transformer, use) programs for define-macro and for syntax-rules (all patterns x forms, all templates x matches, pairs of rules, binding contexts) up to a size, each evaluated by the real code and by an independent reference evaluator with a model of matching, instantiation and renaming'
NOTE = 'Bounded by the sizes listed. syntax-rules exists only in the (experimental) hygienic configuration, which is built for this. What R5RS leaves open (repeated variables of different lengths, redefinition of keywords) is counted as not_judged.'
BUILDS = [('compact', 'rel'), ('fatty', 'rel'), ('hygienic', 'rel'), ('compact', 'asan')]
BOUNDS = {'quick': 'define-macro: transformers of size <= 3 x 71 uses, x 144 pairs of uses; syntax-rules: patterns of size <= 4 x forms of size <= 4 (3 for the largest patterns), templates of size <= 4 x 15 patterns, pairs of patterns of size <= 2 x forms, hygiene programs of size <= 4; a collection at every allocation for define-macro of size <= 2, patterns and templates of size <= 3, hygiene programs of size <= 3',
          'thorough': 'one size more in every family (a reduced grammar for hygiene), AddressSanitizer on the hygienic build'}
NONVACUOUS = {'states': 200000, 'error_cases': 2000}

# ------------------------------------------------------------------ define-macro
PRO = '(define m 0) (define h 0) (define k 0) (define z 0) (define w 0) (define g 0) (define m2 0) (define n 0) (define x 10) (define y 20) (define (f . a) (cons "f" a)) (define-macro (sw a b) `(let ((tmp ,a)) (set! ,a ,b) (set! ,b tmp)))'
DEF = G(rules({
    'M': ['(define-macro (m) $T)', '(define-macro (m a) $T)', '(define-macro (m a b) $T)', '(define-macro (m . a) (set-car! a (quote y)) $T)', '(define-macro (m . a) $T)', '(define-macro (m a . b) $T)',
          '(define-macro m (lambda (a) $T))', '(define-macro m (lambda a $T))', '(define-macro m (lambda (a b . c) $T))',
          '(define-macro (m a) (set! n (+ n 1)) $T)', '(define-macro (m a) (t "x" a) $T)', '(define-macro (m a) (define b (list (quote f) a)) $T)', '(define-macro m (let ((k 1)) (lambda (a) $T)))',
          '(define-macro m f)', '(define-macro m 5)', '(define-macro m car)', '(define-macro m)', '(define-macro (m a))', '(define-macro ((m) a) $T)', '(define-macro 5 $T)', '(define-macro m f f)', '(begin (define-macro (m a) $T))', '(let () (define-macro (m a) $T))'],
    'T': ['a', '(quote x)', 'x', '(list (quote quote) a)', '(quasiquote (list (unquote $T) (unquote a)))', '(quasiquote (if (unquote a) (unquote $T) x))', '(quasiquote (let ((x 5)) (unquote $T)))', '(quasiquote (let ((y (unquote a))) (list x y (unquote $T))))',
          '(quasiquote (set! x (unquote $T)))', '(quasiquote (lambda (y) (unquote $T)))', '(quasiquote (begin (unquote $T) (unquote a)))', '(quasiquote (define z (unquote $T)))', '(quasiquote (begin (define z (unquote $T)) z))',
          'n', '(quasiquote (cons n (unquote $T)))', '(begin (set! n (+ n 1)) $T)', '(if (pair? a) (car a) $T)', '(if (pair? a) (quasiquote (m (unquote (car a)))) $T)', '(cons (quote list) a)', '(cons (quote list) b)', '(quasiquote (list (unquote-splicing a) (unquote $T)))', '(quasiquote (quote (unquote a)))',
          '(quasiquote (sw (unquote a) y))', '(quasiquote (f (unquote (list (quote quote) a)) (unquote $T)))', '(begin (set! a (quote y)) a)', '(car 5)', '(quasiquote (quasiquote (x (unquote (unquote a)))))', '(lambda () 1)', 'b', '"ab"', '(vector 1)', 'car', '(quasiquote ((unquote car) (list (unquote $T))))', '(eval a (interaction-environment))', '(quasiquote (and (unquote a) (unquote $T)))']}))
USES = ['(m)', '(m x)', '(m 1)', '(m x y)', '(m 1 2 3)', '(m (t 2 x))', '(m (car 5))', '(m (x y))', "(m '(1 2))", '(let ((x 2)) (m x))', '(let ((x 2) (y 3)) (list (m y) x y))', '(let ((list vector)) (m x))', '(let ((m list)) (m x))', '(let ((n 5)) (m x))', '(let ((if list) (begin vector)) (m x))',
        '(begin (define (h x) (m x)) (list (h 1) (h 2) n))', '(begin (define (h y) (m y)) (h 3))', '(begin (define h (lambda (m) (m x))) (h list))', '(if (m x) 1 2)', '(if #f (m x) n)', '((m car) (list 1 2))', '((m (lambda (q) (list q x))) 5)', '(list (m x) (m y) n)', '(let lp ((i 0)) (if (< i 2) (begin (m i) (lp (+ i 1))) (list i n)))', '(do ((i 0 (+ i 1)) (l (list) (cons (m i) l))) ((= i 2) l))', '(map (lambda (q) (m q)) (list 1 2))',
        '(map m (list 1 2))', '(apply m (list 1))', 'm', '(let ((k m)) (k x))', '(procedure? m)', '(begin (define k m) (k x))', '(begin (set! m list) (m x y))', '(begin (define (m . r) (cons 9 r)) (m x y))', '(begin (define-macro (m . r) (quote y)) (m x))',
        '(m . x)', '(m x . y)', '(cond ((m x) => list))', '(cond (#f 1) ((m x) 2) (else 3))', '(quote (m x))', '(quasiquote ((unquote (m x)) (m y)))', '(eval (quote (m x)) (interaction-environment))', '(let () (m x) z)', '(let () (define m vector) (m x))', '(begin (m x) (list x y n))', '(begin (m y) (m x) (list x y n))', '(let ((p (delay (m x)))) (list n (force p) (force p) n))',
        '(let ((q (lambda () (m y)))) (list (q) (let ((y 30)) (q)) n))', '(and (m x) 1)', '(or (m x) 1)', '(case (m x) ((10) 1) (else 2))', '(lambda () (m x))', '(let* ((x 3) (y (m x))) (list x y))', '(letrec ((g (lambda (x) (m x)))) (g 4))', '(let ((x 2)) (define (g y) (m y)) (list (g 1) x))', '(define w (m x))', '(begin (define w (m x)) w)', '(set! x (m y))', '(m (m x))', '(m (m (m 1)))', '(m m)', '(f (m x) (m y))', '(guard (e (#t (list "caught" x n))) (m (raise 1)))', '(guard (e (#t n)) (m))',
        '(call/cc (lambda (k) (m (k 5))))', '(dynamic-wind (lambda () (t 1)) (lambda () (m x)) (lambda () (t 2)))', '(sw x y)', '(begin (sw x y) (list x y))', '(let ((tmp 1) (k 2)) (sw tmp k) (list tmp k))', '(begin (m x) z)', '(begin (m (quote q)) z)']
USE = [parse(u)[0] for u in USES]

def g_dm(sizes, i, k, pairs):
    for n in sizes:
        c = DEF.count('M', n)
        for d in DEF.iter('M', n, c * i // k, c * (i + 1) // k):
            if pairs:
                for u in PAIRU:
                    for w in PAIRU: yield [d, u, w]
            else:
                for u in USE: yield [d, u]
PAIRU = [parse(u)[0] for u in ['(m x)', '(begin (define (h x) (m x)) 1)', '(h 5)', '(m x y)', '(set! n 7)', '(define-macro (m a) (list (quote quote) a))', '(define (m . a) a)', '(let ((x 3)) (m x))', '(set! x (list 1))', '(guard (e (#t (list n x))) (m y))', '(define (m2 q) (m q))', '(m2 (m2 1))']]

# ------------------------------------------------------------------ syntax-rules: matching and instantiation
PAT = G(rules({'P': ['VAR', '1', 'k', '()', '($P)', '($P $P)', '($P $P $P)', '($P ...)', '($P $P ...)', '($P $P $P ...)', '($P . $P)', '($P $P . $P)', '#()', '#($P)', '#($P $P)', '#($P ...)', '#($P $P ...)', '(... $P)', '($P ... $P)', '($P ... ...)', '($P ... . $P)', '#(... $P)', '#($P ... $P)', '($P . (... $P))', 'VDUP', '#t', '"s"']}))
FORM = G(rules({'F': ['1', 'k', 'x', '()', '($F)', '($F $F)', '($F $F $F)', '($F . $F)', '($F $F . $F)', '#()', '#($F)', '#($F $F)', '(1 2 3 4)', '((1 2) (3 4))', '((k 1) (k 2 3))', '"s"']}))
V1, VD, K = Sym('VAR'), Sym('VDUP'), Sym('k')
NAMES = [Sym(c) for c in ('a', 'b', 'c', 'd', 'e', 'g', 'h')]
def name(p):
    """number the variables"""
    it = iter(NAMES)
    def go(x):
        if x is V1: return next(it)
        if x is VD: return NAMES[0]
        t = type(x)
        if t is Dot: return Dot([go(e) for e in x], go(x.tail))
        if t in (list, Vlit): return t([go(e) for e in x])
        return x
    return go(p)
DOTS = Sym('...')
def levels(p, lits=(K,)):
    lv = {}
    try: synrules.pattern(p, lits, 0, lv)
    except synrules.Bad: return None
    return lv
def canon(lv):
    """template showing what every variable matched"""
    o = []
    for v, n in lv.items():
        t = v
        for _ in range(n): t = [t, DOTS]
        o.append(t)
    return o
QUOTE = Sym('quote')
PRES = '(define-syntax try (syntax-rules () ((_ e) (guard (c (#t (quote err))) e))))'
def forms(hi):
    return [f for n in range(1, hi + 1) for f in FORM.all('F', n)]
def callf(f):
    if type(f) is list: return [Sym('m')] + f
    if type(f) is Dot: return Dot([Sym('m')] + list(f), f.tail)
    return Dot([Sym('m')], f)
def rows_rules(ruleset, fs, batch=24):
    """ruleset: [(pattern, template)] -> rows with the value of every use"""
    lits = [K]
    src = '(define-syntax m (syntax-rules (k) %s))' % ' '.join('(%s (quote %s))' % (tx(callp(p)), tx(t)) for p, t in ruleset)
    try: comp = synrules.compile_rules(lits, ruleset)
    except synrules.Bad:
        yield src, E(), 1
        return
    for j in range(0, len(fs), batch):
        fl = fs[j:j + batch]
        vals = []
        us = []
        for f in fl:
            v = 'err'
            try:
                for p, t, vs, ls in comp:
                    sub = {}
                    if synrules.match(p, f, ls, lambda l, g: l is g, sub):
                        v = wr(data(synrules.inst(t, sub, lambda s: s)))
                        break
            except rs.Unj:
                continue
            vals.append(v); us.append('(try %s)' % tx(callf(f)))
        if us: yield '%s %s (list %s)' % (PRES, src, ' '.join(us)), V('(' + ' '.join(vals) + ')'), len(us)
def callp(p):
    if type(p) is list: return [Sym('_')] + p
    if type(p) is Dot: return Dot([Sym('_')] + list(p), p.tail)
    return Dot([Sym('_')], p)
def go_rows(st, spec, it, flags='', schedule=(0, 0)):
    buf = []
    for s, e, n in it:
        buf.append((s, e)); st.add('matches', n)
        if len(buf) >= 8000: table.run(st, spec, buf, 'w', flags, schedule=schedule); buf = []
    if buf: table.run(st, spec, buf, 'w', flags, schedule=schedule)

def g_match(n, i, k, fmax):
    fs = forms(fmax)
    c = PAT.count('P', n)
    for p in PAT.iter('P', n, c * i // k, c * (i + 1) // k):
        p = name(p)
        lv = levels(p)
        yield from rows_rules([(p, [] if lv is None else canon(lv))], fs)
SHAPES = [('(a)', ['(1)', '((x y))', '(())']), ('(a b)', ['(1 (2))']), ('(a ...)', ['()', '(1)', '(1 (2) x)']), ('(a b ...)', ['(1)', '(1 2 3)']), ('(a . b)', ['(1)', '(1 2 3)', '(1 . 2)']), ('((a b) ...)', ['()', '((1 2))', '((1 2) (x (y)))']),
          ('((a ...) ...)', ['()', '(())', '((1) () (x 2 3))']), ('((a b ...) ...)', ['((1))', '((1 2 3) (x))']), ('(#(a ...))', ['(#())', '(#(1 2))']), ('(#((a b) ...) c)', ['(#((1 2) (3 4)) x)', '(#() x)']), ('((a ...) b ...)', ['((1 2))', '((1 2) 3 4)', '(() 3)']), ('(((a ...) ...) ...)', ['(((1 2) ()) () ((3)))', '()', '(((1) (2)) ((3) (4)))']),
          ('((a . b) ...)', ['((1 . 2) (3))', '()']), ('((a b ...) (c ...) ...)', ['((1 2 3) (x) () (y z))']), ('((#(a ...) b) ...)', ['((#(1 2) x) (#() y))'])]
TEM = G(rules({'T': ['a', 'b', 'c', '1', 'z', '()', '($T)', '($T $T)', '($T $T $T)', '($T ...)', '($T $T ...)', '($T ... $T)', '($T ... $T ...)', '($T . $T)', '($T ... . $T)', '($T ... $T . $T)', '#()', '#($T)', '#($T $T)', '#($T ...)', '#($T $T ...)', '#($T ... $T)', '(... $T)', '($T ... ...)', '#($T ... ...)', '"s"']}))
def g_inst(n, i, k):
    c = TEM.count('T', n)
    for t in TEM.iter('T', n, c * i // k, c * (i + 1) // k):
        for p, fs in SHAPES:
            pp = parse(p)[0]
            vs = levels(pp, ())
            used = synrules.tvars(t)
            if not any(v in vs for v in used) and p != '(a)': continue
            yield from rows_rules([(pp, t)], [parse(f)[0] for f in fs])
def g_rules(n, i, k, fmax):
    """pairs of patterns: the first one that matches is chosen"""
    ps = [name(p) for m in range(1, n + 1) for p in PAT.all('P', m)]
    ps = [p for p in ps if levels(p) is not None]
    fs = forms(fmax)
    for p in ps[i::k]:
        for q in ps:
            yield from rows_rules([(p, [1, canon(levels(p))]), (q, [2, canon(levels(q))])], fs, 200)
def g_shape():
    """malformed definitions and uses; each judged by hand"""
    D = ['(define-syntax m)', '(define-syntax m (syntax-rules () ((_) 1)) 2)', '(define-syntax 5 (syntax-rules () ((_) 1)))', '(define-syntax (m x) (syntax-rules () ((_) 1)))', '(define-syntax m (syntax-rules))', '(define-syntax m (syntax-rules ()))', '(define-syntax m (syntax-rules (1) ((_) 1)))', '(define-syntax m (syntax-rules k ((_) 1)))',
         '(define-syntax m (syntax-rules (k . j) ((_) 1)))', '(define-syntax m (syntax-rules () (_ 1)))', '(define-syntax m (syntax-rules () ((_))))', '(define-syntax m (syntax-rules () ((_) 1 2)))', '(define-syntax m (syntax-rules () 5))', '(define-syntax m (syntax-rules () ((1 a) 1)))', '(define-syntax m (syntax-rules () (() 1)))', '(define-syntax m (syntax-rules () ((_ a a) 1)))', '(define-syntax m (syntax-rules () ((_ (a b) #(a)) 1)))', '(let-syntax ((m)) 1)', '(let-syntax (m) 1)', '(let-syntax ((5 (syntax-rules () ((_) 1)))) 1)', '(let-syntax)', '(let-syntax ())', '(let-syntax 5 1)',
         '(define m (syntax-rules () ((_) 1)))', '(set! x (syntax-rules () ((_) 1)))', '(let ((m (syntax-rules () ((_) 1)))) 1)', '(list (syntax-rules () ((_) 1)))', '(car (syntax-rules () ((_) 1)))', '((syntax-rules () ((_) 1)) 2)']
    ok = {'((syntax-rules () ((_) 1)) 2)': None}
    for d in D:
        if d in ok: continue
        yield '(define x 1) ' + d, E(), 1
    M = '(define-syntax m (syntax-rules () ((_ a) (list a)))) '
    for u in ['m', '(list m)', '(define k m)', '(let ((k m)) 1)', '(map m (list 1))', '(apply m (list 1))', '(m)', '(m 1 2)', '(m . 1)', '(m 1 . 2)', '(set! x m)', '(procedure? m)', '(if m 1 2)', '(begin m 1)', '(lambda () 1 m 2) (m)', '((lambda (q) q) m)', '(call/cc m)', '(for-each m (list 1))', '(values m)', '(m m)']:
        yield '(define x 1) ' + M + u, E(), 1

# ------------------------------------------------------------------ hygiene
H = rules({
    'S': [(0, '(let-syntax ((m $R)) $E)'), (0, '(let ((x 7)) (let-syntax ((m $R)) (let ((x 8)) $E)))'), (0, '(let ((f (lambda (q) (list "u" q)))) (let-syntax ((m $R)) (let ((f vector)) $E)))'), (0, '(letrec-syntax ((m $R)) $E)'), (0, '(begin (define-syntax m $R) $E)'),
          (0, '((lambda (x) (let-syntax ((m $R)) $E)) 6)'), (0, '(begin (define (g x) (let-syntax ((m $R)) (list x $E))) (list (g 1) (g 2)))'), (0, '(let-syntax ((m $R)) (let ((g (lambda (x) $E))) (list (g 1) (g 2))))'), (0, '(begin (define-syntax m $R) (define-syntax w (syntax-rules () ((_ p) (let ((x 70)) (m p))))) $W)'),
          (0, '(letrec-syntax ((m $R) (w (syntax-rules () ((_ p) (let ((x 70)) (list x (m p))))))) $W)')],
    'R': [(0, '(syntax-rules () ((_ a) $T))'), (1, '(syntax-rules () ((_ a) $T) ((_ a b) (let ((x b)) (list x $T))))'), (1, '(syntax-rules (x) ((_ x) (list "lit")) ((_ a) $T))')],
    'T': ['a', 'x', '(f $T)', '(list x $T)', '(let ((x 1)) $T)', '(let ((x a)) $T)', '(let* ((x a) (y x)) (list y $T))', '((lambda (x) $T) $T)', '(let x ((y a)) (if (pair? y) $T (x (list y))))', '(let () (define x 2) $T)', '(let () (define (f x) (list x a)) (f $T))', '(letrec ((f (lambda (x) $T))) (f a))', '(do ((x $T 3) (i 0 (+ i 1))) ((= i 1) (list x a)))', '(begin (set! x a) $T)',
          '(if a $T x)', '(quote (x a))', '(let-syntax ((f (syntax-rules () ((_ q) (list x q a))))) (f $T))', '(cond (#f 1) (else $T))', '(cond (a => f) (else $T))', '(case 1 ((1) $T) (else 2))', '(or #f $T)', '(quasiquote (x (unquote $T) (unquote-splicing (list a))))', '(lambda (y) $T)', '(let ((list vector)) (list $T a))', '(delay x)', '(guard (x (#t (list x a))) (raise $T))', '(receive (x . y) (values $T a) (list x y))', '(let ((a 5)) (list a x))', '(lambda (a) a)', '(m2 $T)', '(define x a)'],
    'E': ['(m $A)', '(m $A)', '(let ((x 1)) $E)', '(let ((f list)) $E)', '(let ((list vector)) $E)', '(let ((if list) (cond vector) (let list)) $E)', '(let ((else #f) (=> 1)) $E)', '(let ((m f)) $E)', '(begin (set! x 5) $E)', '(let ((y 3)) (list y $E))', '(let () (define x 4) $E)', '(list $E x)', '(m $A $A)', '(do ((x 1 2) (i 0 (+ i 1))) ((= i 1) $E))', '(let-syntax ((f (syntax-rules () ((_ q) (quote q))))) $E)', '(let ((quote list)) $E)', '(let ((define list) (begin vector)) $E)', '((lambda (x . f) $E) 90 91)'],
    'W': ['(w $A)', '(let ((x 1)) (w $A))', '(let ((m list)) (w $A))', '(let ((let list)) (w $A))'],
    'A': [(0, 'x'), (0, 'y'), (0, '1'), '(m $A)', '(f x)', '(begin (set! x 30) x)', '(let ((x 55)) (m x))', '(lambda (x) (m x))']})
HYG = G(H)
HYG2 = G({'S': H['S'][:5:2] + H['S'][8:], 'R': H['R'][:2], 'T': [H['T'][i] for i in (0, 1, 3, 4, 5, 7, 9, 12, 15, 16, 17, 20, 29)], 'E': [H['E'][i] for i in (1, 2, 3, 5, 7, 10, 14)], 'W': H['W'], 'A': [H['A'][i] for i in (0, 3, 6)]})
HPRO = '(define x 10) (define y 20) (define (f q) (list "f" q))'
def hsuite():
    s = prog.Suite(HPRO)
    s.m.glob.update(synrules.SYN); s.base = dict(s.m.glob)
    return s
# recursive and nested macros
REC = ['(define-syntax my-or (syntax-rules () ((_) #f) ((_ e) e) ((_ e r ...) (let ((t e)) (if t t (my-or r ...))))))', '(define-syntax my-let (syntax-rules () ((_ ((n v) ...) b ...) ((lambda (n ...) b ...) v ...))))', '(define-syntax my-let* (syntax-rules () ((_ () b ...) (let () b ...)) ((_ ((n v) r ...) b ...) (let ((n v)) (my-let* (r ...) b ...)))))', '(define-syntax swap! (syntax-rules () ((_ a b) (let ((tmp a)) (set! a b) (set! b tmp)))))',
       '(define-syntax my-cond (syntax-rules (else) ((_ (else e ...)) (begin e ...)) ((_ (c e ...) r ...) (if c (begin e ...) (my-cond r ...)))))', '(define-syntax my-list (syntax-rules () ((_ (a b ...) ...) (list (list b ... a) ...))))', '(define-syntax while (syntax-rules () ((_ c b ...) (let lp () (if c (begin b ... (lp)) #f)))))', '(define-syntax for (syntax-rules (in) ((_ v in l b ...) (map (lambda (v) b ...) l))))', '(define-syntax def2 (syntax-rules () ((_ (n v) ...) (begin (define n v) ...))))',
       '(define-syntax ten (syntax-rules () ((_) 10)))', '(define-syntax rev (syntax-rules () ((_ () (o ...)) (list o ...)) ((_ (a r ...) (o ...)) (rev (r ...) (a o ...)))))', '(define-syntax flip (syntax-rules () ((_ (a ...) ...) (quote ((... a) ...)))))']
RECU = ['(my-or)', '(my-or 1)', '(my-or #f 2)', '(let ((t 5)) (my-or #f t))', '(let ((t 5) (if list)) (my-or #f #f t))', '(let ((let list)) (my-or #f 3))', '(my-let ((a 1) (b 2)) (list a b))', '(my-let () 5)', '(let ((a 3)) (my-let ((a 4) (b a)) (list a b)))', '(my-let ((a 1)) (define c 2) (list a c))', '(my-let* ((a 1) (b (list a)) (a b)) (list a b))', '(my-let* () (define q 1) q)', '(let ((tmp 1) (b 2)) (swap! tmp b) (list tmp b))', '(begin (swap! x y) (list x y))', '(let ((set! list) (tmp 4)) (swap! tmp x) (list tmp x))',
        '(my-cond (#f 1) (else 2))', '(my-cond (1 2 3))', '(let ((else #f)) (my-cond (#f 1) (else 2) (1 3)))', '(my-cond (#f 1) ((my-or #f #t) 7))', '(my-list)', '(my-list (1))', '(my-list (1 2) (3) (4 5 6))', '(let ((i 0) (lp 5)) (while (< i 3) (set! i (+ i 1)) (t i lp)) i)', '(let ((if #f)) (while if 1))', '(for e in (list 1 2) (list e e))', '(let ((in 1)) (for e in (list 1 2) e))', '(for e on (list 1) e)', '(begin (def2 (p 1) (q 2)) (list p q))', '(begin (def2) 1)', '(let () (def2 (p 1)) p)', '(ten)', '(+ (ten) (ten))', '(ten 1)', '(rev (1 2 3) ())', '(rev () ())', "(rev ('a \"s\" #\\c) ())", '(my-let ((ten list)) (ten))', '(my-or #f (my-let ((t 1)) (swap! t x) (list t x)))', '(let ((my-or list)) (my-or #f 1 2))', '(my-let* ((t 1) (u (my-or #f t))) (while (< u 3) (set! u (+ u 1))) (list t u))', '(let loop ((i 0)) (my-cond ((= i 2) (list i)) (else (loop (+ i 1)))))']
def g_rec():
    ds = [parse(d)[0] for d in REC]
    us = [parse(u)[0] for u in RECU]
    for u in us: yield ds + [u]
    for u in us:
        for v in us: yield ds + [u, v]
    for u in us: yield ds + [[Sym('define'), [Sym('g')], u], [Sym('list'), [Sym('g')], [Sym('g')]]]

def items(tier):
    th = tier == 'thorough'
    o = []
    for cfg, fl, mx in [('compact', 'rel', 4 if th else 3), ('fatty', 'rel', 3), ('hygienic', 'rel', 3 if th else 2), ('compact', 'asan', 3 if th else 2)]:
        for n in range(1, mx + 1):
            k = max(1, DEF.count('M', n) * len(USE) // 40000)
            o += [('dm', cfg, fl, (n,), i, k, False) for i in range(k)]
            if n <= (3 if cfg == 'compact' and fl == 'rel' else 2):
                k = max(1, DEF.count('M', n) * len(PAIRU) ** 2 // 40000)
                o += [('dm', cfg, fl, (n,), i, k, True) for i in range(k)]
    for cfg, fl, d in [('hygienic', 'rel', 1 if th else 0)] + ([('hygienic', 'asan', -1)] if th else []):
        for n in range(1, 5 + d):
            k = max(1, PAT.count('P', n) // 500)
            o += [('match', cfg, fl, n, i, k, 4 if n <= 3 and d >= 0 else 3 if n <= 4 else 2) for i in range(k)]
            k = max(1, TEM.count('T', n) // 2000)
            o += [('inst', cfg, fl, n, i, k) for i in range(k)]
        o += [('rules', cfg, fl, 2, i, 4, 3 + (d > 0)) for i in range(4)]
        o += [('shape', cfg, fl), ('rec', cfg, fl)]
        for n in range(2, 5 if not th or fl == 'rel' else 4):
            k = max(1, HYG.count('S', n) // 20000)
            o += [('hyg', cfg, fl, n, i, k) for i in range(k)]
        if th and fl == 'rel':
            k = max(1, HYG2.count('S', 5) // 20000)
            o += [('hyg2', cfg, fl, 5, i, k) for i in range(k)]
    # a collection at every allocation
    o += [('match', 'hygienic', 'gc', n, i, 8, 2 if n == 3 else 3) for n in (1, 2, 3) for i in range(8)] + [('inst', 'hygienic', 'gc', n, i, 8) for n in (1, 2, 3) for i in range(8)]
    o += [('hyg', 'hygienic', 'gc', n, i, 16) for n in (2, 3) for i in range(16)] + [('dm', 'compact', 'gc', (n,), i, 8 if n < 3 else 80, False) for n in ((1, 2, 3) if th else (1, 2)) for i in range(8 if n < 3 else 80)]
    return o

def run_item(item, st, tier):
    kind, cfg, fl = item[:3]
    sched = (0, 0)
    if fl == 'gc': fl = 'rel'; sched = (1, 0)
    spec = dict(cfg=cfg, flavor=fl, files=['rows.scm', 't.scm'])
    if kind == 'dm':
        prog.runs(st, spec, prog.Suite(PRO), g_dm(*item[3:]), schedule=sched)
    elif kind in ('hyg', 'hyg2'):
        n, i, k = item[3:]
        g = HYG if kind == 'hyg' else HYG2
        c = g.count('S', n)
        prog.run(st, spec, hsuite(), g.iter('S', n, c * i // k, c * (i + 1) // k), schedule=sched)
    elif kind == 'rec':
        prog.runs(st, spec, hsuite(), g_rec())
    else:
        go_rows(st, spec, globals()['g_' + kind](*item[3:]), schedule=sched)
