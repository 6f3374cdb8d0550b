"""C07: SRFI-34/23 exceptions, against the reference evaluator (vlib/rs.py)."""
import itertools
from vlib import core, table, prog, rs
from vlib.rs import parse, rules, tx, Sym, Dot, Vlit
from vlib.gram import G
from vlib.table import Exp

ID = 'C07'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of programs over grammars of guard, raise, with-exception-handler and error (each run by the real code and by a machine model of handler stacks and nested continuations), and of every error source in every context and in every sequence of two, each followed by probes of the interpreter state'
NOTE = 'Bounded: all programs of the listed grammars up to the listed sizes; the error sources and contexts are those listed in checks/c07.py. Known finding guard-clause-order: clauses are evaluated before the body\'s dynamic extents are left.'
BUILDS = [('compact', 'rel'), ('fatty', 'rel'), ('compact', 'asan')]
BOUNDS = {'quick': 'handler programs of size 6, guard clause programs of size 4, all raised values of 24 kinds x 14 delivery paths, 205 error sources x 65 contexts, all ordered pairs of error sources',
          'thorough': 'guard clause programs of size 5, pairs of sources in 6 contexts, both layouts, AddressSanitizer'}
NONVACUOUS = {'states': 100000, 'error_cases': 1000}

FAMS = {}
def fam(name, pro, rl, start, quick, thorough):
    FAMS[name] = (pro, G(rules(rl)), start, quick, thorough)

WEH = '(with-exception-handler (lambda (%s) $H) (lambda () $E))'
fam('handler', '(define (k x) (t "K" x))', {
    'E': ['1', '(raise 2)', '(raise $E)', '(error "m" $E)', '(%%fail)', '(list $E $E)', '(begin (t "s") $E)', '(t "v" $E)', '(call/cc (lambda (k) $E))', WEH % 'e', WEH % 'f', '(guard (g ($C (t "g") $E)) $E)', '(guard (g (#f 1)) $E)', '(dynamic-wind (lambda () (t "b")) (lambda () $E) (lambda () (t "a")))'],
    'H': [(0, '(t "h" 3)'), '(begin (t "i") (k 4))', '(begin (t "j") (raise 5))', '(begin (t "l") (raise e))', '(k (t "m" e))', '$E', '(begin (t "n") (%%fail))'],
    'C': [(0, '#t'), (0, '(eqv? g 2)'), (0, '(t "c" #f)')]}, 'E', [1, 2, 3, 4, 5, 6], [])
fam('clause', '(define e 50) (define (k x) (t "K" x))', {
    'S': ['(guard $G $B)', '(list e (guard $G $B) e)', '(guard (o (#t (list "o" o))) (guard $G $B))', '(call/cc (lambda (k) (guard $G $B)))', '(with-exception-handler (lambda (x) (t "h") (k x)) (lambda () (guard $G $B)))', '(call/cc (lambda (k) (with-exception-handler (lambda (x) (t "h") (k (list x))) (lambda () (list (guard $G $B))))))',
          '(guard (e ($T => list) (else (list e))) (guard $G $B))', '(call-with-values (lambda () (guard $G $B)) list)', '(let ((e 60)) (list (guard $G (set! e 61) $B) e))', '(dynamic-wind (lambda () (t "b")) (lambda () (guard $G $B)) (lambda () (t "a")))', '(map (lambda (x) (guard $G (if (eqv? x 2) (t "x" x) $B))) (list 1 2 1))',
          '(let lp ((i 0)) (if (= i 2) 9 (begin (t (guard $G $B)) (lp (+ i 1)))))'],
    'G': [(0, '(e)'), (0, '(e $L)'), (0, '(e $L $L)'), (0, '(e $L (else $X))'), (0, '(e (else $X))'), (0, '(e (else $X) $L)'), (0, '(e (#f 1) (#f 2) (#f 3))'), (0, '($L)'), (0, '(5 $L)')],
    'L': [(0, '($T)'), (0, '($T $X)'), (0, '($T $X $X)'), (0, '($T => $P)'), (0, '()'), (0, '(else)'), (0, '($T =>)')],
    'T': ['#t', '#f', '(eqv? e 1)', '(memv e (list 2 1))', '(t "t" #f)', '(pair? e)', '(begin (set! e (list e)) #f)', '(raise 3)', '(%%fail)', '(k 4)', '(eqv? e 50)', '(%%error-object? e)'],
    'P': ['list', '(lambda (x) (t "p" x))', '(t "q" 5)', '(begin (t "r") (raise 6))', '(lambda () 1)'],
    'X': ['(t "x" 7)', 'e', '(raise e)', '(raise (list e))', '(k 8)', '(set! e 9)', '(values 1 2)', '(%%fail)', '(guard (f (#t (list f e))) (raise 10))'],
    'B': ['(t "n" 11)', '(raise 1)', '(raise (list 1))', '(raise #f)', '(begin (t "s") (raise 2))', '(%%fail)', '(values 12 13)', '(k 14)', '(raise e)', '(begin (define e 15) (raise e))', '(list (raise 16) (t "no"))', '(guard (e (#f 1)) (raise 1))']}, 'S', [2, 3, 4], [5])

# the same handler procedure in several frames of the handler stack; the stack seen from inside a handler
fam('named', '(define n 0) (define (h c) (set! n (+ n 1)) (t n c) (raise (list c))) (define (g c) (set! n (+ n 1)) (t n (list "g" c))) (define kk #f) (define (j c) (t "j" (with-exception-handler h (lambda () (if (pair? c) (kk c) (raise (list "j" c)))))))', {
    'S': [(0, '(call/cc (lambda (k) (set! kk k) (with-exception-handler k (lambda () $E))))'), (0, '(guard (e (#t (list "G" n e))) $E)'), (0, '(call/cc (lambda (k) (set! kk k) $E))')],
    'E': ['(raise 1)', '(t "v" 2)', '(with-exception-handler h (lambda () $E))', '(with-exception-handler g (lambda () $E))', '(with-exception-handler j (lambda () $E))', '(with-exception-handler kk (lambda () $E))', '(list $E $E)', '(begin (t "b") $E)', '(guard (e ((pair? e) (t "c" e)) ((t "d" #f) 1)) $E)',
          '(let ((old h)) (with-exception-handler (lambda (c) (t "o") (old c)) (lambda () $E)))', '(with-exception-handler (lambda (c) (t "w" c) $E) (lambda () $E))', '(with-exception-handler h (lambda () (with-exception-handler h (lambda () $E))))', '(dynamic-wind (lambda () (t "<")) (lambda () $E) (lambda () (t ">")))', '(%%fail)']}, 'S', [1, 2, 3, 4], [5])

PROBE = '(list (call/cc (lambda (k) (dynamic-wind (lambda () (t "pb")) (lambda () (k 7)) (lambda () (t "pa"))))) (guard (e (#t (list e))) (with-exception-handler (lambda (e) (t "ph") (raise (list e))) (lambda () (raise 8)))) (call-with-values (lambda () (values 1 2)) list) (let loop ((i 0)) (if (< i 3) (loop (+ i 1)) i)) (guard (e (#t (t "pc") 3)) (t "pd") 4) `(1 ,(+ 1 1)) (let () (define x 1) (+ x 1)))'

# ------------------------------------------------------------ delivery of raised values
VALS = ['1', '-5', '#t', '#f', "'()", "'a", "'(1 2)", "'(1 . 2)", '"str"', '#\\a', "'#(1 2)", '(list 1 (vector "x"))', 'car', '(lambda (x) x)', '(delay 1)', '(if #f #f)', '(string #\\a)', '(open-input-string "")', '(current-output-port)', '(interaction-environment)', '(call/cc (lambda (k) k))', '(read (open-input-string ""))', "(string->symbol \"\")", "''a"]
PATHS = ['(guard (e (#t e)) (raise v))', '(guard (e ((eq? e 0) 1) (else e)) (raise v))', '(guard (e (else e)) (guard (f (#f 1)) (raise v)))', '(guard (e (else e)) (guard (f (#f 1)) (guard (g (#f 1)) (raise v))))', '(guard (e (else e)) (guard (f (else (raise f))) (raise v)))',
         '(guard (e (#t => (lambda (x) e))) (raise v))', '(call/cc (lambda (k) (with-exception-handler k (lambda () (raise v)))))', '(call/cc (lambda (k) (with-exception-handler (lambda (x) (k x)) (lambda () (list (raise v))))))', '(call/cc (lambda (k) (with-exception-handler k (lambda () (with-exception-handler raise (lambda () (raise v)))))))',
         '(call/cc (lambda (k) (with-exception-handler k (lambda () (with-exception-handler (lambda (x) (raise x)) (lambda () (dynamic-wind list (lambda () (raise v)) list)))))))', '(guard (e (#t e)) (map raise (list v)))', '(guard (e (#t e)) (apply raise (list v)))', '(guard (e (#t e)) (for-each (lambda (x) (dynamic-wind list (lambda () (raise x)) list)) (list v)))',
         '(guard (e (#t e)) (eval (list raise (list (quote quote) v)) (interaction-environment)))', '(guard (e (#t e)) (dynamic-wind (lambda () (raise v)) list list))', '(guard (e (#t e)) (force (delay (raise v))))', '(guard (e (#t e)) (call-with-values (lambda () (raise v)) list))', '(guard (e (#t e)) (guard (f ((raise v) 1)) (raise 0)))', '(guard (e (#t e)) (guard (f (#t => (raise v))) (raise 0)))']
def g_deliver():
    for v in VALS:
        for p in PATHS:
            yield '(let* ((v %s) (r %s)) (eq? r v))' % (v, p), Exp('#t', '')
    # truth of the raised object selects nothing by itself; e is bound to it
    for v in VALS:
        yield '(guard (e (e 1) (else 2)) (raise %s))' % v, Exp('2' if v == '#f' else '1', '')
        yield '(procedure? (guard (e ((procedure? e) e) (else car)) (raise %s)))' % v, Exp('#t', '')
    # error objects: reason and irritants
    IRR = ['1', '"s"', "'sym", '#\\a', "'(1 \"b\" #\\c)", "'()", "'#(1 #\\x)", '#t']
    TXT = ['1', '"s"', 'sym', '#\\a', '(1 "b" #\\c)', '()', '#(1 #\\x)', '#t']
    for rs_, rt in [('"msg"', 'msg'), ("'sym", 'sym'), ('""', ''), ('"a b:"', 'a b:'), ('5', '5')]:
        for n in (0, 1, 2):
            for ix in itertools.product(range(len(IRR)), repeat=n):
                e = '(error %s%s)' % (rs_, ''.join(' ' + IRR[i] for i in ix))
                out = rt + ''.join(' ' + TXT[i] for i in ix)
                yield '(guard (e (#t (display e) 0)) %s)' % e, Exp('0', out)
                if n < 2:
                    yield '(guard (e (#t (display e) 0)) (guard (f (#f 1)) %s))' % e, Exp('0', out)
                    yield '(guard (e (#t (write e) (%%%%error-object? e))) %s)' % e, Exp('#t', '#<error %s%s>' % ({'"msg"': '"msg"', "'sym": 'sym', '""': '""', '"a b:"': '"a b:"', '5': '5'}[rs_], ''.join(' ' + TXT[i] for i in ix)))
    for v in VALS: yield '(guard (e (#t (%%%%error-object? e))) (raise %s))' % v, Exp('#f', '')

# ------------------------------------------------------------ every source of errors in every context
NOFILE = '"/nonexistent-dir/none.scm"'
SRC = '''(if) (if 1) (if 1 2 3 4) (let ((x)) x) (let ((x 1 2)) x) (let x) (let ((1 2)) 3) (let () ) (let ((x 1))) (let* (x) 1) (letrec ((x)) x) (lambda) (lambda (x)) (lambda (1) 1) (lambda (x . 1) 1) (cond) (cond ()) (cond 1) (cond (else)) (cond (else 1) (#t 2)) (cond (1 => 2))
(case) (case 1) (case 1 (2 3)) (case 1 ((1))) (case 1 (else)) (do) (do ((i 0)) ()) (do ((1 0)) (#t 1)) (do ((i 0 1 2)) (#t 1)) (quasiquote) (quasiquote 1 2) (unquote 1) (quote) (quote 1 2) (delay) (delay 1 2) (set! 1 2) (set! undefined-variable 1) (set! x) (guard) (guard (e)) (guard (e (#t 1)))
(guard (1 (#t 1)) (raise 1)) (guard (e ()) (raise 1)) (receive) (receive (x)) (receive (x) 1) (receive (x y) (values 1) x) (receive (x) (values 1 2) x) (define-macro) (begin . 1) (if . 1) (1 2) ("s" 1) ('a) (#t) (undefined-function 1) undefined-variable (list if) (car 1) (car) (car '()) (car '(1) '(2)) (cdr '()) (cadr '(1)) (vector-ref (vector 1) 1) (vector-ref (vector 1) -1) (vector-ref '(1) 0) (vector-set! (vector) 0 0) (string-ref "a" 1) (string-ref 'a 0)
(string-set! (string #\\a) 1 #\\b) (string-set! "literal" 0 #\\a) (string-append "a" 1) (string->symbol 1) (symbol->string "a") (symbol->string 'a 1) (apply car 1) (apply car '(1 . 2)) (apply) (apply car) (apply + 'a '()) (map car 5) (map car '(1)) (map) (for-each 1 '(1)) (for-each car '(1)) (call/cc 1) (call/cc (lambda () 1)) (call/cc) (list (values 1 2)) (list (values)) (call-with-values 1 2) (call-with-values (lambda () 1) 2) ((lambda (x) x)) ((lambda (x) x) 1 2) ((lambda (x . y) x)) (dynamic-wind 1 2 3) (dynamic-wind list list)
(with-exception-handler 1 2) (with-exception-handler list) (quotient 1 0) (modulo 1 0) (remainder 1 0) (+ 'a) (+ 1 'a) (-) (< 1 'a) (= 'a 1) (+ 576460752303423487 1) (- -576460752303423488 1) (number->string 'a) (number->string 1 99) (string->number 1) (integer->char -1) (char->integer 1) (char-upcase "a") (make-string -1) (make-vector -1 0) (list-ref '(1) 5) (list-tail '(1) 3) (length '(1 . 2)) (length 5) (reverse '(1 . 2)) (append '(1 . 2) '(3)) (list->string '(1)) (list->vector '(1 . 2)) (vector-fill! 1 1) (assq 1 5) (assq 1 '(5)) (memq 1 5) (member 1 '(2 . 3))
(open-input-file %s) (load %s) (with-input-from-file %s list) (read (open-input-string "(")) (read (open-input-string ")")) (read (open-input-string "\\"")) (read (open-input-string "#\\\\foo")) (read (open-input-string "(1 . )")) (read (open-input-string "(1 . 2 3)")) (read (open-input-string "#(1 . 2)")) (read (open-input-string "#<")) (read (open-input-string "'")) (read (open-input-string "#")) (read (open-input-string "1a")) (read (open-input-string "(((("))
(read 1) (read-char 1) (peek-char 1) (write) (write 1 2) (write-char 1) (write-char #\\a 5) (newline 1) (close-input-port 1) (read-char (current-output-port)) (write 1 (current-input-port)) (eval 'undefined-variable (interaction-environment)) (eval '(if) (interaction-environment)) (eval '(car 1) (interaction-environment)) (eval) (force (delay (car 1))) (force) (raise 'sym) (raise 1) (raise) (error "x" 1) (error) (error 'who "b" 1) (require-extension (srfi 999)) (require %s)
(let ((k (call/cc (lambda (k) k)))) (k 1)) (let () (define x)) (let () (define x y) (define y 1)) (begin (define-macro (mm) (car 1)) (mm)) (begin (define-macro (mm) (quote (if))) (mm)) (begin (define-macro (mm x) x) (mm)) (cond-expand (no-such-feature 1)) `(1 ,@2 3) `(,@1 . 2) `#(1 ,@2) `(,(car 1)) `(,@(car 1)) (sqrt 4) (exact->inexact 1) (for-each) (string-copy 5) (substring "abc" 2 1) (substring "abc" 0 4) (char=? #\\a 1) (string=? "a" 'a) (list-copy 1 2 3) (equal? 1) (eq?) (not) (exit 1 2) (with-exception-handler (lambda (e) 1) (lambda () (raise 2))) (with-exception-handler (lambda () 1) (lambda () (car 2))) (guard (e (#f 1)) (car 1)) (guard (e ((car 1) 1)) (raise 1)) (guard (e (#t (car 1))) (raise 1)) (guard (e (#t => 1)) (raise 1)) (guard (e (#t => car)) (raise 1))''' % (NOFILE, NOFILE, NOFILE, NOFILE)
def sources():
    """texts of the error sources (toplevel forms of SRC)"""
    o = []; i = 0; s = SRC
    from vlib import reader, model
    reader.UNICODE = True
    while True:
        while i < len(s) and s[i] in ' \n': i += 1
        x, j = reader.read(s, i, (-(1 << 59), (1 << 59) - 1))
        if x is model.EOF: return o
        o.append(s[i:j].strip()); i = j
RAISES = ("(raise 'sym)", '(raise 1)')
CTX = ['$X', '(list (t 1 1) $X (t 2 2))', '(guard (e (#t (t "c") 1)) $X)', '(guard (e (else (t "c") 1)) (t "s") $X (t "no"))', '(guard (e ((t "t" #f) 1)) $X)', '(guard (o (#t (t "o") 2)) (guard (e ((t "t" #f) 1)) $X))', '(guard (o (#t (t "o") 2)) (guard (e (#t $X)) (raise 1)))', '(guard (o (#t (t "o") 2)) (guard (e ($X 1)) (raise 1)))', '(guard (o (#t (t "o") 2)) (guard (e (#t => $X)) (raise 1)))', '(guard (o (#t (t "o") 2)) (guard (e (#t => (lambda (x) $X))) (raise 1)))', '(guard (o (#t (t "o") 2)) (guard (e (#f 1) (else $X)) (raise 1)))',
       '(call/cc (lambda (k) (with-exception-handler (lambda (e) (t "h") (k 3)) (lambda () $X))))', '(call/cc (lambda (k) (with-exception-handler (lambda (e) (t "h") (k 3)) (lambda () (with-exception-handler (lambda (e) (t "i") (raise e)) (lambda () (list $X)))))))', '(guard (o (#t (t "o") 2)) (with-exception-handler (lambda (e) (t "i") 5) (lambda () $X)))', '(guard (o (#t (t "o") 2)) (with-exception-handler (lambda (e) (t "i") $X) (lambda () (raise 1))))', '(guard (o (#t (t "o") 2)) (with-exception-handler (lambda (e) (t "i") $X) (lambda () $X)))', '(guard (o (#t (t "o") 2)) (with-exception-handler (begin (t "z") $X) (lambda () 1)))',
       '(guard (e (#t (t "c") 1)) (dynamic-wind (lambda () (t "b")) (lambda () $X) (lambda () (t "a"))))', '(guard (e (#t (t "c") 1)) (dynamic-wind (lambda () $X) (lambda () (t "d")) (lambda () (t "a"))))', '(guard (e (#t (t "c") 1)) (dynamic-wind (lambda () (t "b")) (lambda () (t "d")) (lambda () $X)))', '(guard (e (#t (t "c") 1)) (dynamic-wind (lambda () (t "b")) (lambda () (dynamic-wind (lambda () (t "B")) (lambda () (list $X)) (lambda () (t "A")))) (lambda () (t "a"))))', '(dynamic-wind (lambda () (t "b")) (lambda () (guard (e (#t (t "c") 1)) (list $X))) (lambda () (t "a")))',
       '(call/cc (lambda (k) (guard (e (#t (t "c") (k 1))) $X)))', '(call/cc (lambda (k) (dynamic-wind (lambda () (t "b")) (lambda () (k 5)) (lambda () (guard (e (#t (t "c") 1)) $X)))))', '(call/cc (lambda (k) (dynamic-wind (lambda () (t "b")) (lambda () (k 5)) (lambda () (t "a") $X))))', '(guard (e (#t (t "c") 1)) (map (lambda (x) (if (= x 2) $X (t x x))) (list 1 2 3)))', '(map (lambda (x) (guard (e (#t (t "c") 1)) (if (= x 2) $X (t x x)))) (list 1 2 3))', '(guard (e (#t (t "c") 1)) (for-each (lambda (x) (t x) (if (= x 2) $X)) (list 1 2 3)))', '(guard (e (#t (t "c") 1)) (apply (lambda (x) (t x) $X) (list 1)))', '(guard (e (#t (t "c") 1)) (call-with-values (lambda () (t "p") $X) list))', '(guard (e (#t (t "c") 1)) (call-with-values (lambda () (values 1 2)) (lambda (a b) (t "q") $X)))',
       '(guard (e (#t (t "c") 1)) (force (delay (begin (t "f") $X))))', '(let ((p (delay (begin (t "f") $X)))) (list (guard (e (#t 1)) (force p)) (guard (e (#t 2)) (force p))))', '(guard (e (#t (t "c") 1)) (eval (quote (begin (t "e") $X)) (interaction-environment)))', '(guard (e (#t (t "c") 1)) (let loop ((i 0)) (if (< i 3) (loop (+ i 1)) $X)))', '(let loop ((i 0)) (if (< i 3) (begin (guard (e (#t (t i))) $X) (loop (+ i 1))) i))', '(guard (e (#t (t "c") 1)) (do ((i 0 (+ i 1))) ((= i 2) $X) (t i)))', '(guard (e (#t (t "c") 1)) (do ((i 0 (+ i 1))) ((= i 2) 1) (t i) (list $X)))', '(guard (e (#t (t "c") 1)) (let ((x (t 1 1)) (y $X)) 1))', '(guard (e (#t (t "c") 1)) (let () (define x $X) 1))', '(guard (e (#t (t "c") 1)) (if $X 1 2))', '(guard (e (#t (t "c") 1)) (cond ((t 1 #f) 1) ($X 2)))', '(guard (e (#t (t "c") 1)) (cond (1 => $X)))', '(guard (e (#t (t "c") 1)) (case $X ((1) 1) (else 2)))', '(guard (e (#t (t "c") 1)) (and 1 $X 2))', '(guard (e (#t (t "c") 1)) (or #f $X))', '(guard (e (#t (t "c") 1)) (set! g $X))', '(guard (e (#t (t "c") 1)) `(1 ,(t 1 1) ,$X))', '(guard (e (#t (t "c") 1)) `(1 ,@$X))', '(guard (e (#t (t "c") 1)) ($X 1))', '(guard (e (#t (t "c") 1)) ((lambda (x) x) $X))', '(guard (e (#t (t "c") 1)) (raise $X))', '(guard (e (#t (t "c") 1)) (error "x" $X))',
       '(list (guard (e (#t 1)) $X) (guard (e (#t 2)) $X) (guard (e (#t 3)) (raise 9)))', '(guard (e (#t (guard (f (#t (t "d") 3)) $X))) $X)', '(guard (e (#t (guard (f (#f 1)) (t "d") 4))) $X)', '(begin (define (rec n) (if (= n 0) $X (+ 1 (rec (- n 1))))) (guard (e (#t (t "c") 1)) (rec 20)))', '(begin (define (rec n) (if (= n 0) $X (dynamic-wind (lambda () (t "b")) (lambda () (+ 1 (rec (- n 1)))) (lambda () (t "a"))))) (guard (e (#t (t "c") 1)) (rec 3)))', '(begin (define (rec n) (if (= n 0) $X (guard (e ((begin (t n) #f) 1)) (+ 1 (rec (- n 1)))))) (guard (e (#t (t "c") 1)) (rec 3)))', '(call/cc (lambda (k) (guard (e (#t (t "c") 1)) (call/cc (lambda (j) (list $X))))))', '(begin (define-macro (mm x) (list (quote begin) (list (quote t) 5) x)) (guard (e (#t (t "c") 1)) (mm $X)))', '(begin (define-macro (mm) (t "m") $X) (guard (e (#t (t "c") 1)) (mm)))', '(receive (x . y) (guard (e (#t (values 1 2))) $X) (list x y))', '(guard (e (#t (t "c") 1)) (receive (x) $X x))', '(guard (e (#t (t "c") 1)) (letrec ((f (lambda (x) (if x (f #f) $X)))) (f 1)))']
def subst(t, v):
    from vlib.gram import N
    if isinstance(t, N): return v
    if isinstance(t, list):
        o = [subst(e, v) for e in t]
        return Dot(o, subst(t.tail, v)) if type(t) is Dot else Vlit(o) if type(t) is Vlit else o
    return t
def g_sources(st, spec, part, parts):
    srcs = sources()
    s = prog.Suite('')
    fl = parse('(%%fail)')[0]; rz = {x: parse(x)[0] for x in RAISES}
    probe = parse(PROBE)
    rows = []
    for c in CTX[part::parts]:
        f = parse(c)[0]
        for x in srcs:
            y = rz.get(x, fl)
            for guarded in (0, 1):
                if guarded:
                    forms = [subst(parse('(guard (e (#t (t "caught") 0)) $X)')[0], subst(f, y))] + probe
                    src = '(guard (e (#t (t "caught") 0)) %s) %s' % (c.replace('$X', x), PROBE)
                else: forms = [subst(f, y)]; src = c.replace('$X', x)
                r = s.row(forms, src)
                if r is None: st.add('not_judged', 1)
                else: rows.append(r)
    table.run(st, spec, rows, 'w', 'f')
PAIRCTX = ['(list (guard (e (#t (t 1) 1)) $X) (guard (e (#t (t 2) 2)) $Y))', '(guard (e (#t (t 1) (guard (f (#t (t 2) 2)) $Y))) $X)', '(guard (e (#t (t 1) 1)) (guard (f (#t (t 2) $Y)) $X))', '(guard (e (#t (t 1) 1)) (dynamic-wind (lambda () (t 3)) (lambda () $X) (lambda () (guard (f (#t (t 2) 2)) $Y))))', '(guard (e (#t (t 1) 1)) (with-exception-handler (lambda (x) (t 2) $Y) (lambda () $X)))', '(guard (e (#t (t 1) 1)) (guard (f ((guard (g (#t (t 2) #f)) $Y) 4)) $X))']
def g_pairs(st, spec, part, parts, nctx):
    srcs = sources()
    s = prog.Suite('')
    fl = parse('(%%fail)')[0]; rz = {x: parse(x)[0] for x in RAISES}
    probe = parse('(guard (e (#t (t "pc") e)) (raise 3))')
    rows = []
    for c in PAIRCTX[:nctx]:
        memo = {}
        for x in srcs[part::parts]:
            for y in srcs:
                k = (x if x in rz else 0, y if y in rz else 0)
                src = c.replace('$X', x).replace('$Y', y) + ' (guard (e (#t (t "pc") e)) (raise 3))'
                if k not in memo:
                    forms = parse(c.replace('$X', x if x in rz else '(%%fail)').replace('$Y', y if y in rz else '(%%fail)')) + probe
                    memo[k] = s.row(forms, src)
                if memo[k] is None: st.add('not_judged', 1)
                else: rows.append((src, memo[k][1]))
    table.run(st, spec, rows, 'w', 'f')

def famitems(name, cfg, fl, sizes, per=30000):
    pro, g, start, q, t = FAMS[name]
    o = []
    for n in sizes:
        c = g.count(start, n)
        k = max(1, (c + per - 1) // per)
        o += [('fam', cfg, fl, name, n, i, k) for i in range(k)]
    return o

def items(tier):
    th = tier == 'thorough'
    o = [('deliver', 'compact', 'rel'), ('order', 'compact', 'rel')]
    o += [('sources', 'compact', 'rel', i, 16) for i in range(16)]
    o += [('pairs', 'compact', 'rel', i, 16, 6 if th else 3) for i in range(16)]
    for name, (pro, g, start, q, t) in FAMS.items():
        o += famitems(name, 'compact', 'rel', q)
        if th:
            o += famitems(name, 'compact', 'rel', t) + famitems(name, 'fatty', 'rel', q) + famitems(name, 'compact', 'asan', q)
        else:
            o += famitems(name, 'fatty', 'rel', q[:-1]) + famitems(name, 'compact', 'asan', q[:-2])
    if th:
        for cfg, fl in [('fatty', 'rel'), ('compact', 'asan')]:
            o += [('deliver', cfg, fl), ('order', cfg, fl)] + [('sources', cfg, fl, i, 16) for i in range(16)]
    else: o += [('deliver', 'fatty', 'rel'), ('deliver', 'compact', 'asan'), ('order', 'fatty', 'rel')]
    return o

def run_item(item, st, tier):
    kind, cfg, fl = item[:3]
    spec = dict(cfg=cfg, flavor=fl, files=['rows.scm', 't.scm'])
    if kind == 'fam':
        name, n, i, k = item[3:]
        pro, g, start, q, t = FAMS[name]
        s = prog.Suite(pro)
        c = g.count(start, n)
        lo, hi = c * i // k, c * (i + 1) // k
        if fl == 'rel' and cfg == 'compact' and n < q[-1]:
            gd = parse('(guard (e (#t (t "caught") 0)) $X)')[0]
            pb = parse(PROBE)
            prog.runs(st, spec, s, ([subst(gd, p)] + pb for p in g.iter(start, n, lo, hi)))
        prog.run(st, spec, s, g.iter(start, n, lo, hi))
    elif kind == 'deliver': table.run(st, spec, list(g_deliver()), 'w', '')
    elif kind == 'sources': g_sources(st, spec, *item[3:])
    elif kind == 'pairs': g_pairs(st, spec, *item[3:])
    elif kind == 'order':
        # SRFI-34: the dynamic environment of the clauses is that of the guard expression
        table.run(st, spec, [('(guard (e (#t (display "c") 1)) (dynamic-wind (lambda () (display "b")) (lambda () (raise 1)) (lambda () (display "a"))))', Exp('1', 'bac'))], 'w', '', keyf=lambda i: 'guard-clause-order')
