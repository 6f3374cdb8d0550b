"""C01: garbage collection is invisible."""
import itertools, re
from vlib import core, calls, rs
from vlib.rs import rules, tx, parse
from vlib.gram import G
from vlib.calls import POOL, SIGS, FULL, P3, P4

ID = 'C01'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of programs x collection schedules on the real collector: programs over grammars (objects x places that hold them x allocations in between, the evaluation, continuation, error and quasiquote grammars of C05-C07 and C18, all calls of the table of C08 within their domains), each run without a collection, with a collection at every allocation, with one at every single allocation, and small programs with every pair of them; plus every point of a grid of heap configurations for programs that fill heaps by themselves. Value, output and error-or-not must equal the run without collection'
NOTE = 'Bounded: the grammars and schedules listed. Objects found through stale stack words may survive by accident of the compiled code; six builds (gcc -O2, gcc -O3, clang -O2, AddressSanitizer; both storage layouts) are explored so that such accidents differ. Programs may not depend on %live and the like.'
BUILDS = [('compact', 'rel'), ('fatty', 'rel'), ('compact', 'asan'), ('fatty', 'clang'), ('fatty', 'o3'), ('compact', 'clang')]
BOUNDS = {'quick': 'holder programs with objects of size 1 (all builds) and 2 (compact gcc), every single allocation and every 2nd and 3rd for size 1; corpora of C05-C07, C18 up to 6000 programs per size (compact gcc) or 1200 (others); calls of arity up to 3 (compact gcc) or 2 within their domains; 12 programs x 60 heap configurations',
          'thorough': 'objects of size 2, corpora of size 4, every single allocation for all programs, pairs'}
NONVACUOUS = {'states': 60000, 'collections': 3000000}

# ---- objects x holders
RL = {
 'O': ['(list 1 (list 2 "x"))', '(string-append "ab" "cd")', '(vector 1 (list 2))', '(let ((n (list 5))) (lambda () n))', '(string->symbol (string-append "fr" "esh"))', '(open-input-string (string-append "(a" " b) c"))',
       '(let ((p (open-output-string))) (write (list 1 2) p) p)', '(let ((p (delay (list 1 2)))) (lambda () (force p)))', '(let ((p (delay (list 1 2)))) (force p) (lambda () (force p)))',
       '(let ((e (guard (e (#t e)) (error "m" (list 1 2))))) (lambda () (list (cadr e) (caddr e))))', '(make-string 3 #\\a)', '(make-vector 2 (list 7))', '(string-copy "lit")', '(eval (list (quote lambda) (list) (list (quote quote) (list 1))) (interaction-environment))',
       '(call/cc (lambda (k) (list 3 (list 4))))', '(string->list "ab")', '(number->string 12345)', '(symbol->string (quote sy))', '(list->string (list #\\a #\\b))',
       '(list $O)', '(cons 1 $O)', '(vector 1 $O)', '(let ((n $O)) (lambda () n))', '(let ((n $O)) (let ((p (delay (list n)))) (lambda () (force p))))', '(let ((e (guard (e (#t e)) (error "m" $O)))) (lambda () (caddr e)))'],
 'S': [(0, x) for x in [
  '(begin (define h $O) (churn) (obs h))', '(begin (define h $O) (set! h (list h (churn) $O)) (churn) (obs h))',
  '(let ((h $O)) (churn) (obs h))', '(let ((h $O) (g (churn))) (churn) (obs h))', '(let* ((h $O) (g (churn))) (obs h))', '(letrec ((h $O) (g (lambda () (churn) h))) (obs (g)))',
  '(let loop ((i 0) (h $O)) (if (< i 2) (begin (churn) (loop (+ i 1) h)) (obs h)))', '(let loop ((i 0) (h (list))) (if (< i 2) (loop (+ i 1) (cons $O h)) (obs h)))',
  '(let () (define h $O) (define g (churn)) (define (f) (list h g)) (churn) (obs (car (f))))', '(do ((i 0 (+ i 1)) (h $O)) ((= i 2) (obs h)) (churn))', '(do ((i 0 (+ i 1)) (h (list) (cons $O h))) ((= i 2) (obs h)) (churn))',
  '((lambda (h . r) (churn) (obs (list h r))) $O $O)', '((lambda r (churn) (obs r)) $O 1)', '((begin (churn) (let ((h $O)) (lambda (x) (churn) (obs (list h x))))) $O)',
  '(let ((f (let ((h $O)) (lambda () h)))) (churn) (obs (f)))', '(begin (define f (let ((h $O)) (lambda (x) (churn) (set! h (list h x)) h))) (f 1) (churn) (obs (f $O)))',
  '(obs (list $O (churn) $O))', '(obs (vector $O (begin (churn) 1)))', '(obs (append (list $O) (list (begin (churn) 1) $O) $O))', '(obs (cons (begin (churn) 1) (cons $O (begin (churn) (list 2)))))',
  '(apply (lambda (a b . c) (churn) (obs (list a c))) 1 $O (list (begin (churn) 1) $O))', '(obs (apply list $O (list $O)))',
  '(call-with-values (lambda () (values $O (churn) $O)) (lambda (a b c) (churn) (obs (list a c))))', '(receive (a . b) (values $O $O) (churn) (obs (list a b)))', '(call-with-values (lambda () (churn) $O) (lambda a (churn) (obs a)))',
  '(obs (map (lambda (x) (churn) (list x $O)) (list 1 $O)))', '(for-each (lambda (x) (churn) (t (obs x))) (list 1 $O))', '(obs (map (lambda (x y) (churn) (cons x y)) (list $O 3) (list 4 $O)))', '(obs (map (lambda (x) (churn) $O) (list 1 2 3)))',
  '(obs (dynamic-wind (lambda () (churn)) (lambda () $O) (lambda () (churn))))', '(let ((r #f)) (dynamic-wind (let ((h $O)) (lambda () (set! r h))) (lambda () (churn)) (let ((h $O)) (lambda () (churn) (set! r (list r h))))) (obs r))',
  '(obs (call/cc (lambda (k) (dynamic-wind (lambda () (churn)) (lambda () (k $O)) (let ((h $O)) (lambda () (churn) (t (obs h))))))))', '(obs (call/cc (lambda (k) (let ((h $O)) (churn) (k (list h (begin (churn) 1)))))))',
  '(obs (let ((kk #f)) (call/cc (lambda (k) (set! kk k) (churn) (list (kk $O))))))', '(let ((h $O)) (obs (list h (call/cc (lambda (k) (churn) (dynamic-wind churn (lambda () (k $O)) churn))))))', '(obs (call/cc (lambda (k) (map (lambda (x) (churn) (if (= x 2) (k $O) x)) (list 1 2 3)))))',
  '(obs (guard (e (#t (churn) e)) (churn) (raise $O)))', '(obs (guard (e (#t (churn) (list 1 e))) (guard (e (#f 1)) (churn) (raise $O))))', '(obs (guard (e ((begin (churn) (list e)) => (lambda (x) (churn) x))) (raise $O)))', '(obs (guard (e ((string? e) e) (else (churn) e)) (dynamic-wind churn (lambda () (raise $O)) churn)))',
  '(obs (guard (e (#f 1)) (churn) $O))', '(let ((h $O)) (guard (e (#t (churn) (obs (list h e)))) (let ((g $O)) (raise (list g)))))', '(guard (e (#t (guard (f (#t (churn) (obs (list e f)))) (raise $O)))) (raise $O))',
  '(obs (call/cc (lambda (k) (with-exception-handler (let ((h $O)) (lambda (e) (churn) (k (list e h)))) (lambda () (churn) (raise $O))))))', '(obs (with-exception-handler (let ((h $O)) (lambda (e) (churn) h)) (lambda () (churn) $O)))', '(guard (e (#t (churn) (obs (caddr e)))) (error "x" $O (begin (churn) 1)))', '(guard (e (#t (churn) (obs (cadr e)))) (churn) (error (string-append "a" "b") $O))', '(guard (e (#t (churn) (obs (caddr e)))) (churn) (car (string-append "a" "b")))',
  '(error (string-append "uncaught" " error") (list 1 (string-append "a" "b")))', '(let ((h (string-append "a" "b"))) (churn) (car h))', '(begin (churn) (raise (list (string-append "a" "b") (vector 1))))', '(begin (define (f x) (churn) (car x)) (f (list->string (list #\\a))))',
  '(let ((p (delay (begin (churn) $O)))) (let ((a (force p))) (churn) (obs (list a 1))))', '(let ((p (delay (begin (churn) $O)))) (force p) (churn) (obs (force p)))', '(let ((p (let ((h $O)) (delay (begin (churn) (list h)))))) (churn) (obs (force p)))',
  '(let ((p (open-input-string (string-append "(a #(b) " "\\"s\\") (c . d) e")))) (churn) (let* ((a (read p)) (b (begin (churn) (read p)))) (churn) (obs (list a b (read p) $O))))', '(let ((p (open-output-string)) (h $O)) (write (list 1 "a") p) (churn) (display (obs h) p) (churn) (get-output-string p))',
  '(obs (eval (list (quote quote) (list $O)) (interaction-environment)))', '(let ((f (eval (list (quote lambda) (list) (list (quote begin) (list (quote churn)) (list (quote quote) $O))) (interaction-environment)))) (churn) (obs (f)))', '(obs (eval (list (quote let) (list (list (quote x) (list (quote quote) $O))) (list (quote churn)) (quote x)) (interaction-environment)))',
  '(begin (define-macro (m . a) (churn) (list (quote list) (list (quote quote) $O) (cons (quote list) a))) (churn) (obs (m 1 2)))', '(begin (define m2 (let ((h $O)) (lambda (x) (churn) (list (quote quote) h)))) (define-macro (m x) (m2 x)) (m 1) (churn) (obs (m 1)))',
  '(obs (quasiquote (1 (unquote $O) (unquote-splicing (list $O (begin (churn) 1))) . (unquote $O))))', '(obs (quasiquote #(1 (unquote $O) (unquote-splicing (list $O (begin (churn) 1))) 2)))', '(obs (quasiquote ((unquote-splicing (list $O)) (unquote (begin (churn) $O)) (2 (unquote (begin (churn) 3))))))', '(obs (quasiquote (1 #(2 (unquote $O)) (unquote (begin (churn) 4)) (unquote-splicing $L))))',
  '(let ((c (list 1 2))) (set-car! (cdr c) $O) (churn) (set-cdr! (cdr c) (list $O)) (churn) (obs c))', '(let ((c (vector 1 2 3))) (vector-set! c 1 $O) (churn) (vector-set! c 2 (list $O)) (churn) (obs c))', '(let ((c (make-vector 3 0))) (vector-fill! c $O) (churn) (obs (vector-ref c 2)))', '(let ((s (make-string 2 #\\a))) (string-set! s 1 (integer->char 12354)) (churn) (string-fill! s #\\b) (list s (obs $O)))',
  '(begin (eval (list (quote define) (string->symbol "dyn-x") (list (quote quote) $O)) (interaction-environment)) (churn) (obs (eval (string->symbol (string-append "dyn" "-x")) (interaction-environment))))', '(let ((a (string->symbol (string-append "fresh" "-q")))) (churn) (list (eq? a (string->symbol "fresh-q")) a (obs $O)))',
  '(cond ((list $O) => (lambda (x) (churn) (obs x))))', '(cond ((begin (churn) #f) 1) ((list $O) => (begin (churn) (lambda (x) (churn) (obs x)))))', '(and-let* ((x $O) (y (churn))) (obs x))', '(obs (or #f (begin (churn) #f) $O))', '(case (begin (churn) 2) ((1) 3) ((2) (churn) (obs $O)))', '(let-optionals* (list $O) ((a 1) (b (begin (churn) $O)) . c) (churn) (obs (list a b c)))',
  '(call-with-output-file "gc.tmp" (let ((h $O)) (lambda (p) (churn) (write (obs h) p) (churn))))', '(begin (call-with-output-file "gc2.tmp" (lambda (p) (write (quote (a "b" #(c))) p))) (churn) (obs (list (call-with-input-file "gc2.tmp" (let ((h $O)) (lambda (p) (churn) (let ((a (read p))) (churn) (list a h))))))))',
  '(begin (call-with-output-file "gc3.tmp" (lambda (p) (write (quote (define lx (list 1 "b" (churn)))) p) (write (quote (churn)) p) (write (quote (define ly (list lx (churn)))) p))) (churn) (load "gc3.tmp") (churn) (list (car (obs (car ly))) (obs $O)))', '(begin (with-output-to-file "gc4.tmp" (let ((h $O)) (lambda () (churn) (write (obs h)) (churn)))) (churn) (with-input-from-file "gc4.tmp" (lambda () (churn) (obs (read)))))',
  '(let ((old (current-output-port))) (%%set-current-output-port! (let ((p (open-output-string))) (display "q" p) p)) (churn) (display "r") (let ((p (current-output-port))) (%%set-current-output-port! old) (churn) (list (get-output-string p) (obs $O))))', '(begin (provide (string-append "ft" "r")) (churn) (list (provided? "ftr") (obs $O)))',
  '(with-char-codec "ISO-8859-1" (let ((h $O)) (lambda () (churn) (obs h))))', '(let* ((l (list 1)) (h $O)) (set-cdr! l l) (let ((g (list h l))) (churn) (obs (list (car g) (car (cadr g))))))', '(let ((v (make-vector 1))) (vector-set! v 0 (list v $O)) (churn) (obs (cadr (vector-ref v 0))))',
  '(obs (reverse (list $O (begin (churn) 1) $O)))', '(obs (list-tail (list 1 $O) 1))', '(obs (list->vector (list $O 1)))', '(obs (vector->list (vector 1 $O)))', '(obs (assv 2 (list (cons 1 2) (cons 2 $O))))', '(obs (string->list (apply string-append (map (lambda (x) (churn) (string-append "a" x)) (list "b" "c")))))',
  '(write (list (obs $O) "w"))', '(write/ss (let ((x (obs $O))) (list x x)))', '(display (list (obs $O) (begin (churn) "d")))', '(let ((p (open-output-string)) (x (list 1 2))) (write/ss (list x (obs $O) x) p) (churn) (get-output-string p))',
  '(begin (define (f n) (if (= n 0) (begin (churn) (list $O)) (cons n (f (- n 1))))) (obs (f 4)))', '(begin (define (f n . r) (if (= n 0) (obs r) (apply f (- n 1) $O r))) (f 2))', '(let lp ((n 3) (k (lambda (x) x))) (if (= n 0) (obs (k $O)) (begin (churn) (lp (- n 1) (lambda (x) (churn) (k (list x n)))))))',
  '(let ((a $O) (b (churn))) (set! a (list a b)) (set! b (churn)) (obs (car a)))', '(obs (let ((f (lambda (x) (churn) x))) (f (f (f $O)))))', '(obs (begin (churn) (if (begin (churn) (list 1)) (begin (churn) $O) 2)))']],
 'L': [(0, '(list 8 9)'), '(list $O)']}
MODS = [
 ('(require-extension (srfi 9)) (define-record-type gpt (mk a b) gpt? (a ga sa!) (b gb))', ['(let ((r (mk $O 1))) (churn) (sa! r (list (ga r) $O)) (churn) (obs (list (ga r) (gb r))))', '(begin (define r (mk 1 $O)) (churn) (obs (list (gpt? r) (gb r))))']),
 ('(require-extension (srfi 69))', ['(let ((h (make-hash-table equal?))) (hash-table-set! h (string-append "a" "b") $O) (churn) (hash-table-set! h (list 1 2) $O) (churn) (obs (list (hash-table-ref h "ab" (lambda () 0)) (hash-table-ref h (list 1 2) (lambda () 0)) (hash-table-size h))))',
   '(let ((h (make-hash-table eq?)) (k (list 1))) (hash-table-set! h k $O) (churn) (hash-table-update! h k (lambda (x) (churn) (list x)) (lambda () 0)) (churn) (obs (list (hash-table-ref/default h k 0) (hash-table->alist h))))',
   '(let ((h (make-hash-table equal?))) (let lp ((i 0)) (if (< i 8) (begin (hash-table-set! h (number->string i) (list i)) (lp (+ i 1))))) (churn) (hash-table-delete! h "3") (hash-table-fold h (lambda (k v a) (churn) (+ (car v) a)) 0))']),
 ('(require-extension (srfi 95))', ['(obs (sort (list (list 2 $O) (list 1 2) (list 3)) (lambda (a b) (churn) (< (car a) (car b)))))', '(obs (sort (vector (list 2 $O) (list 1 2) (list 3)) (lambda (a b) (churn) (< (car a) (car b)))))', '(obs (merge (list 1 3) (list 2 4) (lambda (a b) (churn) (< a b))))']),
 ('(require-extension (srfi 43))', ['(obs (vector-map (lambda (i x) (churn) (list x $O)) (vector 1 $O)))', '(obs (vector-fold (lambda (i a x) (churn) (list a x)) (list) (vector 1 $O)))', '(obs (vector-append (vector $O) (vector 1 2)))', '(obs (vector-unfold (lambda (i x) (churn) (values (list i x) $O)) 3 0))']),
 ('(require-extension (srfi 1))', ['(obs (fold (lambda (x a) (churn) (list x a)) (list) (list 1 $O)))', '(obs (filter (lambda (x) (churn) (pair? x)) (list 1 (list $O) 2 (list 3))))', '(obs (append-map (lambda (x) (churn) (list x $O)) (list 1 2)))', '(obs (unfold (lambda (x) (> x 2)) (lambda (x) (churn) (list x $O)) (lambda (x) (+ x 1)) 0))', '(obs (call-with-values (lambda () (partition pair? (list 1 (list $O) 2))) (lambda (a b) (churn) (list a b))))', '(obs (map (lambda (x y) (churn) (list x y)) (list 1 $O) (list 2 3 4)))', '(obs (delete-duplicates (list (list 1) 2 (list 1) 2) (lambda (a b) (churn) (equal? a b))))']),
 ('(require-extension (srfi 48))', ['(let ((h $O)) (format "~a ~s ~d ~10f|" (obs h) (string-append "x" "y") 5 (begin (churn) 12)))', '(format #f (string-append "~a" "~%~w") (list 1 (string-append "p" "q")) $O)']),
 ('(require-extension (srfi 38) (srfi 23))', ['(let ((p (open-input-string "#0=(1 . #0#)"))) (churn) (guard (e (#t (churn) (obs (cadr e)))) (let ((x (read p))) (churn) (car x))))']),
]
HOLD = G(rules(RL))
MG = [(pro, G(rules(dict(RL, S=[(0, x) for x in hs])))) for pro, hs in MODS]

CORP = [('c05', None), ('c06', None), ('c07', None), ('c18', None)]
def fams(mod):
    m = __import__('checks.' + mod, fromlist=['x'])
    return m.FAMS

def chunks(n, per):
    k = max(1, (n + per - 1) // per)
    return [(n * i // k, n * (i + 1) // k) for i in range(k)]

BUILD3 = BUILDS
def items(tier):
    th = tier == 'thorough'
    o = []
    for cfg, fl in BUILD3:
        for size in (1, 2, 3, 4) if th else (1, 2) if (cfg, fl) == ('compact', 'rel') else (1,):
            n = HOLD.count('S', size)
            for lo, hi in chunks(n, 60 if size == 1 and fl == 'rel' else 400): o.append(('hold', cfg, fl, size, lo, hi))
        for m, (pro, g) in enumerate(MG):
            for size in (0, 1, 2, 3) if th else (0, 1):
                for lo, hi in chunks(g.count('S', size), 60):
                    if hi > lo: o.append(('mod', cfg, fl, m, size, lo, hi))
        for mod, _ in CORP:
            for name, (pro, g, start, q, t) in fams(mod).items():
                for size in q:
                    n = g.count(start, size)
                    if n > (200000 if th else 6000 if (cfg, fl) == ('compact', 'rel') else 1200): break
                    for lo, hi in chunks(n, 800): o.append(('corp', cfg, fl, mod, name, size, lo, hi))
        for i in range(len(calls.SIGS)):
            if cfg == 'compact' or th: o.append(('calls', cfg, fl, i, 3 if th or (cfg, fl) == ('compact', 'rel') else 2))
        for i in range(len(NAT)): o.append(('nat', cfg, fl, i))
    return o

NAMES = sorted(SIGS)

# ---- programs that fill heaps by themselves
NAT = [
 '(let lp ((i 0) (l (list))) (if (< i 3000) (lp (+ i 1) (cons i l)) (apply + l)))',
 '(let lp ((i 0) (l (list))) (if (< i 20000) (lp (+ i 1) (list i l)) (car l)))' if 0 else '(let lp ((i 0) (l (list))) (if (< i 20000) (lp (+ i 1) (list i 1)) (car l)))',
 '(let lp ((i 0) (s "")) (if (< i 300) (lp (+ i 1) (string-append s "ab")) (string-length s)))',
 '(let lp ((i 0) (v (make-vector 100 0))) (if (< i 3000) (begin (vector-set! v (modulo i 100) (list i)) (lp (+ i 1) v)) (apply + (map car (vector->list v)))))',
 '(begin (define (fib n) (if (< n 2) (list n) (list (+ (car (fib (- n 1))) (car (fib (- n 2))))))) (fib 14))',
 '(let lp ((i 0) (f (lambda (x) x))) (if (< i 200) (lp (+ i 1) (let ((g f)) (lambda (x) (+ 1 (g x))))) (f 0)))',
 '(let lp ((i 0) (a 0)) (if (< i 800) (lp (+ i 1) (+ a (guard (e (#t (car e))) (raise (list i))))) a))',
 '(let lp ((i 0) (a 0)) (if (< i 800) (lp (+ i 1) (+ a (call/cc (lambda (k) (dynamic-wind (lambda () (list 1)) (lambda () (k (length (list i i)))) (lambda () (list 2))))))) a))',
 '(let lp ((i 0) (l (list))) (if (< i 400) (lp (+ i 1) (cons (string->symbol (string-append "s" (number->string i))) l)) (list (length l) (eq? (car l) (string->symbol "s399")) (eq? (car (reverse l)) (string->symbol "s0")))))',
 '(let lp ((i 0) (a (list))) (if (< i 100) (lp (+ i 1) (map (lambda (x) (+ x 1)) (cons i a))) (apply + a)))',
 '(let lp ((i 0) (p #f)) (if (< i 500) (lp (+ i 1) (let ((q p)) (if q (begin (force q) (delay (+ 1 (force q)))) (delay 0)))) (force p)))',
 '(let ((p (open-output-string))) (let lp ((i 0)) (if (< i 500) (begin (write (list i "x") p) (lp (+ i 1))) (let ((q (open-input-string (get-output-string p)))) (let lp ((s 0)) (let ((x (read q))) (if (eof-object? x) s (lp (+ s (car x))))))))))',
]
CONF = [(h, i, th, mx) for h in (64, 100, 256, 1000, 4096) for i in (1, 3) for th in (0, 1, h // 4, h // 2, h, h * 2) for mx in (10000,)]

ADDR = re.compile('0x[0-9a-f]+')
def same(a, b):
    if (a.kind, a.out, a.val) == (b.kind, b.out, b.val): return True
    x, y = '%s %s' % (a.out, a.val), '%s %s' % (b.out, b.val)
    return a.kind == b.kind and '0x' in x and ADDR.sub('@', x) == ADDR.sub('@', y)

def explore(st, spec, srcs, singles=False, pairs=False, flags='s'):
    """no collection; one at every allocation; singles: one at each allocation; pairs: at each two"""
    d = core.driver(**spec)
    base = d.eval([core.case(s, flags) for s in srcs])
    cs, ref = [], []
    for s, b in zip(srcs, base):
        if b.kind not in 'VER': st.add('not_judged'); continue
        st.add('states')
        cs.append(core.case(s, flags + 'L', 1, 0)); ref.append(b)
        st.add('collections', b.allocs)
        if singles and b.allocs <= 1200:
            for k in range(b.allocs): cs.append(core.case(s, flags + 'L', 0, k)); ref.append(b)
            st.add('collections', b.allocs)
        for p in (2, 3) if singles else ():
            for o in range(p): cs.append(core.case(s, flags + 'L', p, o)); ref.append(b)
            st.add('collections', b.allocs)
    core.compare(st, spec, cs, lambda i, r: None if same(ref[i], r) else 'without a collection: ' + ref[i].show()[:300])
    st.add('schedules', len(cs)); st.add('transitions', len(cs))

def run_item(item, st, tier):
    kind, cfg, fl = item[:3]
    th = tier == 'thorough'
    spec = dict(cfg=cfg, flavor=fl, files=['gc.scm'], heap=1024, heaps_max=64)
    if kind == 'hold':
        size, lo, hi = item[3:]
        explore(st, spec, [tx(p) for p in HOLD.iter('S', size, lo, hi)], singles=th and size < 3 or (cfg, fl, size) == ('compact', 'rel', 1))
    elif kind == 'mod':
        m, size, lo, hi = item[3:]
        pro, g = MG[m]
        spec['files'] = ['gc.scm', 'm-%s.scm' % MODFILE[m]]
        explore(st, spec, [(pro + ' ' if m == 0 else '') + tx(p) for p in g.iter('S', size, lo, hi)], singles=th and size < 2)
    elif kind == 'corp':
        mod, name, size, lo, hi = item[3:]
        pro, g, start, q, t = fams(mod)[name]
        spec['files'] = ['rows.scm', 't.scm']
        spec['limit'] = 50   # endless programs are not judged
        # programs of the quotation family redefine global names: each in a process of its own
        explore(st, spec, [pro + ' ' + tx(p) for p in g.iter(start, size, lo, hi)], singles=th and size <= 2 or size <= 1, flags='sf' if name == 'quote' else 's')
    elif kind == 'calls':
        i, depth = item[3:]
        name = NAMES[i]
        args, nreq, rest, total = SIGS[name]
        mx = len(args) + 1 if rest is None else 5
        sizes = {0: [], 1: FULL, 2: FULL, 3: P3}
        ts = []
        for n in range(0, min(mx, depth) + 1):
            for t in itertools.product(sizes[n], repeat=n):
                if calls.excluded(name, t): continue
                ty = [POOL[x][1] for x in t]
                if any('huge' in x for x in ty) and name in ('make-string', 'make-vector'): continue
                dm = calls.domain(name, ty)
                if dm == 'D' and (n < 3 or len(set(t)) > 1) or n == 1: ts.append(t)
        if len(ts) > 900 and not th: ts = [t for t in ts if len(t) < 2] + [t for t in ts if len(t) >= 2 and not ({x for x in t} - set(CP))]
        flags = 's' + ('f' if name in calls.FORK else '')
        spec['files'] = ['calls.scm']; spec['limit'] = 2000
        CH = 3000
        for o in range(0, len(ts), CH):
            explore(st, spec, ['(%s%s)' % (name, ''.join(' ' + POOL[x][0] for x in t)) for t in ts[o:o + CH]], flags=flags)
    elif kind == 'nat':
        i = item[3]
        big = dict(cfg=cfg, flavor=fl, files=['gc.scm'], heap=60000, heaps_max=64)
        ref = core.run_fresh(big, [core.case(NAT[i], 's')])[0]
        if ref.kind != 'V': st.violation('nat%d' % i, 'program %s in a big heap: %s' % (NAT[i], ref.show()), dict(spec=big, cases=[core._enc_case(core.case(NAT[i], 's'))])); return
        confs = CONF if th or fl == 'rel' else CONF[::3]
        for h, ini, thr, mx in confs:
            sp = dict(cfg=cfg, flavor=fl, files=['gc.scm'], heap=h, heaps_init=ini, threshold=thr, heaps_max=mx)
            core.compare(st, sp, [core.case(NAT[i], 's')], lambda j, r: None if same(ref, r) else 'in a big heap: ' + ref.show()[:300])
            core.close_drivers()
            st.add('states'); st.add('transitions'); st.add('heap_configurations')
MODFILE = ['srfi-9', 'srfi-69', 'srfi-95', 'srfi-43', 'srfi-1', 'srfi-48', 'srfi-38']
CP = ['0', '2', 'l3', 'al', 'qs', 'ms', 'mb', 'num', 'a', 'ch', 'chmb', 'v3', 'car', 'lam1', 'lamr', 'list', 'prom', 'ip', 'op', 'eo', 'k', 'err', 'nil', 'f']
