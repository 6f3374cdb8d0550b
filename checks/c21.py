"""C21: the storage layouts behave identically; identity, types, equality, isolation of objects."""
import itertools, re
from vlib import core, table, calls, prog
from vlib.table import V
from vlib.rs import tx, parse
from vlib.calls import POOL, SIGS, FULL, P3, P4, MODPROCS
from checks import c01, c07, c08
from checks.c01 import chunks, HOLD, MG, MODFILE, NAMES, fams

ID = 'C21'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of (a) objects, pairs and triples of objects of a pool covering every type and representation boundary, for the type predicates and the equivalences; of all pairs of data trees up to a size for equal?; (b) all histories of mutations of a set of objects of every mutable kind up to a depth, against an explicit model of the slots, with collections in between; (c) programs and calls, each run on both storage layouts, whose observations must coincide'
NOTE = 'Bounded: the listed pools, sizes and depths. Differences the documentation announces (width of fixnums, immutable list literals of the fatty layout) are excluded.'
BUILDS = [('compact', 'rel'), ('fatty', 'rel'), ('compact', 'asan'), ('hygienic', 'rel')]
BOUNDS = {'quick': '110 objects pairwise, 40 in triples; all pairs of trees of size 3; mutation histories of depth 2 over 14 slots and 11 values and depth 3 over 4 values; both layouts: every call of arity up to 2 (42 values) and 3 (19 values), 205 error expressions, all families of programs of C05, C06, C07, C18',
          'thorough': 'trees of size 4, histories of depth 3 over 7 values, larger program families'}
NONVACUOUS = {'states': 200000, 'pairs': 10000, 'histories': 10000}

# ---- objects: (expression, predicate true for it, class for eqv/equal)
# 'class' is a Python value: eqv? iff the eqv class is equal, equal? iff the equal class is equal; None = only itself
OB = []
def ob(expr, pred, eqv=None, equal=None, fat=False): OB.append((expr, pred, eqv, equal if equal is not None else eqv, fat))
INTS = [0, 1, -1, 2, 7, 8, 31, 32, 127, 128, 255, 256, 0xd8, 2 ** 31 - 1, 2 ** 31, 2 ** 32, -2 ** 31, -2 ** 32, 2 ** 58, 2 ** 59 - 1, -2 ** 59, 2 ** 59 - 2, 1 - 2 ** 59]
for n in INTS: ob(str(n), 'number?', ('n', n))
ob('(+ 3 4)', 'number?', ('n', 7)); ob('(- (expt 2 31) 1)', 'number?', ('n', 2 ** 31 - 1)); ob('(- (- (expt 2 58) 1) (- (expt 2 58)))', 'number?', ('n', 2 ** 59 - 1)); ob('(string->number "100" 16)', 'number?', ('n', 256))
for c in (0, 1, 7, 0x20, 0x41, 0x61, 0x7f, 0x80, 0xe9, 0x3bb, 0x3042, 0xd7ff, 0xe000, 0x10000, 0x10ffff): ob('(integer->char %d)' % c, 'char?', ('c', c))
ob('#\\a', 'char?', ('c', 0x61)); ob('#\\space', 'char?', ('c', 0x20)); ob('(string-ref "x\u3042" 1)', 'char?', ('c', 0x3042)); ob('#\\nul', 'char?', ('c', 0))
ob('#t', 'boolean?', ('b', 1)); ob('#f', 'boolean?', ('b', 0)); ob('(not 1)', 'boolean?', ('b', 0)); ob('(eq? 1 2)', 'boolean?', ('b', 0)); ob("(null? '())", 'boolean?', ('b', 1))
ob("'()", 'null?', ('nil',)); ob('(list)', 'null?', ('nil',)); ob("(cdr (list 1))", 'null?', ('nil',))
for s, t in (("'a", 'a'), ("'b", 'b'), ("'A", 'A'), ('(string->symbol "a")', 'a'), ('(string->symbol "aa")', 'aa'), ("'aa", 'aa'), ('(string->symbol "")', ''), ('(string->symbol (string-append "long" "-symbol-name-0123456789"))', 'L'), ("'long-symbol-name-0123456789", 'L'), ('(string->symbol "a b")', 'a b'), ("'\u3042", '\u3042'), ('(string->symbol "\u3042")', '\u3042')): ob(s, 'symbol?', ('s', t))
for e, t in (('""', ''), ('(make-string 0)', ''), ('(string-copy "")', ''), ('"a"', 'a'), ('(string #\\a)', 'a'), ('(string-copy "a")', 'a'), ('"ab"', 'ab'), ('(string-append "a" "b")', 'ab'), ("(symbol->string 'ab)", 'ab'), ('"A"', 'A'), ('"b"', 'b'), ('"\u3042"', '\u3042'), ('(string (integer->char 12354))', '\u3042'), ('"\u3042a"', '\u3042a'), ('(number->string 7)', '7'), ('"aa"', 'aa'), ('(make-string 2 #\\a)', 'aa')):
    ob(e, 'string?', None, ('str', t))
for e, t in (("'(1)", '(1)'), ('(list 1)', '(1)'), ("(cons 1 '())", '(1)'), ('(list 1 2)', '(1 2)'), ("'(1 2)", '(1 2)'), ('(cons 1 2)', '(1 . 2)'), ("'(1 . 2)", '(1 . 2)'), ('(list "a" #\\a)', 'A'), ('(cons "a" (list #\\a))', 'A'), ("'(a b)", '(a b)'), ('(list (list 1) (vector 2))', 'B'), ("'((1) #(2))", 'B'), ("'(())", '(())'), ('(cons #t #f)', 'C'), ('(list "A" #\\a)', 'D')):
    ob(e, 'pair?', None, ('p', t))
for e, t in (('(vector)', '()'), ("'#()", '()'), ('(vector 1)', '1'), ('(make-vector 1 1)', '1'), ("'#(1)", '1'), ("'#(1 2)", '12'), ('(vector 1 2)', '12'), ('(vector "a" (list 1))', 'A'), ("'#(\"a\" (1))", 'A'), ("(vector '())", '(nil)'), ('(list->vector (list 1 2))', '12'), ('(vector (vector 1))', 'V'), ("'#(#(1))", 'V')):
    ob(e, 'vector?', None, ('v', t))
for e in ('car', 'cdr', '+', '(lambda (x) x)', '(lambda (x) x)', '(call/cc (lambda (k) k))', 'map', 'apply'): ob(e, 'procedure?', None if e[0] == '(' else ('f', e))
ob('(begin car)', 'procedure?', ('f', 'car'))
ob('(eof)', 'eof-object?', ('eof',)); ob('the-eof', 'eof-object?', ('eof',))
for e in ('(current-input-port)', '(open-input-string "a")', '(open-input-string "a")', '(open-output-string)'): ob(e, 'port?', None)
ob('(if #f #f)', None, ('undef',))
TRI = list(range(0, len(OB), 3))
PREDS = ['boolean?', 'null?', 'pair?', 'symbol?', 'string?', 'char?', 'number?', 'vector?', 'procedure?', 'eof-object?', 'port?']
NEG = {'integer?': 'number?', 'list?': None}

def fixed(i): return OB[i][2] is not None
def eqv(i, j): return i == j or (OB[i][2] is not None and OB[i][2] == OB[j][2])
def equal(i, j): return i == j or (OB[i][3] is not None and OB[i][3] == OB[j][3])
UNSURE = {'procedure?'}
def skip_eqv(i, j):
    # empty vectors and strings, closures of the same text, call/cc and its long name may be the same object
    if i == j: return False
    a, b = OB[i], OB[j]
    if a[1] == b[1] and a[1] in ('string?', 'vector?') and a[3] == b[3] and a[3][1] in ('', '()'): return True
    if a[1] == b[1] == 'procedure?' and 'call' in a[0] and 'call' in b[0]: return True
    if a[1] == b[1] == 'pair?' and a[0][0] == b[0][0] == "'": return True       # constants may be shared
    if a[1] == b[1] and a[0][0] == b[0][0] == '"': return True
    return False

# ---- data trees for equal?
TREE = {0: ['1', '2', 'a', '"s"', '#\\a', '#f', '()', '""', '#()', '"S"']}
def trees(n):
    if n in TREE: return TREE[n]
    o = []
    for i in range(n):
        for x in trees(i):
            for y in trees(n - 1 - i): o.append('(%s . %s)' % (x, y))
    for x in trees(n - 1): o.append('#(%s)' % x)
    if n > 1:
        for i in range(n - 1):
            for x in trees(i):
                for y in trees(n - 2 - i): o.append('#(%s %s)' % (x, y))
    TREE[n] = o
    return o
SMALL = ['1', 'a', '"s"', '()']
def trees_small(n, memo={}):
    if n == 0: return SMALL
    if n in memo: return memo[n]
    o = []
    for i in range(n):
        for x in trees_small(i):
            for y in trees_small(n - 1 - i): o.append('(%s . %s)' % (x, y))
    for x in trees_small(n - 1): o.append('#(%s)' % x)
    memo[n] = o
    return o

# ---- isolation of objects: slots and values of a history
OBJ = ['p', 'q', 'v', 's', 'h']
VALS = ['0', '-1', "'x", '#t', "'()", '#\\b', 'p', 'v', 's', 'car', '(greatest-fixnum)', '(least-fixnum)', '#\\\u3042', 'h', '(the-eof)', '(fresh)']
VMAIN = VALS[:11]
V4 = ['5', 'p', "'()", '#\\c']
SETS = ['(set-car! p %s)', '(set-cdr! p %s)', '(set-car! q %s)', '(set-cdr! q %s)', '(vector-set! v 0 %s)', '(vector-set! v 1 %s)', '(vector-set! v 2 %s)', '(set! g %s)', '((car h) %s)', '(set! l %s)']
SLOTS = ['(car p)', '(cdr p)', '(car q)', '(cdr q)', '(vector-ref v 0)', '(vector-ref v 1)', '(vector-ref v 2)', 'g', '((cdr h))', 'l']
INIT = ['1', '2', '3', '4', '5', '6', '7', '8', '9', '10']
OTHER = [('(string-set! s 0 #\\z)', ('s', 0, 'z')), ('(string-set! s 2 #\\y)', ('s', 2, 'y')), ('(string-set! s 1 #\\\u3042)', ('s', 1, '\u3042')), ('(string-fill! s #\\k)', ('sf', 'k')), ('(string-fill! s #\\\u03bb)', ('sf', '\u03bb')),
         ("(vector-fill! v 'f)", ('vf', "'f")), ('(vector-fill! v s)', ('vf', 's')), ('(collect)', None), ('(string-copy s)', None), ('(vector->list v)', None), ('(append (list 1) (list 2))', None), ('(reverse (list p q))', None)]
def hist_ops(vals): return [(t % v, i, v) for i, t in enumerate(SETS) for v in vals] + [(t, None, e) for t, e in OTHER]
SHOWN = {"'x": 'x', "'()": '()', 'p': '*p', 'v': '*v', 's': '*s', 'h': '*h', 'car': '*car', '(the-eof)': '*eof', '(fresh)': '("new" . 5)', "'f": 'f'}
def hist_program(ops):
    return "(let* ((p (cons 1 2)) (q (cons 3 4)) (v (vector 5 6 7)) (s (string #\\a #\\b #\\c)) (l 10) (h (let ((y 9)) (cons (lambda (n) (set! y n)) (lambda () y))))) (set! g 8) %s (let ((w (lambda (x) (show-slot x p q v s h)))) (list %s s)))" % (' '.join(o[0] for o in ops), ' '.join('(w %s)' % x for x in SLOTS))
def hist_model(ops, cfg):
    slots = list(INIT); s = list('abc')
    gf = {'(greatest-fixnum)': str(2 ** 59 - 1 if cfg != 'fatty' else 2 ** 63 - 1), '(least-fixnum)': str(-2 ** 59 if cfg != 'fatty' else -2 ** 63)}
    for t, i, e in ops:
        if i is not None: slots[i] = e
        elif e is None: pass
        elif e[0] == 's': s[e[1]] = e[2]
        elif e[0] == 'sf': s = [e[1]] * 3
        elif e[0] == 'vf': slots[4:7] = [e[1]] * 3
    return '(' + ' '.join(gf.get(x, SHOWN.get(x, x)) for x in slots) + ' "%s")' % ''.join(s)

# every value through every kind of holder, with collections before it is looked at
HOLDERS = ['(car (cons $ 0))', '(cdr (cons 0 $))', '(vector-ref (vector 0 $ 1) 1)', '((lambda () $))', '(let ((y $)) ((lambda () y)))', '(force (delay $))', '(call/cc (lambda (k) (k $)))', '(call-with-values (lambda () (values 1 $)) (lambda (a b) b))', '(apply (lambda (a . r) (car r)) 1 (list $))', '(let ((x 0)) (set! x $) x)', '(begin (set! gg $) gg)',
    '(let ((c (list 1))) (set-car! c $) (car c))', '(let ((c (list 1))) (set-cdr! c $) (cdr c))', '(let ((c (make-vector 3 0))) (vector-set! c 2 $) (vector-ref c 2))', '(car (vector->list (vector $)))', '(vector-ref (list->vector (list $)) 0)', '(vector-ref (make-vector 2 $) 1)', '(car (append (list $) (list 1)))', '(car (reverse (list $)))', '(car (list-tail (list 1 $) 1))', '(car (map (lambda (x) x) (list $)))',
    '(guard (e (#t e)) (raise $))', '(with-exception-handler (lambda (e) (kk e)) (lambda () (call/cc (lambda (k) (set! kk k) (raise $)))))', '(eval (list (quote quote) $) (interaction-environment))', '(car `(,$))', '(car `(,@(list $)))', '(vector-ref `#(1 ,$) 1)', '(let loop ((i 0) (x $)) (if (< i 3) (loop (+ i 1) x) x))', '(do ((i 0 (+ i 1)) (x $ x)) ((= i 3) x))', '(cond ((list $) => car))', '(case 1 ((1) $))', '(and 1 $)', '(letrec ((a (lambda () $))) (a))', '(let-optionals* (list $) ((a 1)) a)', '(dynamic-wind (lambda () 1) (lambda () $) (lambda () 2))', '(vector-ref (let ((v (make-vector 2))) (vector-fill! v $) v) 0)', '(cdr (assq (quote k) (list (cons (quote k) $))))', '(begin (set-car! kept $) (car kept))']

def scrub(b):
    b = re.sub(rb'0x[0-9a-fA-F]+|#<(closure|procedure|subr|port|input|output|continuation)[^>]*>', b'#<_>', b)
    return b
def same(a, b): return a.kind == b.kind and scrub(a.val) == scrub(b.val) and scrub(a.out) == scrub(b.out)

def diff(st, srcs, flags='s', files=(), other='fatty', limit=2000, kinds='VER', mutlit=False):
    """observations of both layouts coincide"""
    cs = [core.case(x, flags) for x in srcs]
    A = core.driver(cfg='compact', flavor='rel', files=list(files), limit=limit)
    spec = dict(cfg=other, flavor='rel', files=list(files), limit=limit)
    CH = 4000
    for o in range(0, len(cs), CH):
        part = cs[o:o + CH]
        if len(A.history) > 8000: A.close()
        ra = A.eval(part)
        def judge(i, r):
            a = ra[i]
            if a.kind not in kinds and r.kind not in kinds: return None
            if same(a, r): return None
            if a.kind == 'E' and r.kind == 'E': return None if r.out == a.out else 'output differs from the compact layout: ' + a.show()[:300]
            # differences by the width of fixnums: any number near the limits of one layout
            if b'5764607523034' in a.val + r.val + a.out + r.out or b'922337203685477' in a.val + r.val + a.out + r.out: return None
            return 'in the compact layout: ' + a.show()[:300]
        core.compare(st, spec, part, judge)
    st.add('states', len(cs)); st.add('transitions', 2 * len(cs)); st.add('compared', len(cs))

LITMUT = [('"abc"', '(string-set! $ 0 #\\x)', 1), ('(symbol->string (quote abc))', '(string-set! $ 0 #\\x)', 1), ('(string-copy "abc")', '(string-set! $ 0 #\\x)', 0), ('(string-append "abc")', '(string-set! $ 0 #\\x)', 0), ('(substring "abc" 0 2)', '(string-set! $ 0 #\\x)', 0), ('(list->string (list #\\a))', '(string-set! $ 0 #\\x)', 0), ('(number->string 12)', '(string-set! $ 0 #\\x)', 0), ('(make-string 3 #\\a)', '(string-set! $ 0 #\\x)', 0), ('(string #\\a)', '(string-set! $ 0 #\\x)', 0),
          ('"abc"', '(string-fill! $ #\\x)', 1), ('(symbol->string (quote abc))', '(string-fill! $ #\\x)', 1), ('(string-copy "abc")', '(string-fill! $ #\\x)', 0), ("(car '(\"abc\"))", '(string-set! $ 0 #\\x)', 1), ("(vector-ref '#(\"abc\") 0)", '(string-set! $ 0 #\\x)', 1), ('(car `("abc"))', '(string-set! $ 0 #\\x)', 1),
          ("'#(1 2)", '(vector-set! $ 0 1)', 1), ("'#(1 2)", '(vector-fill! $ 0)', 1), ("(car '(#(1 2)))", '(vector-set! $ 0 1)', 1), ("(vector-ref '#(#(1 2)) 0)", '(vector-set! $ 0 1)', 1), ('(vector 1 2)', '(vector-set! $ 0 1)', 0), ('(make-vector 2)', '(vector-set! $ 0 1)', 0), ('(list->vector (list 1))', '(vector-set! $ 0 1)', 0), ("(list->vector '(1))", '(vector-set! $ 0 1)', 0), ('(vector 1 2)', '(vector-fill! $ 1)', 0), ("`#(1 ,(+ 1 1))", '(vector-set! $ 0 1)', 0),
          ("'(1 2)", '(set-car! $ 1)', 2), ("'(1 2)", '(set-cdr! $ 1)', 2), ("(cdr '(1 2))", '(set-car! $ 1)', 2), ("(car '((1) 2))", '(set-car! $ 1)', 2), ('(list 1 2)', '(set-car! $ 1)', 0), ('(cons 1 2)', '(set-cdr! $ 1)', 0), ("(append '(1) '())", '(set-car! $ 1)', 0), ("(reverse '(1))", '(set-car! $ 1)', 0), ("(map car '((1)))", '(set-car! $ 1)', 0), ("(vector->list '#(1))", '(set-car! $ 1)', 0), ('(string->list "a")', '(set-car! $ 1)', 0), ("(cdr (append (list 1) '(2)))", '(set-car! $ 1)', 2), ("((lambda x x) 1)", '(set-car! $ 1)', 0), ("(apply list '(1))", '(set-car! $ 1)', 0), ("(apply (lambda x x) '(1))", '(set-car! $ 1)', 0), ("(apply (lambda x x) 1 '(2))", '(set-car! $ 1)', 0)]

def ARG(x): return '(lambda (x y) (eqv? x y))' if x == 'lam2' else POOL[x][0]

def items(tier):
    th = tier == 'thorough'
    o = []
    for cfg, fl in BUILDS:
        for per in (0, 1) if fl == 'rel' else (0,):
            if cfg == 'hygienic' and per: continue
            o += [('types', cfg, fl, per), ('pairs', cfg, fl, per), ('holders', cfg, fl, per), ('lit', cfg, fl, per)]
            if cfg == 'hygienic': continue
            n = len(TRI)
            for lo, hi in chunks(n, 10): o.append(('triples', cfg, fl, per, lo, hi))
            if per == 0:
                for n in (1, 2) if not th else (1, 2, 3):
                    for lo, hi in chunks(len(trees(n)) if n < 3 else 0, 60): o.append(('trees', cfg, fl, n, lo, hi))
                k = len(trees_small(3))
                for lo, hi in chunks(k, 200): o.append(('tsmall', cfg, fl, 3, lo, hi))
            for j in range(len(hist_ops(VMAIN))):
                if fl == 'rel' or j % 4 == 0: o.append(('hist', cfg, fl, per, 2, j))
            if per == 0:
                for j in range(len(hist_ops(V4))):
                    if fl == 'rel' or th: o.append(('hist3', cfg, fl, per, 3, j))
    for other in ('fatty', 'hygienic'):
        for i in range(len(NAMES)): o.append(('dcalls', other, i))
        for p in range(8): o.append(('dsrc', other, p, 8))
        for mod in ('c05', 'c06', 'c07', 'c18'):
            for name, (pro, g, start, q, t) in fams(mod).items():
                for size in q:
                    n = g.count(start, size)
                    if n > (150000 if th else 12000): break
                    for lo, hi in chunks(n, 2000): o.append(('dfam', other, mod, name, size, lo, hi))
        if other == 'fatty':
            for m in MODPROCS:
                for j in range(0, len(MODPROCS[m]), 10): o.append(('dmods', other, m, j))
            for lo, hi in chunks(HOLD.count('S', 1), 400): o.append(('dhold', other, 1, lo, hi))
    return o

def run_item(item, st, tier):
    kind, cfg, fl = item[:3]
    th = tier == 'thorough'
    spec = dict(cfg=cfg, flavor=fl, files=['rows.scm'])
    per = item[3] if len(item) > 3 else 0
    sched = (1, 0) if per else (0, 0)
    DEF = '(define the-eof (read-char (open-input-string ""))) (define (eof) (read-char (open-input-string ""))) (define (port? x) (guard (e (#t #f)) (or (input-port? x) (output-port? x)))) '
    if kind == 'types':
        rows = []
        for e, p, _, _, fat in OB:
            want = '(' + ' '.join('#t' if q == p else '#f' for q in PREDS) + ')'
            rows.append((DEF + '(let ((x %s)) (list %s))' % (e, ' '.join('(%s x)' % q for q in PREDS)), V(want)))
            rows.append((DEF + '(let ((x %s)) (list (integer? x) (list? x) (if x 1 2) (null? (list? x))))' % e, None))
            n = '#t' if p == 'number?' else '#f'
            l = '#t' if p == 'null?' or (p == 'pair?' and '.' not in e and e not in ('(cons 1 2)', '(cons #t #f)')) else '#f'
            rows[-1] = (rows[-1][0], V('(%s %s %d #f)' % (n, l, 2 if OB[0] and (p == 'boolean?' and e in ('#f', '(not 1)', '(eq? 1 2)')) else 1)))
        table.run(st, spec, rows, flags='f', schedule=sched)
    elif kind == 'pairs':
        n = len(OB)
        # objects made once each, in a vector
        mk = DEF + '(define objs (vector %s)) ' % ' '.join(o[0] for o in OB)
        rows = []
        for i in range(n):
            for f, rel in (('eqv?', eqv), ('equal?', equal)):
                js = [j for j in range(n) if not (f == 'eqv?' and skip_eqv(i, j))]
                rows.append((mk + '(let ((x (vector-ref objs %d))) (map (lambda (j) (let ((y (vector-ref objs j))) (cons (%s x y) (%s y x)))) (list %s)))' % (i, f, f, ' '.join(map(str, js))),
                             V('(' + ' '.join('(#t . #t)' if rel(i, j) else '(#f . #f)' for j in js) + ')')))
                st.add('pairs', len(js))
            js = [j for j in range(n) if not skip_eqv(i, j) and not (OB[i][1] in ('number?', 'char?') and eqv(i, j))]
            rows.append((mk + '(let ((x (vector-ref objs %d))) (map (lambda (j) (let ((y (vector-ref objs j))) (cons (eq? x y) (eq? y x)))) (list %s)))' % (i, ' '.join(map(str, js))),
                         V('(' + ' '.join('(#t . #t)' if eqv(i, j) else '(#f . #f)' for j in js) + ')')))
            # eq? refines eqv? refines equal?, for all of them
            rows.append((mk + '(let ((x (vector-ref objs %d))) (let lp ((j 0)) (if (< j %d) (let ((y (vector-ref objs j))) (if (and (or (not (eq? x y)) (eqv? x y)) (or (not (eqv? x y)) (equal? x y)) (eqv? x x) (equal? x x) (eq? (list? x) (list? x))) (lp (+ j 1)) j)) (quote ok))))' % (i, n), V('ok')))
        table.run(st, spec, rows, flags='f', schedule=(0, 0) if not per else (7, 3))
    elif kind == 'triples':
        lo, hi = item[4:]
        mk = DEF + '(define objs (vector %s)) ' % ' '.join(OB[k][0] for k in TRI)
        n = len(TRI)
        rows = [(mk + "(let lp ((i %d)) (if (= i %d) 'ok (let lj ((j 0)) (if (= j %d) (lp (+ i 1)) (let lk ((k 0)) (if (= k %d) (lj (+ j 1)) (let ((x (vector-ref objs i)) (y (vector-ref objs j)) (z (vector-ref objs k))) (if (or (and (%s x y) (%s y z) (not (%s x z)))) (list i j k) (lk (+ k 1)))))))))) " % (i, i + 1, n, n, f, f, f), V('ok')) for i in range(lo, hi) for f in ('eq?', 'eqv?', 'equal?')]
        st.add('triples', len(rows) * n * n)
        table.run(st, spec, rows, flags='fL', schedule=(0, 0))
    elif kind in ('trees', 'tsmall'):
        n, lo, hi = item[3:]
        ts = trees(n) if kind == 'trees' else trees_small(n)
        lists = ' '.join(ts)
        if kind == 'trees': lists = ' '.join(ts + trees(n - 1))
        rows = [("(let ((x '%s)) (let lp ((l '(%s)) (i 0) (hits (list))) (if (null? l) hits (lp (cdr l) (+ i 1) (if (equal? x (car l)) (cons i hits) (if (equal? (car l) x) (cons (- i) hits) hits)))))) " % (ts[i], lists), V('(%d)' % i)) for i in range(lo, hi)]
        st.add('pairs', len(rows) * len(ts))
        table.run(st, spec, rows, flags='')
    elif kind in ('hist', 'hist3'):
        depth, j = item[4:]
        ops = hist_ops(VMAIN if kind == 'hist' else V4)
        if th and kind == 'hist3': ops = hist_ops(V4 + ['v', "'x", '(fresh)'])[:]
        if j >= len(ops): return
        rows = []
        for rest in itertools.product(ops, repeat=depth - 1):
            h = (ops[j],) + rest
            rows.append((hist_program(h), V(hist_model(h, cfg))))
        st.add('histories', len(rows))
        table.run(st, dict(spec, files=['rows.scm', 'c21.scm']), rows, schedule=(5, 2) if per else (0, 0))
    elif kind == 'holders':
        rows = []
        for i, (e, p, c, q, fat) in enumerate(OB):
            for h in HOLDERS:
                if "(quote quote)" in h and e == '(if #f #f)': pass
                rows.append((DEF + "(define kk #f) (define gg 1) (define kept (list 1)) (let ((zz %s)) (let ((y %s)) (make-vector 20 0) (list (if (or (number? zz) (char? zz)) (eqv? zz y) (eq? zz y)) (equal? zz y) (%s y))))" % (e, h.replace('$', 'zz'), p or 'list'), V('(#t #t %s)' % ('#t' if p else '(#<undef>)'))))
        table.run(st, spec, rows, flags='f' if fl == 'rel' else '', schedule=sched)
    elif kind == 'lit':
        rows = []
        for e, mut, k in LITMUT:
            const = k == 1 or (k == 2 and cfg == 'fatty')
            pm = 'string' if 'string' in mut else 'vector' if 'vector' in mut else 'pair'
            rows.append(('(let ((f (lambda () %s))) (let ((x (f))) (list (%%%%%s-mutable? x) (guard (e (#t (quote err))) %s (quote ok)))))' % (e, pm, mut.replace('$', 'x')), V('(#f err)' if const else '(#t ok)')))
        table.run(st, spec, rows, flags='f', schedule=sched)
    elif kind == 'dcalls':
        other, i = item[1:]
        name = NAMES[i]
        args, nreq, rest, total = SIGS[name]
        mx = len(args) + 1 if rest is None else 3
        sizes = {0: [], 1: FULL, 2: FULL, 3: P3 if name not in calls.FORK else P4}
        if other == 'hygienic': sizes[3] = P4
        ts = [t for n in range(0, min(mx, 3) + 1) for t in itertools.product(sizes[n], repeat=n) if not calls.excluded(name, t)]
        if name in ('set-car!', 'set-cdr!'): ts = [t for t in ts if not (t and t[0] in ('ql', 'code'))]
        if name in ('exit', 'fixnum-width', 'greatest-fixnum', 'least-fixnum', 'sscm-version', '%%pair-mutable?', 'make-string', 'make-vector'): ts = [t for t in ts if name not in ('fixnum-width', 'greatest-fixnum', 'least-fixnum', '%%pair-mutable?') and 'GF' not in t]
        if name in ('assq', 'memq', 'eq?'): ts = [t for t in ts if not (t and POOL[t[0]][1] & {'int', 'char'})]         # eq? of numbers and characters is not specified
        if other == 'fatty' and len(args) and 'int' in args + [rest]: ts = [t for t in ts if not ({'GF', 'LF'} | ({'60'} if name in ('expt', '*') else set())) & set(t)]
        ts = [t for t in ts if name != 'eval' or not ({'code', 'ql', 'eo'} & set(t))]
        diff(st, ['(%s%s)' % (name, ''.join(' ' + ARG(x) for x in t)) for t in ts], 's' + ('f' if name in calls.FORK else ''), ['calls.scm'], other)
    elif kind == 'dmods':
        other, m, j = item[1:]
        for name in MODPROCS[m][j:j + 10]:
            pm = [x for x in calls.PM if x not in ('ql',)]
            sizes = {0: [], 1: pm, 2: pm, 3: calls.PM3}
            ts = [t for n in range(0, 4) for t in itertools.product(sizes[n], repeat=n)]
            if name in ('lset=', 'list=', 'lset-intersection', 'lset-intersection!', 'lset-difference', 'lset-difference!', 'lset-union', 'lset-union!', 'lset-xor', 'lset-xor!', 'lset<=', 'lset-diff+intersection', 'lset-diff+intersection!'): ts = [t for t in ts if not {'0', '2', '-1'} & set(t)]       # they compare their arguments with eq?
            diff(st, ['(%s%s)' % (name, ''.join(' ' + ARG(x) for x in t)) for t in ts], 's', ['calls.scm', 'm-%s.scm' % m], other, limit=300)
    elif kind == 'dsrc':
        other, p, n = item[1:]
        srcs = [x for x in c07.sources() + list(c07.RAISES) if '%%fail' not in x and 'set-c' not in x][p::n]
        diff(st, srcs + ['(guard (e (#t (%%%%inspect-error e))) %s)' % x for x in srcs] + ['(guard (e (#t (if (%%%%error-object? e) (cdr e) e))) %s)' % x for x in srcs], 'sf', ['t.scm'], other)
    elif kind == 'dfam':
        other, mod, name, size, lo, hi = item[1:]
        pro, g, start, q, t = fams(mod)[name]
        # the reference evaluator only tells here which programs end soon
        m = prog.Suite('', maxstep=3000).m
        base = dict(m.glob); protx = parse(pro)
        fs = []
        for f in g.iter(start, size, lo, hi):
            m.glob = dict(base)
            if m.run(protx + [f]) == ('U', 'too long'): st.add('not_judged'); continue
            fs.append(pro + ' ' + tx(f))
        diff(st, fs, 'w' + ('f' if name == 'quote' else ''), ['t.scm'], other)
    elif kind == 'dhold':
        other, size, lo, hi = item[1:]
        diff(st, [tx(p) for p in HOLD.iter('S', size, lo, hi)], 'w', ['gc.scm'], other)
