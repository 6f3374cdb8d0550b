"""C20: records, hash tables, sorting, promises, and-let*, receive, let-optionals*."""
import itertools
from vlib import core, table
from vlib.table import V, E, Exp
from vlib.model import *

ID = 'C20'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of operation histories (records, hash tables, promises) and of forms and inputs (sort, merge, and-let*, receive, let-optionals*) on the real code against reference models'
NOTE = 'Bounded: record types of up to 3 fields with every constructor field order, all histories of 3 operations on three instances of two types; all histories of 4 operations on hash tables of 10 kinds and 3 initial sizes with colliding and equal-but-distinct keys, 4 operations on two tables with copy and merge; sort of every list of up to 6 (7) elements with 3 keys, merge of all pairs of sorted lists of up to 4; every pair of promise bodies of up to 2 (3) actions; every and-let* of up to 3 claws; every formals shape of up to 3 variables for receive and let-optionals*. Sorting of vectors is outside: this build has no arrays.'
BUILDS = [('compact', 'rel'), ('fatty', 'rel'), ('compact', 'asan')]
BOUNDS = {'quick': 'histories of 3 to 4 operations; lists of <= 6', 'thorough': 'histories of 4 to 5 operations; lists of <= 7; both layouts; AddressSanitizer'}
NONVACUOUS = {'states': 100000, 'error_cases': 5000}

def items(tier):
    th = tier == 'thorough'
    o = []
    cfgs = [('compact', 'rel')] + ([('fatty', 'rel'), ('compact', 'asan')] if th else [])
    for cfg, fl in cfgs:
        o += [('rec', cfg, fl, n) for n in range(0, 4)]
        o += [('rech', cfg, fl, i, 4 if th and fl == 'rel' else 3) for i in range(14)]
        for tk in range(len(TABLES)):
            for size in (0, 1, 2):
                for i in range(4):
                    o.append(('hash', cfg, fl, tk, size, i, 4 if th and fl == 'rel' or (size == 1 and tk in (0, 6, 9)) else 3))
        o += [('hash2', cfg, fl, i, 5 if th and fl == 'rel' else 4) for i in range(9)]
        o += [('grow', cfg, fl), ('hashf', cfg, fl), ('badrec', cfg, fl)]
        o += [('sort', cfg, fl, n) for n in range(0, 8 if th else 7)] + [('merge', cfg, fl, i) for i in range(5)]
        o += [('promise', cfg, fl, i, 3 if th else 2) for i in range(11)]
        o += [('andlet', cfg, fl, i) for i in range(len(CLAWS))] + [('receive', cfg, fl), ('letopt', cfg, fl)]
    if not th:
        for cfg, fl in (('fatty', 'rel'), ('compact', 'asan')):
            o += [('rec', cfg, fl, 2), ('grow', cfg, fl), ('sort', cfg, fl, 4), ('merge', cfg, fl, 2), ('receive', cfg, fl), ('letopt', cfg, fl), ('badrec', cfg, fl), ('hashf', cfg, fl)]
            o += [('promise', cfg, fl, i, 1) for i in range(11)] + [('andlet', cfg, fl, 0)]
            o += [('hash', cfg, fl, tk, 1, 0, 2) for tk in range(len(TABLES))]
    return o

def run_item(item, st, tier):
    kind, cfg, fl = item[:3]
    rows = list(globals()['g_' + kind](*item[3:]))
    spec = dict(cfg=cfg, flavor=fl, files=['rows.scm', 'c20.scm'])
    for i in range(0, len(rows), 20000):
        table.run(st, spec, rows[i:i + 20000], keyf=lambda j, i=i: KEYS.get(rows[i + j][0], None))
KEYS = {}

# --------------------------------------------------------------- records
FN = 'xyz'
def rectype(name, n, ctor, mods):
    return '(define-record-type %s (mk-%s %s) %s? %s)' % (name, name, ' '.join(FN[i] for i in ctor), name,
        ' '.join('(%s %s-%s%s)' % (FN[i], name, FN[i], ' set-%s-%s!' % (name, FN[i]) if mods[i] else '') for i in range(n)))
def g_rec(n):
    fields = range(n)
    ctors = [p for k in range(n + 1) for p in itertools.permutations(fields, k)]
    for ctor in ctors:
        for mods in itertools.product((0, 1), repeat=n):
            defs = rectype('A', n, ctor, mods) + rectype('B', n, ctor, (1,) * n)
            mkA = '(mk-A %s)' % ' '.join('%d' % (10 + i) for i in range(len(ctor)))
            mkB = '(mk-B %s)' % ' '.join('%d' % (20 + i) for i in range(len(ctor)))
            val = {f: 10 + i for i, f in enumerate(ctor)}
            yield defs + '(define a %s)(define b %s)(list (A? a) (A? b) (B? a) (B? b) (map A? (list 1 #f (list 1) (vector) (vector 1 2 3) car "x" (quote s) A B)))' % (mkA, mkB), V('(#t #f #f #t (#f #f #f #f #f #f #f #f #f #f))')
            yield defs + '(define a %s)(map (lambda (p) (p a)) (list vector? pair? procedure? symbol? null? string? number? char? boolean? B?))' % mkA, V('(%s)' % ' '.join(['#f'] * 10))
            acc = ' '.join('(A-%s a)' % FN[f] for f in sorted(ctor))
            yield defs + '(define a %s)(list %s)' % (mkA, acc), V('(%s)' % ' '.join(str(val[f]) for f in sorted(ctor)))
            # every modification changes exactly its field
            for f in fields:
                if not mods[f]: continue
                v2 = dict(val); v2[f] = 99
                acc = ' '.join('(A-%s a) (A-%s c)' % (FN[g], FN[g]) if g in val else '(A-%s a)' % FN[g] for g in sorted(v2))
                yield defs + '(define a %s)(define c %s)(set-A-%s! a 99)(list %s)' % (mkA, mkA, FN[f], acc), V('(%s)' % ' '.join('%s %s' % (v2[g], val[g]) if g in val else str(v2[g]) for g in sorted(v2)))
                for bad in ('b', '1', '(vector 1 2 3 4 5)', '(list 1)', 'A', 'car', "'()"):
                    yield defs + '(define a %s)(define b %s)(set-A-%s! %s 99)' % (mkA, mkB, FN[f], bad), E()
                yield defs + '(define a %s)(set-A-%s! a)' % (mkA, FN[f]), E()
                yield defs + '(define a %s)(set-A-%s! a 1 2)' % (mkA, FN[f]), E()
            for f in fields:
                for bad in ('b', '1', '(vector 1 2 3 4 5)', '(list 1)', 'A', 'car', "'()", ''):
                    yield defs + '(define b %s)(A-%s %s)' % (mkB, FN[f], bad), E()
            # argument counts of the constructor
            for k in range(0, n + 2):
                if k != len(ctor): yield defs + '(mk-A %s)' % ' '.join('1' for _ in range(k)), E()
            # a type defined twice is two types
            yield rectype('A', n, ctor, mods) + '(define a %s)(define oldA? A?)' % mkA + rectype('A', n, ctor, mods) + '(define a2 %s)(list (A? a) (A? a2) (oldA? a) (oldA? a2))' % mkA, V('(#f #t #t #f)')
    # values of every type survive in a field
    for v in ('#f', "'()", '"s"', "'sym", '(vector 1)', '(list 1 2)', 'car', '#\\a', '(delay 1)', '(mk-A 1 2 3)'):
        if n == 3:
            yield rectype('A', 3, (2, 0, 1), (1, 1, 1)) + '(let* ((v %s) (a (mk-A 1 v 3))) (set-A-z! a v) (set-A-y! a a) (list (eq? (A-x a) v) (eq? (A-z a) v) (eq? (A-y a) a)))' % v, V('(#t #t #t)')
def g_badrec():
    for src in ('(define-record-type A)', '(define-record-type A (mk))', '(define-record-type A (mk q) A? (x ax))', '(define-record-type A (mk x) A? (x))', '(define-record-type A (mk x) A? x)',
                '(define-record-type A (mk x) A? (x ax sx extra))', '(define-record-type 1 (mk) A?)', '(define-record-type A mk A?)', '(define-record-type A (mk) 1)', '(define-record-type A (1) A?)',
                '(define-record-type A (mk x) A? (x 1))', '(define-record-type A (mk x) A? (x ax 1))', '(define-record-type A (mk x) A? (1 ax))', '(define-record-type A (mk x) A? . 5)', '(define-record-type A (mk x . y) A? (x ax) (y ay))',
                '(define-record-type)', '(define-record-type A (mk x) A? (x ax . 3))'):
        yield src, E()
    yield "(define-record-type A (mk x) A? (x ax) (y ay)) (define a (mk 1)) (ax a)", V('1')
def g_rech(first, depth):
    """histories on three instances of two types with the same field names"""
    defs = rectype('A', 2, (0, 1), (1, 1)) + rectype('B', 2, (1, 0), (1, 1))
    ops = []
    for i, (o, t) in enumerate((('a', 'A'), ('b', 'A'), ('c', 'B'))):
        for f in 'xy':
            ops.append(('(set-%s-%s! %s %%d)' % (t, f, o), (o, f)))
            ops.append(('(set-%s-%s! %s (list %%d))' % (t, f, o), (o, f, 'l')))
    ops.append(('(%try (lambda () (set-B-x! a %d)))', None))
    ops.append(('(begin (A-x b) (%%try (lambda () (A-x c))) %d)'.replace('%%', '%'), None))
    for h in itertools.product(ops, repeat=depth - 1):
        h = (ops[first],) + h
        state = {('a', 'x'): '1', ('a', 'y'): '2', ('b', 'x'): '3', ('b', 'y'): '4', ('c', 'x'): '6', ('c', 'y'): '5'}
        src = defs + '(define a (mk-A 1 2))(define b (mk-A 3 4))(define c (mk-B 5 6))'
        for k, (s, e) in enumerate(h):
            src += s.replace('%d', str(100 + k))
            if e: state[e[:2]] = '(%d)' % (100 + k) if len(e) == 3 else str(100 + k)
        src += '(list (A-x a) (A-y a) (A-x b) (A-y b) (B-x c) (B-y c))'
        yield src, V('(%s)' % ' '.join(state[k] for k in (('a', 'x'), ('a', 'y'), ('b', 'x'), ('b', 'y'), ('c', 'x'), ('c', 'y'))))

# ------------------------------------------------------------ hash tables
# (maker with %s for the size, keys: (source of a fresh key, class))
TABLES = [
    ('(make-hash-table equal? hash %s)', [('(list 1 "a")', 0), ('(string #\\k)', 1), ('(vector 1 2)', 2), ("'sym", 3)]),
    ('(make-hash-table eq? hash-by-identity %s)', [("'a", 0), ("'b", 1), ("'ab", 2), ("'c", 3)]),
    ('(make-hash-table eqv? hash %s)', [('65', 0), ('#\\A', 1), ("'A", 2), ('1', 3)]),
    ('(make-hash-table string=? string-hash %s)', [('(string #\\a)', 0), ('(string #\\A)', 1), ('(string)', 2), ('(string #\\a #\\b)', 3)]),
    ('(make-hash-table string-ci=? string-ci-hash %s)', [('(string #\\a #\\B)', 0), ('(string #\\A #\\b)', 0), ('(string #\\c)', 1), ('(string #\\C)', 1)]),
    ('(make-hash-table = modulo %s)', [('0', 0), ('5', 1), ('64', 2), ('-1', 3)]),
    ('(make-hash-table (lambda (a b) (= (modulo a 3) (modulo b 3))) (lambda (k b) (modulo (modulo k 3) b)) %s)', [('0', 0), ('1', 1), ('3', 0), ('4', 1)]),
    ('(make-symbol-hash-table %s)', [("'a", 0), ("'b", 1), ("'ab", 2), ("'c", 3)]),
    ('(make-integer-hash-table %s)', [('0', 0), ('5', 1), ('64', 2), ('128', 3)]),
    ('(make-hash-table equal? (lambda (k b) 0) %s)', [('(list 1)', 0), ('(list 2)', 1), ('(list 1)', 0), ('#f', 3)]),
    ('(make-hash-table %s)', [("'()", 0), ('0', 1), ("(list)", 0), ('""', 3)]),
    ('(make-string-ci-hash-table %s)', [('(string #\\x)', 0), ('(string #\\X)', 0), ('(string #\\y)', 1), ('""', 3)]),
    ('(make-string-hash-table %s)', [('(string #\\x)', 0), ('(string #\\X)', 1), ('(string #\\y)', 2), ('""', 3)]),
]
def g_hash(tk, size, part, depth):
    maker, keys = TABLES[tk]
    s = {0: '', 1: '1', 2: '2'}[size]
    if tk == 10:
        if size: return
    mk = maker % s
    ops = [('s', k) for k in range(4)] + [('d', k) for k in range(4)] + [('u', k) for k in range(4)] + [('v', k) for k in range(4)]
    for h in itertools.product(ops, repeat=depth):
        if h[0][1] != part: continue
        m = {}
        src = '(let ((h %s)) (let* (' % mk
        rs = []
        for i, (op, k) in enumerate(h):
            ksrc, kc = keys[k]
            if op == 's':
                src += '(r%d (begin (hash-table-set! h %s %d) 0))' % (i, ksrc, i); m[kc] = i; rs.append('0')
            elif op == 'd':
                src += '(r%d (begin (hash-table-delete! h %s) 0))' % (i, ksrc); m.pop(kc, None); rs.append('0')
            elif op == 'u':
                src += '(r%d (%%try (lambda () (hash-table-update! h %s (lambda (x) (+ x 10))) 0)))' % (i, ksrc)
                if kc in m: m[kc] += 10; rs.append('0')
                else: rs.append('err')
            else:
                src += '(r%d (begin (hash-table-update!/default h %s (lambda (x) (+ x 100)) %d) 0))' % (i, ksrc, i)
                m[kc] = m.get(kc, i) + 100; rs.append('0')
        src += ') (list (list %s) (hash-table-size h) (length (hash-table-keys h)) (hash-table-fold h (lambda (k v a) (+ v a)) 0) (apply + (hash-table-values h)) (apply + (map cdr (hash-table->alist h)))' % ' '.join('r%d' % i for i in range(depth))
        e = ['(%s)' % ' '.join(rs), str(len(m)), str(len(m))] + [str(sum(m.values()))] * 3
        for ksrc, kc in keys:
            src += ' (hash-table-ref/default h %s #f) (hash-table-exists? h %s) (hash-table-ref h %s (lambda () (quote none)))' % (ksrc, ksrc, ksrc)
            e += [str(m[kc]), '#t', str(m[kc])] if kc in m else ['#f', '#f', 'none']
        src += ' (hash-table? h))))'
        e.append('#t')
        yield src, V('(%s)' % ' '.join(e))
        if depth == 3:
            # the same after a copy; a missing key without a default is an error
            for ksrc, kc in keys[:2]:
                yield src[:src.index(') (list (list ')] + ') (hash-table-ref h %s)))' % ksrc, V(str(m[kc])) if kc in m else E()
def g_hash2(first, depth):
    ops = [('s', 1, 0), ('s', 1, 1), ('s', 2, 0), ('d', 1, 0), ('d', 2, 1), ('c', 0, 0), ('m', 1, 0), ('m', 2, 0), ('u', 2, 1)]
    for h in itertools.product(ops, repeat=depth - 1):
        h = (ops[first],) + h
        m = {1: {0: 7}, 2: {1: 8}}
        src = '(define h1 (make-hash-table = modulo 1))(define h2 (make-hash-table = modulo 3))(hash-table-set! h1 0 7)(hash-table-set! h2 1 8)'
        for i, (op, t, k) in enumerate(h):
            if op == 's': src += '(hash-table-set! h%d %d %d)' % (t, k, i); m[t][k] = i
            elif op == 'd': src += '(hash-table-delete! h%d %d)' % (t, k); m[t].pop(k, None)
            elif op == 'u': src += '(hash-table-update!/default h%d %d (lambda (x) (+ x 10)) 0)' % (t, k); m[t][k] = m[t].get(k, 0) + 10
            elif op == 'c': src += '(set! h2 (hash-table-copy h1))'; m[2] = dict(m[1])
            elif op == 'm': src += '(hash-table-merge! h%d h%d)' % (t, 3 - t); m[t].update(m[3 - t])
        src += '(map (lambda (h) (cons (hash-table-size h) (map (lambda (k) (hash-table-ref/default h k #f)) (list 0 1 2)))) (list h1 h2))'
        yield src, V('(%s)' % ' '.join('(%d %s)' % (len(m[t]), ' '.join(str(m[t].get(k, '#f')) for k in (0, 1, 2))) for t in (1, 2)))
def g_grow():
    """growth: every size up to 40 from every initial size"""
    for n in range(0, 41):
        for size in (1, 2, 3, 7, 64):
            for step in (1, 7, -3):
                yield ('(let ((h (make-hash-table = modulo %d))) (do ((i 0 (+ i 1))) ((= i %d)) (hash-table-set! h (* %d i) i)) (do ((i 0 (+ i 3))) ((>= i %d)) (hash-table-delete! h (* %d i)))'
                       ' (list (hash-table-size h) (let loop ((i (- %d 1)) (r (quote ()))) (if (< i 0) r (loop (- i 1) (cons (hash-table-ref/default h (* %d i) #f) r))))))') % (size, n, step, n, step, n, step), \
                    V('(%d (%s))' % (n - len(range(0, n, 3)), ' '.join('#f' if i % 3 == 0 else str(i) for i in range(n))))
        al = ' '.join('(%d . %d)' % (i % 5, i) for i in range(n))
        yield "(let ((h (alist->hash-table '(%s)))) (list (hash-table-size h) (map (lambda (k) (hash-table-ref/default h k #f)) (list 0 1 2 3 4 5))))" % al, \
            V('(%d (%s))' % (min(n, 5), ' '.join(str(k) if k < n and k < 5 else '#f' for k in range(6))))
        for cmp in ('equal?', 'eqv?', '='):
            yield "(let ((h (alist->hash-table '(%s) %s))) (list (hash-table-size h) (length (hash-table-values h))))" % (al, cmp), V('(%d %d)' % (min(n, 5), min(n, 5)))
    yield "(let ((h (make-hash-table)) (l (quote ()))) (hash-table-set! h 1 2) (hash-table-set! h 3 4) (hash-table-walk h (lambda (k v) (set! l (cons (+ k v) l)))) (apply + l))", V('10')
    for bad in ('1', "'()", '(vector)', '(list 1)'):
        for op in ('(hash-table-ref %s 1)', '(hash-table-set! %s 1 2)', '(hash-table-size %s)', '(hash-table-delete! %s 1)', '(hash-table-keys %s)', '(hash-table-copy %s)', '(hash-table-walk %s list)'):
            yield op % bad, E()
        yield '(hash-table? %s)' % bad, V('#f')
    src = "(let ((h (make-hash-table eq?)) (p (list 1 2))) (hash-table-set! h p 5) (set-car! p 3) (hash-table-ref/default h p #f))"
    KEYS[src] = 'mutated-key-in-eq-table'
    yield src, V('5')
def g_hashf():
    vals = ['0', '1', '-1', '1000000007', '""', '"a"', '"A"', '"ab"', '"\u3042"', "'a", "'ab", '#\\a', '#\\A', '#f', '#t', "'()", '(list 1 2)', '(vector)', '(vector 1 "a")', '(vector (vector))', "(cons 'a \"b\")", '(if #f #f)']
    for v in vals:
        for b in (1, 2, 3, 7, 64, 1000):
            yield "(let ((a (hash %s %d)) (b (hash %s %d))) (list (eqv? a b) (<= 0 a) (< a %d)))" % (v, b, v, b, b), V('(#t #t #t)')
            yield "(let ((a (hash-by-identity %s %d))) (list (<= 0 a) (< a %d)))" % (v, b, b), V('(#t #t)')
            if v[0] == '"':
                yield "(let ((a (string-hash %s %d)) (b (string-ci-hash %s %d)) (c (string-ci-hash \"%s\" %d))) (list (<= 0 a) (< a %d) (<= 0 b) (< b %d) (= b c) (= a (string-hash (string-copy %s) %d))))" % (v, b, v, b, v[1:-1].swapcase(), b, b, b, v, b), V('(#t #t #t #t #t #t)')
            if v[0] == "'" and v != "'()":
                yield "(let ((a (symbol-hash %s %d))) (and (<= 0 a) (< a %d)))" % (v, b, b), V('#t')
        yield "(= (hash %s) (hash %s))" % (v, v), V('#t')
    # used as keys of every size
    for b in (1, 2, 64):
        for v in vals:
            yield "(let ((h (make-hash-table equal? hash %d))) (hash-table-set! h %s 5) (hash-table-ref/default h %s #f))" % (b, v, v), V('5')

# ----------------------------------------------------------------- sorting
def g_sort(n):
    for ks in itertools.product((1, 2, 3), repeat=n):
        el = list(zip(ks, range(n)))
        lst = "(list %s)" % ' '.join("(cons %d %d)" % e for e in el)
        def out(l): return '(%s)' % ' '.join('(%d . %d)' % e for e in l)
        for less, rev, key in (('(lambda (a b) (< (car a) (car b)))', False, ''), ('<', False, ' car'), ('>', True, ' car'), ('(lambda (a b) (> (car a) (car b)))', True, '')):
            s = sorted(el, key=lambda e: -e[0] if rev else e[0])
            yield "(let* ((l %s) (c (append l (quote ()))) (r (sort l %s%s))) (list r (equal? l c) (or (null? l) (not (eq? l r)))))" % (lst, less, key), V('(%s #t #t)' % out(s))
            yield "(let* ((l %s) (r (sort! l %s%s))) (list r (eq? l r)))" % (lst, less, key), V('(%s #t)' % out(s))
            yield "(sorted? %s %s%s)" % (lst, less, key), V('#t' if s == el else '#f')
        # every element is moved, none copied
        yield "(let* ((l %s) (c (append l (quote ()))) (r (sort l < car))) (let loop ((r r) (ok #t)) (if (null? r) ok (loop (cdr r) (and ok (memq (car r) c) #t)))))" % lst, V('#t')
        # an escape out of the comparison leaves everything usable
        yield "(let* ((l %s) (n 0) (r (call/cc (lambda (k) (sort l (lambda (a b) (set! n (+ n 1)) (if (= n 2) (k (quote esc)) (< (car a) (car b))))))))) (list (sort l < car) (length l)))" % lst, V('(%s %d)' % (out(sorted(el, key=lambda e: e[0])), n))
    yield "(sort (quote ()) <)", V('()')
    yield "(sorted? (quote ()) <)", V('#t')
    for bad in ('(sort)', '(sort (list 2 1))', '(sort (list 2 1) 5)', '(sort (list 2 #f) <)', '(sort 5 <)', '(merge (list 1) (list 2))', '(sort! (list 1 (quote a)) <)'): yield bad, E()
def g_merge(na):
    for ka in itertools.combinations_with_replacement((1, 2, 3), na):
        for nb in range(5):
            for kb in itertools.combinations_with_replacement((1, 2, 3), nb):
                a = [(k, i) for i, k in enumerate(ka)]; b = [(k, 10 + i) for i, k in enumerate(kb)]
                def src(l): return "(list %s)" % ' '.join("(cons %d %d)" % e for e in l)
                s = sorted(a + b, key=lambda e: e[0])
                def out(l): return '(%s)' % ' '.join('(%d . %d)' % e for e in l)
                for less, key in (('(lambda (a b) (< (car a) (car b)))', ''), ('<', ' car')):
                    yield "(let* ((a %s) (b %s) (r (merge a b %s%s))) (list r a b))" % (src(a), src(b), less, key), V('(%s %s %s)' % (out(s), out(a), out(b)))
                    yield "(let* ((a %s) (b %s)) (merge! a b %s%s))" % (src(a), src(b), less, key), V(out(s))

# ----------------------------------------------------------------- promises
# a body is a list of actions; its value is the counter afterwards
ACTS = ['inc', 'raise1', 'raise', 'self2', 'other', 'esc1', 'nested', 'list']
ASRC = {'inc': '(set! n (+ n 1))', 'raise1': '(if (< n 1) (begin (set! n (+ n 1)) (raise (quote r))))', 'raise': '(begin (set! n (+ n 1)) (raise (quote r)))',
        'self2': '(begin (set! n (+ n 1)) (if (< n 3) (force %s)))', 'other': '(set! n (+ n (* 10 (num (force %s)))))', 'esc1': '(if (< n 2) (begin (set! n (+ n 1)) (k (quote esc))))',
        'nested': '(set! n (+ n (force (delay (begin (set! n (+ n 1)) 2)))))', 'list': '(set! n (+ n 1000))'}
# what the body returns after the actions, as a function of the counter: any object may be the value of a promise
PSTYLE = {'n': ('n', lambda n: n), 'f': ("(if (odd? n) n #f)", lambda n: n if n % 2 else '#f'), 'g': ("(if (odd? n) #f n)", lambda n: '#f' if n % 2 else n),
          'o': ("(vector-ref (vector '() #f n (if #f #f) #t \"\" 'a) (modulo n 7))", lambda n: ['()', '#f', n, '#<undef>', '#t', '""', 'a'][n % 7])}
class _Exc(Exception): pass
class _Deep(Exception): pass
def g_promise(first, maxlen):
    bodies = [b for k in range(0, maxlen + 1) for b in itertools.product(ACTS, repeat=k)]
    mine = [b for i, b in enumerate(bodies) if i % 11 == first]
    for ba in mine:
        for bb in [b for b in bodies if len(b) <= 1] + [('other',), ('inc', 'other')]:
            for seq, style in itertools.product((('p', 'p'), ('p', 'q', 'p'), ('q', 'p', 'q')), PSTYLE):
                bsrc = {}
                for nm, ot, b in (('p', 'q', ba), ('q', 'p', bb)):
                    bsrc[nm] = '(begin %s %s)' % (' '.join(ASRC[a] % nm if a == 'self2' else ASRC[a] % ot if a == 'other' else ASRC[a] for a in b), PSTYLE[style][0])
                src = '(define (num x) (if (number? x) x 7))(define n 0)(define k #f)(define p (delay %s))(define q (delay %s))(define (f x) (guard (e (#t e)) (call/cc (lambda (c) (set! k c) (force x)))))' % (bsrc['p'], bsrc['q'])
                src += '(let* (%s) (list %s n))' % (' '.join('(r%d (f %s))' % (i, s) for i, s in enumerate(seq)), ' '.join('r%d' % i for i in range(len(seq))))
                # model
                S = {'n': 0, 'p': None, 'q': None, 'depth': 0}
                body = {'p': ba, 'q': bb}
                def force(x):
                    if S[x] is not None: return S[x]
                    S['depth'] += 1
                    if S['depth'] > 12: raise _Deep
                    try:
                        ot = 'q' if x == 'p' else 'p'
                        for a in body[x]:
                            if a == 'inc': S['n'] += 1
                            elif a == 'raise1':
                                if S['n'] < 1: S['n'] += 1; raise _Exc('r')
                            elif a == 'raise': S['n'] += 1; raise _Exc('r')
                            elif a == 'self2':
                                S['n'] += 1
                                if S['n'] < 3: force(x)
                            elif a == 'other':
                                n0 = S['n']     # operands left to right
                                r = force(ot); S['n'] = n0 + 10 * (r if isinstance(r, int) else 7)
                            elif a == 'esc1':
                                if S['n'] < 2: S['n'] += 1; raise _Exc('esc')
                            elif a == 'nested':
                                n0 = S['n']; S['n'] += 1; S['n'] = n0 + 2
                            else: S['n'] += 1000
                        v = PSTYLE[style][1](S['n'])
                    finally: S['depth'] -= 1
                    if S[x] is not None: return S[x]
                    S[x] = v
                    return v
                o = []
                try:
                    for x in seq:
                        try: o.append(str(force(x)))
                        except _Exc as e: o.append(e.args[0])
                except _Deep: continue
                if abs(S['n']) > 10 ** 15: continue
                yield src, V('(%s %d)' % (' '.join(o), S['n']))
    if first == 0:
        yield '(define count 0)(define p (delay (begin (set! count (+ count 1)) (if (> count x) count (force p)))))(define x 5)(list (force p) (begin (set! x 10) (force p)))', V('(6 6)')
        yield '(define s (delay (list 1)))(eq? (force s) (force s))', V('#t')
        yield '(define (ints n) (cons n (delay (ints (+ n 1)))))(define l (ints 0))(define (nth n l) (if (= n 0) (car l) (nth (- n 1) (force (cdr l)))))(list (nth 200 l) (nth 3 l))', V('(200 3)')
        for v in ('#f', "'()", '(if #f #f)', 'car', '(delay 1)', '"s"'):
            yield '(define n 0)(define p (delay (begin (set! n (+ n 1)) %s)))(let* ((a (force p)) (b (force p))) (list (eq? a b) n))' % v, V('(#t 1)')
        yield '(let ((x 1)) (let ((p (delay x))) (set! x 2) (let ((x 3)) (force p))))', V('2')
        for bad in ('(delay)', '(delay 1 2)', '(force)', '(force 1 2)', '(delay . 1)'): yield bad, E()

# ------------------------------------------------------- binding forms
CLAWS = ['(a (t 1 5))', '(a (t 2 #f))', '(b (t 3 (+ a 1)))', "((t 4 '()))", '((t 5 #f))', 'a', 'b', '(a (t 6 (list a)))', 'c', '((t 7 b))']
MALF = ['()', '(a)', '5', '(a 1 2)', '(5 5)', '"x"', '(a . 1)', '#f', '((t 8 1) 2)', '#t']
def g_andlet(first):
    def run(claws, body):
        env = {'c': False, 'a': 1, 'b': 2}; out = ''; v = True
        for c in claws:
            if c == '(a (t 1 5))': out += '1'; env['a'] = v = 5
            elif c == '(a (t 2 #f))': out += '2'; env['a'] = v = False
            elif c == '(b (t 3 (+ a 1)))':
                if type(env['a']) is not int: return out, None
                out += '3'; env['b'] = v = env['a'] + 1
            elif c == "((t 4 '()))": out += '4'; v = '()'
            elif c == '((t 5 #f))': out += '5'; v = False
            elif c in 'abc': v = env[c]
            elif c == '((t 7 b))': out += '7'; v = env['b']
            elif c == '(a (t 6 (list a)))': out += '6'; env['a'] = v = '(%s)' % sh(env['a'])
            if v is False: return out, '#f'
        if not body: return out, sh(v)
        return out + 'B', '(%s %s)' % (sh(env['a']), sh(env['b']))
    def sh(v): return '#t' if v is True else '#f' if v is False else str(v)
    for n in range(0, 4):
        for cs in itertools.product(CLAWS, repeat=n):
            if n and cs[0] != CLAWS[first] or not n and first: continue
            for body in (False, True):
                out, v = run(cs, body)
                src = '(let ((a 1) (b 2) (c #f)) (and-let* (%s)%s))' % (' '.join(cs), ' (t "B" 0) (list a b)' if body else '')
                yield src, V(v, out) if v is not None else E(out)
                if n == 2 and body:
                    # definitions in the body, and the outer variables are not touched
                    yield '(let ((a 1) (b 2) (c #f)) (and-let* (%s) (set! a 77) (set! b 78) 0) (list a b))' % ' '.join(cs), None if v is None else V(None, None)
    if first == 0:
        for m in MALF:
            for pre in ('', '(a (t 1 5)) '):
                if m in ('(a)',): continue      # (<expression>)
                if m == '#f' or m == '#t' or m == '5' or m == '"x"': yield '(let ((a 1)) (and-let* (%s%s) 1))' % (pre, m), E(None)
                elif m == '()': yield '(let ((a 1)) (and-let* (%s%s) 1))' % (pre, m), E(None)
                else: yield '(let ((a 1)) (and-let* (%s%s) 1))' % (pre, m), E(None)
        yield '(and-let* ((x 1)) (define y 2) (+ x y))', V('3')
        yield '(and-let* ((x 1) (y (+ x 1)) (x (* y 10))) (list x y))', V('(20 2)')
        yield '(let ((x 1)) (and-let* ((x 2)) (set! x 3)) x)', V('1')
        yield '(and-let* ((f (lambda () x)) (x 5)) 1)', V('1')
        for bad in ('(and-let*)', '(and-let* . 1)', '(and-let* 5 1)', '(and-let* (a . b) 1)'): yield bad, E(None)
def _strip(g):
    for r in g:
        if r[1] is not None and not (r[1].val is None and r[1].out is None and r[1].kinds == 'V'): yield r
_andlet = g_andlet
def g_andlet(first): return _strip(_andlet(first))

VARS = 'abc'
def g_receive():
    for nf in range(4):
        for rest in (False, True):
            names = list(VARS[:nf])
            formals = ('(%s%s)' % (' '.join(names), ' . r' if rest else '')) if nf else ('r' if rest else '()')
            for nv in range(5):
                for kind in range(3):
                    if kind == 0: ex = '(values %s)' % ' '.join(str(10 + i) for i in range(nv))
                    elif kind == 1:
                        if nv != 1: continue
                        ex = '10'
                    else: ex = '(call/cc (lambda (k) (k %s)))' % ' '.join(str(10 + i) for i in range(nv))
                    ok = nv >= nf if rest else nv == nf
                    src = '(receive %s %s (define z 5) (list %s%s z))' % (formals, ex, ' '.join(names), ' r' if rest else '')
                    vals = [str(10 + i) for i in range(nv)]
                    yield src, V('(%s)' % ' '.join(vals[:nf] + (['(%s)' % ' '.join(vals[nf:])] if rest else []) + ['5'])) if ok else E()
                    src = '(let ((a 1) (r 2)) (receive %s (begin (t "e" 0) %s) (t "b" (quote (q)))))' % (formals, ex)
                    yield src, V('(q)', 'eb') if ok else E('e')
                    if ok and nf: yield '(let ((a 1)) (receive %s %s (set! a 99)) a)' % (formals, ex), V('1')
    yield '(let ((a 5)) (receive (a b) (values a (+ a 1)) (list a b)))', V('(5 6)')
    yield '(let ((l (list 1 2 3))) (receive x (apply values l) (set-car! x 9)) l)', V('(1 2 3)')
    for bad in ('(receive)', '(receive (a))', '(receive (a) 1)', '(receive 5 1 1)', '(receive (5) 1 1)', '(receive (a . 5) 1 1)'): yield bad, E(None)

def g_letopt():
    specs = ['a', "(a 'A)", "(a (t 'd 7))"]
    for nb in range(4):
        for kinds in itertools.product(range(3), repeat=nb):
            binds = []
            for i, k in enumerate(kinds):
                v = VARS[i]
                if k == 0: binds.append(v)
                elif k == 1: binds.append("(%s '%s)" % (v, v.upper()))
                else: binds.append("(%s (t %d (list %s)))" % (v, i, ' '.join(VARS[:i])))
            for rest in (False, True):
                for na in range(6):
                    args = [str(10 + i) for i in range(na)]
                    bl = '(%s%s)' % (' '.join(binds), ' . r' if rest else '') if nb else ('r' if rest else '()')
                    src = "(let ((l (list %s))) (let-optionals* l %s (define z 5) (t 'B (list %s%s z))))" % (' '.join(args), bl, ' '.join(VARS[:nb]), ' r' if rest else '')
                    vals = []; out = ''
                    for i, k in enumerate(kinds):
                        if i < na: vals.append(args[i])
                        elif k == 0: vals.append('#<undef>')
                        elif k == 1: vals.append(VARS[i].upper())
                        else: out += str(i); vals.append('(%s)' % ' '.join(vals))
                    if rest: vals.append('(%s)' % ' '.join(args[nb:]))
                    yield src, V('(%s)' % ' '.join(vals + ['5']), out + 'B')
                    yield "(let ((l (list %s)) (a 0) (b 0)) (let-optionals* l %s %s 1) (list l a b))" % (' '.join(args), bl, ' '.join('(set! %s 99)' % v for v in VARS[:nb])), V('((%s) 0 0)' % ' '.join(args), None)
    yield '(define (f a . o) (let-optionals* o ((b (* a 2)) (c (+ a b)) . r) (list a b c r))) (list (f 1) (f 1 5) (f 1 5 6) (f 1 5 6 7 8))', V('((1 2 3 ()) (1 5 6 ()) (1 5 6 ()) (1 5 6 (7 8)))')
    for bad in ("(let-optionals* '() ())", "(let-optionals* (vector 0) () #t)", "(let-optionals* 5 args args)", "(let-optionals* '() (vector 0) #t)", "(let-optionals* '() (0) #t)", "(let-optionals* '(0 1 2) (a . 3) #t)", "(let-optionals* '() ((a)) #t)", "(let-optionals* '() ((a 1 2)) #t)", "(let-optionals*)", "(let-optionals* '(1))", "(let-optionals* '() ((5 1)) #t)"): yield bad, E(None)
