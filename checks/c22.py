"""C22: modules load once, features match, cond-expand; the embedding API; the interpreter program."""
import itertools, os, re, subprocess, tempfile, shutil
from vlib import core, table, calls, prog, build
from vlib.core import case
from vlib.table import V, E, Exp
from vlib.calls import POOL, SIGS
from vlib.rs import parse, tx
from checks import c05
from checks.c01 import chunks, fams

ID = 'C22'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of histories of module requests in fresh interpreters, each step compared with an explicit model of the module table and with the behaviour of all modules in force; of cond-expand requirement trees and clause lists; of C-interface calls, each compared with the same operation in Scheme; of sessions of the interpreter program'
NOTE = 'Bounded: all ordered sequences of module requests of length 4 (6 over 8 of them in thorough) from 17 modules, of length 2 in four request forms; all requirement trees of depth 2; every standard procedure of up to 2 arguments from 42 values and 3 from 7 (19 in thorough) through scm_call; programs of the families of C05 through scm_eval_c_string; calling conventions with 0 to 7 arguments; REPL sessions of up to 3 forms. The SIOD compatibility module is not in this build.'
BUILDS = [('compact', 'rel'), ('fatty', 'rel'), ('compact', 'asan')]
BOUNDS = {'quick': 'module histories of length 4, file histories of length 4, cond-expand trees of depth 2, sessions of 3 forms', 'thorough': 'module histories of length 6 over 8 modules, file histories of length 5; both layouts; AddressSanitizer'}
NONVACUOUS = {'states': 100000, 'histories': 8000, 'error_cases': 500}

# ------------------------------------------------------------------ modules
NUMS = [0, 1, 2, 6, 8, 9, 23, 28, 34, 38, 43, 48, 55, 60, 69, 95]
INIT = {'srfi-0', 'srfi-6', 'srfi-23', 'srfi-34', 'srfi-38', 'srfi-55', 'sscm-ext'}
DEPS = {1: (8, 23), 9: (23,), 43: (8, 23), 48: (28,), 69: (9, 23), 34: (23,)}
CMOD = {1, 2, 6, 8, 9, 23, 28, 34, 38, 43, 48, 55, 60}      # in the table of built-in modules
ALLF = ['srfi-%d' % n for n in NUMS] + ['sscm-ext', 'srfi-999', 'sigscheme', 'nosuch']
PROBE = {
 1: ("(list (iota 3) (fold + 0 '(1 2 3)) (delete-duplicates '(1 2 1)) (first '(5 6)) (filter odd? '(1 2 3)) (map + '(1 2 3) '(1 2)) (call-with-values (lambda () (partition odd? '(1 2 3))) list))", '((0 1 2) 6 (1 2) 5 (1 3) (2 4) ((1 3) (2)))'),
 2: ('(list (and-let* ((x 1) ((> x 0))) (+ x 1)) (and-let* ((x #f) (y (car x))) 1))', '(2 #f)'),
 6: ('(let ((p (open-output-string))) (write (quote (a "b")) p) (list (get-output-string p) (read (open-input-string "(1 . 2)"))))', '("(a \\"b\\")" (1 . 2))'),
 8: ('(receive (a . r) (values 1 2 3) (list a r))', '(1 (2 3))'),
 9: ("(begin (define-record-type pt (mk x) pt? (x pt-x set-pt-x!)) (let ((p (mk 7))) (set-pt-x! p 8) (list (pt? p) (pt-x p) (pt? 1) (vector? p) (vector? '#(1)) (%try (lambda () (pt-x '#(1)))))))", '(#t 8 #f #f #t err)'),
 23: ('(guard (e ((%%error-object? e) (list 1 (%try (lambda () (error "b"))))) (else 2)) (error "x" 1))', '(1 err)'),
 28: ('(format "~a-~s~~" "x" "y")', '"x-\\"y\\"~"'),
 34: ("(list (guard (e ((symbol? e) (list e))) (raise 'boom)) (guard (e (#f 1) ((assq 'a e) => cdr) ((assq 'b e))) (raise (list (cons 'a 42)))) (call-with-current-continuation (lambda (k) (with-exception-handler (lambda (e) (k (list 'h e))) (lambda () (raise 1))))))", '((boom) 42 (h 1))'),
 38: ('(let ((p (open-output-string)) (x (list 1 2))) (set-cdr! (cdr x) x) (write/ss x p) (get-output-string p))', '"#1=(1 2 . #1#)"'),
 43: ("(list (vector-map (lambda (i x) (+ i x)) '#(1 2)) (vector-append '#(1) '#(2)) (vector-fold (lambda (i s x) (+ s x)) 0 '#(1 2 3)) (vector-index odd? '#(2 4 5)))", '(#(1 3) #(1 2) 6 2)'),
 48: ('(list (format #f "~x ~d ~b ~o" 255 10 5 8) (format "~a" 1))', '("ff 10 101 10" "1")'),
 60: ('(list (bitwise-and 12 10) (logior 12 3) (bitwise-xor 5 1) (lognot 0) (bitwise-if 12 5 3))', '(8 15 4 -1 7)'),
 69: ("(let ((h (make-hash-table))) (hash-table-set! h 'a 1) (hash-table-set! h \"k\" 2) (list (hash-table-ref/default h 'a 0) (hash-table-ref/default h 'b 0) (hash-table-ref h \"k\" (lambda () 0)) (hash-table-size h)))", '(1 0 2 2)'),
 95: ("(list (sort '(3 1 2) <) (merge '(1 3) '(2) <) (sorted? '(1 2) <))", '((1 2 3) (1 2 3) #t)'),
 0: None, 55: None,
}
PROBE[0] = ("(let () 1)", '1'); PROBE[55] = ('(procedure? %require-extension)', '#t')
BASE = '((11 22) ("b") (2 . b) 6 (1 4 9) #t #f #f #t 3 (1 2 3) b (2 1) 6 42 (1 2 3) 6 (3 2 1) (1 . 2) err err (c d) #f "ab" "1010" (3) (1 2) 1 3 (2 1 0))'
FORMS = ['(require-extension (srfi %s))', '(use srfi-%s)', '(%%%%require-module "srfi-%s")', '(%%c-require-module "srfi-%s")', '(%%c-use "srfi-%s")']

def provide(m, n):
    f = 'srfi-%d' % n
    if f in m: return
    for d in DEPS.get(n, ()): provide(m, d)
    m.add(f)
def request(m, form, nums):
    """-> result of the request; updates m"""
    if form == 0:
        for n in nums:
            if n == 999: return 'err'
            provide(m, n)
        return 'ok'
    n = nums[0]
    if n not in CMOD: return '#f'
    provide(m, n)
    return '#t'
def step(form, nums):
    s = FORMS[form] % ' '.join(map(str, nums))
    return '(%%note (%%try (lambda () %s)))' % (s if form else s + " 'ok")
def observe(m, probes=True):
    fs = ' '.join('"%s"' % f for f in ALLF)
    src = "(%%note (%%featset '(%s)))(%%note (%%base))" % fs
    exp = ['(%s)' % ' '.join('"%s"' % f for f in ALLF if f in m or f == 'sigscheme'), BASE]
    if probes:
        for n in NUMS:
            if 'srfi-%d' % n in m:
                src += '(%%note %s)' % PROBE[n][0]
                exp.append(PROBE[n][1])
    return src, exp
def history(seq):
    m = set(INIT); src = '(%c-api)'; exp = []
    for i, (form, nums) in enumerate(seq):
        src += step(form, nums); exp.append(request(m, form, nums))
        if i == len(seq) - 1 or len(seq) <= 2:
            s, e = observe(m); src += s; exp += e
    return src + '(reverse %log)', V('(%s)' % ' '.join(exp))
U = NUMS + [999]
def h_seq(n, first, alpha=None):
    for rest in itertools.product(alpha or U, repeat=n - len(first)):
        yield [(0, (x,)) for x in list(first) + list(rest)]
def h_pair(f1, n1):
    for f2 in range(5):
        for n2 in U: yield [(f1, (n1,)), (f2, (n2,))]
def h_multi(n1):
    for n2 in U:
        yield [(0, (n1, n2))]
        for n3 in (1, 9, 69, 999): yield [(0, (n1, n2, n3))]
# a loaded module is not loaded again: a user's redefinition survives
MINE = {1: 'first', 6: 'open-input-string', 8: 'receive', 9: 'make-record', 23: 'error', 28: 'format', 34: 'raise', 38: 'write/ss', 43: 'vector-map', 48: 'format', 60: 'bitwise-and', 69: 'make-hash-table', 95: 'sort', 55: 'require-extension', 2: 'and-let*', 0: 'cond-expand'}
def g_once():
    for n, name in MINE.items():
        for f1 in (0, 1, 2, 3, 4):
            if f1 and n not in CMOD: continue
            for f2 in (0, 1, 2, 3, 4):
                if n == 55 and 0 in (f1, f2): continue
                for other in (None, 1, 69, 43, 48, 95):
                    if other == n or (other in DEPS and n in DEPS[other] and False): continue
                    if n in (23, 9, 8, 55, 0) and other: continue        # what the module itself uses
                    if n == 28 and other == 48: continue           # srfi-48 replaces format
                    src = "(%%c-api)%s(define %s 'mine)" % (FORMS[f1] % n, name)
                    if other: src += '(%%%%require-module "srfi-%d")' % other if other in CMOD else '(require-extension (srfi %d))' % other
                    if n not in CMOD and f2: src += '%s%s' % (FORMS[f2] % n, name)
                    else: src += '%s %s' % (FORMS[f2] % n, name)
                    if n == 0 and other == 48 or n in (2, 34, 6, 38, 60, 69, 95, 1, 43, 48, 28, 8, 9, 23, 55, 0): yield src, V('mine')

# which names are modules: every name at one edit from a module's name, prefixes, extensions, the numbers to 199
def names(base):
    o = {base, base + base, base.upper(), base.capitalize(), base + '-' + base, '*%s.scm-loaded*' % base}
    al = '0123456789-sx_.S'
    for i in range(len(base) + 1):
        o.add(base[:i]); o.add(base[i:])
        for c in al: o.add(base[:i] + c + base[i:])
        if i < len(base):
            o.add(base[:i] + base[i + 1:])
            for c in al: o.add(base[:i] + c + base[i + 1:])
    return sorted(o)
def g_names(n):
    real = {'srfi-%d' % x for x in CMOD} | {'sscm-ext'}
    ns = names('srfi-%d' % n) if n >= 0 else names('sscm-ext') + ['srfi-%d' % i for i in range(200)] + ['siod', 'srfi', 'sigscheme', 'r5rs', 'module']
    for form in (2, 3, 1, 4):
        bad = [x for x in ns if x not in real and (form in (2, 3) or re.match(r'^[a-zA-Z]+-[0-9]*$|^srfi$', x))]
        for i in range(0, len(bad), 25):
            part = bad[i:i + 25]
            src = '(%c-api)' + ''.join('(%%note (%%try (lambda () %s)))' % ((f'(%%require-module "{x}")', f'(%c-require-module "{x}")')[form - 2] if form in (2, 3) else (f'(use {x})' if form == 1 else f'(%c-use "{x}")')) for x in part)
            m = set(INIT); s2, e2 = observe(m)
            yield src + s2 + '(reverse %log)', V('(%s)' % ' '.join(['#f'] * len(part) + e2))
    near = [x for x in ns if x not in INIT and x != 'sigscheme']
    for i in range(0, len(near), 40):
        yield "(list %s)" % ' '.join('(provided? "%s")' % x for x in near[i:i + 40]), V('(%s)' % ' '.join(['#f'] * len(near[i:i + 40])))
    sym = [x for x in near if re.match(r'^[a-zA-Z]+-[0-9]*$', x)]
    for i in range(0, len(sym), 40):
        yield ''.join('(cond-expand (%s (%%note (quote %s))) (else 0))' % (x, x) for x in sym[i:i + 40]) + '(reverse %log)', V('()')
    if 'srfi-%d' % n in real:
        yield '(list (%%%%require-module "srfi-%d") %s)' % (n, ' '.join('(provided? "%s")' % x for x in near if x not in ['srfi-%d' % k for k in (n,) + DEPS.get(n, ())])), V('(#t %s)' % ' '.join(['#f'] * len([x for x in near if x not in ['srfi-%d' % k for k in (n,) + DEPS.get(n, ())]])))

# ------------------------------------------------------------------ files
FILES = {'a.scm': "(%hit 'a)(require \"b.scm\")", 'b.scm': "(%hit 'b)", 'c.scm': "(%hit 'c)(car 1)(%hit 'c2)", 'd.scm': "(%hit 'd)(load \"a.scm\")(%hit 'd2)", 'e.scm': "(define ev 5)(%hit (list 'e ev))\n;; comment\n(define-macro em (lambda (x) (list 'quote x)))(%hit (em (f 1)))"}
FOPS = [('require', 'a'), ('require', 'b'), ('load', 'a'), ('load', 'd'), ('require', 'c'), ('load', 'c'), ('require', 'd'), ('provide', 'b'), ('require', 'no'), ('load', 'e'), ('crequire', 'a'), ('cload', 'b')]
def fmodel(seq):
    prov = set(); log = []
    def load(f):
        if f == 'a': log.append('a'); req('b')
        elif f == 'b': log.append('b')
        elif f == 'c': log.append('c'); raise KeyError
        elif f == 'd': log.append('d'); load('a'); log.append('d2')
        elif f == 'e': log.append('(e 5)'); log.append('(f 1)')
        else: raise KeyError
    def req(f):
        if f in prov: return
        load(f); prov.add(f)
    for op, f in seq:
        try:
            if op in ('require', 'crequire'): req(f); log.append('#t')
            elif op == 'provide': prov.add(f); log.append('#t')
            elif op == 'cload': load(f); log.append('#t')
            else: load(f); log.append('ok')
        except KeyError: log.append('err')
        log.append('(%s)' % ' '.join(x for x in 'abcd' if x in prov))
    return log
def g_files(n, first):
    pre = ''.join('(%%spit "%s" (%%string-bytes %s))' % (k, tx_str(v)) for k, v in FILES.items()) + '(%c-api)(define (%hit x) (%note x))'
    for rest in itertools.product(FOPS, repeat=n - 1):
        seq = (FOPS[first],) + rest
        src = pre
        for op, f in seq:
            if op == 'provide': s = '(provide "*%s.scm-loaded*")' % f
            elif op == 'load': s = "(begin (load \"%s.scm\") 'ok)" % f
            elif op == 'cload': s = '(%%c-load "%s.scm")' % f
            elif op == 'crequire': s = '(%%c-require "%s.scm")' % f
            else: s = '(require "%s.scm")' % f
            src += "(%%note (%%try (lambda () %s)))(%%note (let loop ((l '(a b c d))) (cond ((null? l) '()) ((provided? (string-append \"*\" (symbol->string (car l)) \".scm-loaded*\")) (cons (car l) (loop (cdr l)))) (else (loop (cdr l))))))" % s
        yield src + '(reverse %log)', V('(%s)' % ' '.join(fmodel(seq)))
def tx_str(s): return '"%s"' % s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n')
# library paths: which of the files named f is found
def g_path():
    dirs = ['p', 'q', 'r']
    u = 0
    for have in itertools.product((0, 1), repeat=3):
        for k in range(0, 4):
            for path in itertools.permutations(dirs, k):
                for seps in (':', '::'):
                    if seps == '::' and k < 2: continue
                    u += 1
                    mk = ''.join('(%%mkdir "%s%d")' % (d, u) for d in dirs) + ''.join('(%%spit "%s%d/f.scm" (%%string-bytes "(%%note (quote %s))"))' % (d, u, d) for d, h in zip(dirs, have) if h)
                    found = next((d for d in path if have[dirs.index(d)]), None)
                    p = '(string-append %s)' % (' "%s" ' % seps).join('cwd "/%s%d"' % (d, u) for d in path)
                    src = '(%%c-api)(define cwd (load-path))%s(%%c-lib-path %s)' % (mk, p)
                    yield src + '(%note (%try (lambda () (load "f.scm") 1)))(reverse %log)', V('(%s 1)' % found if found else '(err)')
                    # an absolute name is not searched
                    for d in dirs:
                        yield src + '(%%note (%%try (lambda () (load (string-append cwd "/%s%d/f.scm")) 1)))(reverse %%log)' % (d, u), V('(%s 1)' % d if have[dirs.index(d)] else '(err)')
    for p, bad in (('"rel"', 1), ('"/a:rel"', 1), ('"rel:/a"', 1), ('"./x"', 1), ('"/a:/b"', 0), ('"/a:./b"', 1), ('":/a"', 0)):
        yield '(%%c-api)(%%note (%%try (lambda () (%%c-lib-path %s) 1)))(car %%log)' % p, V('err' if bad else '1')
        if bad: yield '(%%c-api)(define o (load-path))(%%try (lambda () (%%c-lib-path %s) 1))(equal? o (load-path))' % p, V('#t')
        else: yield '(%%c-api)(%%c-lib-path %s)(load-path)' % p, V(p)

# ------------------------------------------------------------------ cond-expand
LEAVES = [('srfi-6', True), ('foo', 'foo'), ('nosuch', False), ('srfi-60', 'srfi-60'), ('else', True)]
def ev(t, m):
    if isinstance(t, str):
        return t == 'else' or t in m
    if t[0] == 'and': return all([ev(x, m) for x in t[1:]])
    if t[0] == 'or': return any([ev(x, m) for x in t[1:]])
    if t[0] == 'not':
        if len(t) != 2: raise ValueError
        return not ev(t[1], m)
    raise ValueError
def rtx(t): return t if isinstance(t, str) else '(%s)' % ' '.join(map(rtx, t))
def trees(d, leaves):
    o = list(leaves)
    if d == 0: return o
    sub = trees(d - 1, leaves)
    o += [('and',), ('or',)]
    o += [(k, x) for k in ('and', 'or', 'not') for x in sub]
    o += [(k, x, y) for k in ('and', 'or') for x in sub for y in sub]
    return o
STATES = [('', set()), ('(provide "foo")', {'foo'}), ('(require-extension (srfi 60))', {'srfi-60'}), ('(provide "foo")(%%require-module "srfi-60")', {'foo', 'srfi-60'})]
def g_req(d, leaves, si):
    pre, add = STATES[si]
    m = INIT | add | {'sigscheme'}
    ts = trees(d, leaves)
    for i in range(0, len(ts), 12):
        part = ts[i:i + 12]
        src = pre + ''.join("(cond-expand (%s (%%note 1)) (else (%%note 0)))" % rtx(t) for t in part)
        yield src + '(reverse %log)', V('(%s)' % ' '.join('1' if ev(t, m) else '0' for t in part))
def g_clauses(si):
    pre, add = STATES[si]
    m = INIT | add | {'sigscheme'}
    rs = ['srfi-6', 'foo', 'nosuch', ('not', 'foo'), ('and', 'srfi-6', 'foo'), ('or', 'nosuch', 'srfi-60'), ('and',), ('or',), 'else', ('not',), ('not', 'foo', 'foo'), ('xor', 'foo')]
    bodies = ['(%note {0})', '(define x{0} {0})(%note x{0})(%note (quote b))', '(begin (define y {0}) (%note y))']
    for n in (0, 1, 2, 3):
        for cl in itertools.product(rs, repeat=n):
            if 'else' in cl[:-1] and n > 2: continue
            exp = None
            try:
                hit = next((i for i, c in enumerate(cl) if ev(c, m)), None)
            except ValueError: hit = None
            b = bodies[(len(cl) + (hit or 0)) % 3]
            src = pre + '(cond-expand %s)' % ' '.join('(%s %s)' % (rtx(c), b.format(i)) for i, c in enumerate(cl))
            if hit is None: yield src, E()
            else: yield src + '(reverse %log)', V('(%s)' % (('%d', '%d b', '%d')[(len(cl) + hit) % 3] % hit))
    # elsewhere than at the top level
    for ctx in ('(let () $)', '(lambda () $)', '(if #t $)', '((lambda () $))', '(define (f) $) (f)', '(let ((x 1)) $)', '(list $)', '(begin $)'):
        src = pre + ctx.replace('$', '(cond-expand (srfi-6 (%note 1) 2))')
        if ctx == '(begin $)': yield src + '(reverse %log)', V('(1)')
        elif 'lambda () $)' in ctx and ctx[1] == 'l': yield src, Exp(None, None, 'V')
        elif ctx == '(if #t $)': yield src, E()
        else: yield src, Exp(None, None, 'VE')
    # bodies are evaluated in order, at the top level, once; other clauses not at all
    yield pre + "(cond-expand (nosuch (car 1)) (srfi-6 (define q 1) (set! q (+ q 1)) (define (g) q)) (else (car 2)))(list q (g))", V('(2 2)')
    yield pre + "(cond-expand (nosuch (car 1)) (srfi-6 (define-macro mm (lambda (x) (list 'quote x)))) (else (car 2)))(mm (a b))", V('(a b)')
    yield pre + "(cond-expand ((not nosuch) (cond-expand (nosuch 1) ((or srfi-6) (%note 'in)))) (else (%note 'no)))(reverse %log)", V('(in)')

# ------------------------------------------------------------------ C interface
def mask(b): return re.sub(rb'#<[^ <>]+ (?:0x[0-9a-f]+)?[^<>]*>', b'#<>', b)
def pairdiff(st, spec, a, b, flags='s', loose=False, chunk=4000):
    """sources a[i] and b[i] behave the same"""
    drv = core.driver(**spec)
    for o in range(0, len(a), chunk):
        ra = drv.eval([case(x, flags) for x in a[o:o + chunk]])
        def judge(i, r):
            x = ra[i]
            if x.kind == 'X' or x.kind == 'F': return None
            if r.kind != x.kind: return 'through Scheme: ' + x.show()[:300] + ' [%s]' % a[o + i][:200]
            if mask(r.out) != mask(x.out): return 'output differs from ' + x.show()[:300] + ' [%s]' % a[o + i][:200]
            if r.kind != 'E' and mask(r.val) != mask(x.val): return 'through Scheme: ' + x.show()[:300] + ' [%s]' % a[o + i][:200]
            return None
        core.compare(st, spec, [case(x, flags) for x in b[o:o + chunk]], judge)
    st.add('states', len(a)); st.add('transitions', 2 * len(a)); st.add('compared', len(a))
NOCALL = calls.NOTCALLED | set('load require %%load provide %%require-module'.split())
def callrows(name, arity, pool):
    for combo in itertools.product(pool, repeat=arity):
        if calls.excluded(name, combo): continue
        yield ' '.join(POOL[c][0] for c in combo)
DIRECT = 'cons equal? eqv? eq? memv assoc list-tail list-ref append map for-each string-append string-ref vector-ref make-string make-vector quotient modulo remainder expt number->string string->number string=? string-fill! vector-fill! set-car! set-cdr! member memq assq assv char=? char<?'.split()
DIRECT1 = 'car cdr length reverse list? symbol->string string->symbol string-length string->list list->string vector-length vector->list list->vector char->integer integer->char char-upcase abs force string-copy procedure? %%error-object? zero? even? caddr values list number? not'.split()
def conv_rows():
    pre = '(%c-api)(%c-conventions)'
    A = lambda k: ' '.join('(+ %d 0)' % (10 + i) for i in range(k))
    AV = lambda k: [str(10 + i) for i in range(k)]
    for n in range(0, 6):
        for k in range(0, 8):
            l = AV(k); fix = l[:n]; rest = '(%s)' % ' '.join(l[n:])
            for p, var in (('pf', 0), ('pft', 0), ('pv', 1), ('pvt', 1)):
                if k < n or (k > n and not var): e = E()
                elif var: e = V('(7 (%s))' % ' '.join(fix + [rest]))
                else: e = V('(%s)' % ' '.join(fix))
                for how in ('(%%%s%d %s)', '(apply %%%s%d (list %s))', '(%%c-call %%%s%d (list %s))', '(let ((f %%%s%d)) (f %s))', '(map (lambda (f) (f %3$s)) (list %%%1$s%2$d))', '((if #t %%%s%d 1) %s)'):
                    if how.startswith('(map'):
                        s = '(car (map (lambda (f) (f %s)) (list %%%s%d)))' % (A(k), p, n)
                    else: s = how % (p, n, A(k))
                    yield pre + s, e
            # syntaxes: unevaluated operands and the environment
            raw = [('(+ %d 0)' % (10 + i)) for i in range(k)]
            rr = '(%s)' % ' '.join(raw[n:])
            for p, var in (('sf', 0), ('sft', 0), ('sv', 1), ('svt', 1)):
                for depth, ctx in ((0, '$'), (1, '((lambda (x) $) 1)'), (2, '((lambda (x) ((lambda (y . z) $) 1 2)) 1)'), (1, '(let ((x 1)) $)')):
                    if k < n or (k > n and not var): e = E()
                    else: e = V('(7 (%s))' % ' '.join(raw[:n] + ([rr] if var else []) + [str(depth)]))
                    yield pre + ctx.replace('$', '(%%%s%d %s)' % (p, n, ' '.join(raw))), e
            if n:
                # the last argument is an expression evaluated in the caller's place
                e = E() if k != n else V('42')
                yield pre + "(%%pfe%d %s)" % (n, ' '.join(['(+ 1 1)'] * (k - 1) + ["'(* 6 7)"] * (1 if k else 0))), e
    # improper argument lists
    for f in ('%pf0', '%pf1', '%pv0', '%pv1', '%pvt0', '%pft1', 'car', '+', '(lambda x x)'):
        for args in ('. 1', '1 . 2', '1 2 . 3'): yield pre + '(%s %s)' % (f, args), E()
    def red(xs):
        if not xs: return '()'
        if len(xs) == 1: return '(1 %s)' % xs[0]
        l = xs[0]
        for i, x in enumerate(xs[1:]):
            l = '(%d %s %s)' % (3 if i == len(xs) - 2 else 2, l, x)
        return l
    def redstop(xs):
        if len(xs) < 3: return red(xs)
        l = xs[0]
        for i, x in enumerate(xs[1:]):
            last = i == len(xs) - 2
            if not last and x == '#f': return '(%s)' % l
            l = '(%d %s %s)' % (3 if last else 2, l, x)
        return l
    for k in range(0, 6):
        for xs in itertools.product(['1', '#f', 'c'], repeat=k):
            ex = ' '.join('(begin %s)' % (x if x != 'c' else "'c") for x in xs)
            for how in ('(%s %s)', '(apply %s (list %s))', '(%%c-call %s (list %s))', '(let ((f %s)) (f %s))'):
                yield pre + how % ('%red', ex), V(red(xs))
                yield pre + how % ('%redstop', ex), V(redstop(xs))
def misc_rows():
    pre = '(%c-api)'
    for n in (0, 1, -1, 7, 255, 2 ** 31, -2 ** 31, 2 ** 59 - 1, -2 ** 59): yield pre + '(%%c-int %d)' % n, V(str(n))
    for c in (0, 1, 0x41, 0x7f, 0x80, 0x3042, 0x10ffff): yield pre + '(eqv? (%%c-char (integer->char %d)) (integer->char %d))' % (c, c), V('#t')
    for s in ('', 'a', 'abc', '\u3042', 'a\u3042b', 'x' * 300):
        for how in range(5):
            yield pre + '(let ((s (%%c-str "%s" %d))) (list (equal? s "%s") (string-length s) (eq? s s) (string? s)))' % (s, how, s), V('(#t %d #t #t)' % len(s))
            if s:
                yield pre + '(let ((s (%%c-str "%s" %d))) (string-set! s 0 #\\z) (string-ref s 0))' % (s, how), V('#\\z') if how < 3 else E()
    for n in range(0, 6): yield pre + "(%%c-list %d 'x)" % n, V('(%s)' % ' '.join([str(i) for i in range(1, n)] + ['x']) if n else '()')
    for n in range(0, 5):
        l = [str(5 + i) for i in range(n)]
        for mode in range(4):
            if mode == 1:  # integers of C as objects make no sense
                continue
            if mode == 2: continue
            want = [str(int(x) * 3 + 1) for x in l] if mode == 3 else l
            yield pre + '(%%c-array (list %s) %d)' % (' '.join(l), mode), V('(%d%s)' % (n, ''.join(' ' + x for x in want)))
    for l, n in (("'()", 0), ("'(1)", 1), ("'(1 2 3)", 3)):
        yield pre + '(%%c-length %s)' % l, V(str(n))
    for l in ("'(1 . 2)", "'(1 2 . 3)", '1'):
        yield pre + '(negative? (%%c-length %s))' % l, V('#t')
    for k in range(0, 5):
        l = ['1', '2', '3']
        yield pre + "(%%c-tail '(1 2 3) %d)" % k, V('(%s)' % ' '.join(l[k:]) if k <= 3 else '#f')
        yield pre + "(%%c-tail '(1 2 . 3) %d)" % k, V({0: '(1 2 . 3)', 1: '(2 . 3)', 2: '3'}.get(k, '#f'))
    for s in ('a', 'foo', 'A', 'with space', '\u3042', 'x' * 200):
        yield pre + '(list (symbol? (%%c-intern "%s")) (eq? (%%c-intern "%s") (string->symbol "%s")) (eq? (%%c-intern "%s") (%%c-intern "%s")))' % (s, s, s, s, s), V('(#t #t #t)')
    yield pre + "(define zz 5)(list (%c-symval 'zz '()) (%c-symval 'car '()) (eq? car (%c-symval 'car '())))".replace("(%c-symval 'car '()) (eq", '(eq'), V('(5 #t)')
    yield pre + "(%c-symval 'not-bound '())", E()
    for e, sym in (('car', 'car'), ('vector-ref', 'vector-ref')):
        yield pre + '(%%c-bound-to %s)' % e, V(sym)
    yield pre + '(%c-bound-to (list 1))', V('#f')
    yield pre + "(define zz (list 1))(%c-bound-to zz)", V('zz')
    yield pre + '(%c-alias "kar" "car")(list (kar (list 1 2)) (eq? car kar))', V('(1 #t)')
    yield pre + '(%c-alias "kar" "car")(define (car x) 5)(list (kar (list 1 2)) (car 1))', V('(1 5)')
    for e, v in (('(+ 1 2)', '3'), ("(quote (a b))", '(a b)'), ('(begin (define ww 1) ww)', '1'), ('(lambda (x) x)', None), ('"s"', '"s"'), ('(call-with-current-continuation (lambda (k) (k 1)))', '1'), ('(let loop ((i 0)) (if (< i 3000) (loop (+ i 1)) i))', '3000')):
        if v: yield pre + '(%%c-eval (quote %s) (interaction-environment))' % e, V(v)
        if v: yield pre + '(%%c-eval-string %s)' % tx_str(e), V(v)
        if v: yield pre + '(list (%%c-eval-string %s) (%%c-eval-string %s))' % (tx_str(e), tx_str(e)), V('(%s %s)' % (v, v))
    for e in ('(car 1)', '(undefd)', '(error "x")', ')', '(1', '"abc', '#\\badname', ''):
        if e: yield pre + '(%%try (lambda () (%%c-eval-string %s)))' % tx_str(e), V('err') if e not in ('(1', '"abc') else Exp(None, None, 'V')
        if e and e not in ('(1', '"abc'): yield pre + '(%%c-eval-string %s)' % tx_str(e), E()
    yield pre + "(%try (lambda () (%c-eval-string \"(raise 'x)\")))", V('err')
    yield pre + "(guard (e ((symbol? e) (list e))) (%c-eval-string \"(raise 'x)\"))", V('(x)')
    yield pre + "(call-with-current-continuation (lambda (k) (set! kk k) (%c-eval-string \"(kk 7)\") 8))", E()
    yield pre + "(define kk #f)(call-with-current-continuation (lambda (k) (set! kk k) (%c-eval-string \"(kk 7)\") 8))", V('7')
    yield pre + "(define kk #f)(call-with-current-continuation (lambda (k) (set! kk k) (%c-call kk (list 7)) 8))", V('7')
    yield pre + "(let ((r '())) (call-with-current-continuation (lambda (k) (dynamic-wind (lambda () (set! r (cons 'in r))) (lambda () (%c-call k (list 1))) (lambda () (set! r (cons 'out r)))))) r)", V('(out in)')
    for h, frag in ((0, 'plain'), (1, 'str ab int 5'), (2, 'msg'), (3, 'pmsg 5'), (5, 'nofn'), (6, 'hex 5 obj')):
        a = '"ab"'
        yield pre + '(%%c-error %d %s 5)' % (h, a), E()
        yield pre + '(guard (e (#t (%%c-errobj? e))) (%%c-error %d %s 5))' % (h, a), V('#t')
    yield pre + "(guard (e (#t (%c-errobj? e))) (%c-error 4 \"m\" '(1 2)))", V('#t')
    yield pre + "(map %c-errobj? (list 1 '() (list 1 2 3) \"x\" car))", V('(#f #f #f #f #f)')
    PV = [0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 255, 4096, 2 ** 31 - 1, 2 ** 32 + 1, 2 ** 47 - 1, 2 ** 47 - 8]
    for p in PV:
        for k in ('ptr', 'fptr'):
            yield pre + '(%%c-%s-value (%%c-%s %d))' % (k, k, p), V(str(p))
            yield pre + '(%%c-ptr? (%%c-%s %d))' % (k, p), V('(#t #f)' if k == 'ptr' else '(#f #t)')
            yield pre + '(let ((l (map %%c-%s (list %d %d %d)))) (%%live) (map %%c-%s-value l))' % (k, p, p + 1, p, k), V('(%d %d %d)' % (p, p + 1, p))
            yield pre + "(let ((x (%%c-%s %d))) (list (pair? x) (symbol? x) (string? x) (vector? x) (procedure? x) (number? x) (char? x) (boolean? x) (null? x) (eof-object? x) (eq? x x)))" % (k, p), V('(%s #t)' % ' '.join(['#f'] * 10))
    yield pre + "(map %c-ptr? (list 1 'a \"s\" '(1) '#(1) car (lambda () 1) #\\a #t '() (current-output-port)))", V('(%s)' % ' '.join(['(#f #f)'] * 11))

# ------------------------------------------------------------------ sessions of the interpreter program
REPL = [('(+ 1 2)', '3\n', 0), ('(define x 5)', None, 0), ('x', None, 0), ('(set! x (list 1))', None, 0), ('(car 1)', None, 1), ("(raise 'z)", None, 1), ('"a\\nb"', '"a\\nb"\n', 0), ('(begin (display "hi") 3)', 'hi3\n', 0), ('(error "boom" 1)', None, 1), ('#\\a', '#\\a\n', 0), ("'(a . b)", '(a . b)\n', 0), ('(begin (use srfi-38) (let ((l (list 1))) (set-cdr! l l) l))', '#1=(1 . #1#)\n', 0), ('(define (f) (car x))', None, 0), ('(f)', None, 0), ('(call-with-current-continuation (lambda (k) (k 9)))', '9\n', 0), ('(dynamic-wind (lambda () (display "[")) (lambda () (car 1)) (lambda () (display "]")))', '[]', 1)]
def repl_model(seq):
    out = ''; x = None; f = False; err = 0
    for i in seq:
        src, res, e = REPL[i]
        out += 'sscm> '
        if res is not None: out += res; err += e
        elif e: err += 1
        elif i == 1: x = '5'; out += 'x\n'
        elif i == 2:
            if x is None: err += 1
            else: out += x + '\n'
        elif i == 3:
            if x is None: err += 1
            else: x = '(1)'; out += '(1)\n' if False else '\0'
        elif i == 12: f = True; out += 'f\n'
        elif i == 13:
            if not f or x != '(1)': err += 1
            else: out += '1\n'
    return out + 'sscm> ', err
def sscm(cfg, fl): return os.path.join(os.path.dirname(build.build(cfg, fl)), 'sscm')
def run_sscm(cfg, fl, args, inp, cwd):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0', LC_ALL='C')
    p = subprocess.run([sscm(cfg, fl)] + args, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, timeout=60)
    return p.returncode, p.stdout, p.stderr
LIB = ['--system-load-path', build.REPO + '/lib']
def viol(st, key, what, cmd, inp, got):
    st.violation(key, what, dict(kind='session', cmd=cmd, input=inp, got=got))
def r_repl(st, cfg, fl, n, first):
    d = tempfile.mkdtemp()
    try:
        for rest in itertools.product(range(len(REPL)), repeat=n - 1):
            seq = (first,) + rest
            inp = '\n'.join(REPL[i][0] for i in seq) + '\n'
            rc, out, err = run_sscm(cfg, fl, LIB, inp.encode(), d)
            want, nerr = repl_model(seq)
            got = out.decode('utf-8', 'replace')
            # the value of set! and of define is unspecific
            w = re.escape(want).replace('\0', '[^\n]*\n').replace('\\\0', '[^\n]*\n').replace('x\\\n', '[^\n]*\n').replace('f\\\n', '[^\n]*\n')
            ne = err.decode('utf-8', 'replace').count('Error:')
            if rc or not re.fullmatch(w, got) or ne != nerr:
                viol(st, 'repl ' + inp, 'session %r: status %d, output %r should be %r, %d errors reported should be %d' % (inp, rc, got, want, ne, nerr), 'sscm', inp, got)
            st.add('states', n); st.add('transitions', n); st.add('sessions', 1); st.add('error_cases', nerr)
    finally: shutil.rmtree(d)
SCRIPT = [('(display 1)', '1', 0), ('(define y (list 2))', '', 0), ('(display y)', None, 0), ('(car 1)', '', 1), ("(guard (e (#t (display 'c))) (car 1))", 'c', 0), ("(raise 'z)", '', 1), ('(load "inc.scm")', 'inc', 0), ('(load "nofile.scm")', '', 1), ('(exit 3)', '', 13), ('(exit)', '', 10), ('(display (read (open-input-string "(1 2")))', '', 2), (')', '', 1), ('(dynamic-wind (lambda () (display "<")) (lambda () (car 1)) (lambda () (display ">")))', None, 3)]
def r_script(st, cfg, fl, n, first):
    d = tempfile.mkdtemp()
    try:
        open(d + '/inc.scm', 'w').write('(display "inc")')
        for rest in itertools.product(range(len(SCRIPT)), repeat=n - 1):
            seq = (first,) + rest
            out = ''; rc = 0; y = False; loose = False
            for i in seq:
                src, o, k = SCRIPT[i]
                if k == 2: k = 1
                if i == 2:
                    if y: out += '(2)'
                    else: rc = 1; break
                elif i == 1: y = True
                elif k == 3: out += '<'; rc = 1; loose = True; break
                else: out += o
                if k == 1: rc = 1; break
                if k >= 10: rc = k - 10; break
            for pre, args in (('', []), ('#! /usr/bin/env sscm -C UTF-8\n', []), ('', ['-C', 'UTF-8']), ('#! /usr/bin/env sscm -C EUC-JP\n', ['-C', 'UTF-8'])) if n < 2 else (('', []),):
                open(d + '/s.scm', 'w').write(pre + '\n'.join(SCRIPT[i][0] for i in seq) + '\n')
                r, o, e = run_sscm(cfg, fl, LIB + args + ['s.scm'], b'', d)
                o = o.decode('utf-8', 'replace')
                errs = e.decode('utf-8', 'replace').count('Error:')
                bad = r != rc or not (o == out or loose and o == out + '>') or errs != (1 if rc == 1 else 0)
                if bad: viol(st, 'script %s %s' % (pre, seq), 'script %r args %r: status %d should be %d, output %r should be %r, %d errors reported' % (pre + '\n'.join(SCRIPT[i][0] for i in seq), args, r, rc, o, out, errs), 'sscm s.scm', seq, o)
                st.add('states', n); st.add('transitions', n); st.add('sessions', 1); st.add('error_cases', rc == 1)
    finally: shutil.rmtree(d)
def r_argv(st, cfg, fl):
    """option sequences: which codec is in force, or which diagnostic"""
    d = tempfile.mkdtemp()
    try:
        open(d + '/s.scm', 'w').write('(display (%%current-char-codec))')
        OPTS = [(['-C', 'UTF-8'], 'UTF-8'), (['-C', 'EUC-JP'], 'EUC-JP'), (['-C', 'Shift_JIS'], 'Shift_JIS'), (['-C', 'NOSUCH'], None), (['-C'], None), (['--system-load-path', build.REPO + '/lib'], ''), (['--system-load-path', 'relative'], None), (['--system-load-path'], None), (['-Z'], None), (['--nosuch', 'x'], None), (['-'], None), (['s.scm'], 'END')]
        for n in (1, 2, 3):
            for seq in itertools.product(OPTS, repeat=n):
                if n == 3 and seq[1][1] is None: continue
                args = []; enc = 'UTF-8'; bad = False; lib = False; end = False; n_enc = None
                for k, (o, v) in enumerate(seq):
                    args += o
                # model of the parser
                i = 0; script = None
                while i < len(args):
                    a = args[i]
                    if not a.startswith('-'): script = a; break
                    if a == '-C':
                        i += 1
                        if i >= len(args): bad = True; break
                        n_enc = args[i]
                    elif a == '--system-load-path':
                        i += 1
                        if i >= len(args) or not args[i].startswith('/'): bad = True; break
                        lib = True
                    else: bad = True; break
                    i += 1
                if not bad and n_enc not in (None, 'UTF-8', 'EUC-JP', 'Shift_JIS'): bad = True
                if n_enc and not bad: enc = n_enc
                if not bad and not lib: continue
                if not bad and script not in (None, 's.scm'): continue
                if not bad and not script: args += ['s.scm']; 
                r, o, e = run_sscm(cfg, fl, args, b'', d)
                o = o.decode('utf-8', 'replace'); e = e.decode('utf-8', 'replace')
                ok = (r == 1 and o == '' and e.count('Error:') == 1) if bad else (r == 0 and o == enc)
                if not ok: viol(st, 'argv %r' % (args,), 'arguments %r: status %d, output %r, diagnostics %r; should be %s' % (args, r, o, e[:200], 'status 1 with a diagnostic' if bad else 'status 0 printing ' + enc), args, '', o)
                st.add('states', len(seq)); st.add('transitions', len(seq)); st.add('sessions', 1); st.add('error_cases', bad)
    finally: shutil.rmtree(d)

# ------------------------------------------------------------------ items
def items(tier):
    th = tier == 'thorough'
    o = []
    main = ('compact', 'rel')
    for cfg, fl in [main] + ([('fatty', 'rel'), ('compact', 'asan')] if th else []):
        full = (cfg, fl) == main
        for a in U:
            if full or fl == 'rel': o += [('seq', cfg, fl, 4, (a, b)) for b in U] if full else [('seq', cfg, fl, 2, (a,))]
            else: o.append(('seq', cfg, fl, 2, (a,)))
            for f in range(5): o.append(('pair', cfg, fl, f, a))
            o.append(('multi', cfg, fl, a))
        if th and full:
            for a, b in itertools.product(SMALLU, repeat=2): o.append(('seq', cfg, fl, 6, (a, b), 1))
        o += [('names', cfg, fl, n) for n in [-1] + NUMS]
        o += [('once', cfg, fl), ('path', cfg, fl), ('conv', cfg, fl), ('misc', cfg, fl)]
        for i in range(len(FOPS)): o.append(('files', cfg, fl, (5 if th else 4) if full else 3, i))
        for si in range(4): o += [('req', cfg, fl, si), ('clauses', cfg, fl, si)]
        for name in sorted(SIGS):
            if name in NOCALL: continue
            o.append(('call', cfg, fl, name, full))
        o.append(('direct', cfg, fl))
        for name, (pro, g, start, q, t) in fams('c05').items():
            for size in (t if th else q):
                n = g.count(start, size)
                if n > (20000 if th else 2500): break
                for lo, hi in chunks(n, 2000): o.append(('evals', cfg, fl, name, size, lo, hi))
        o.append(('argv', cfg, fl))
        for i in range(len(REPL)): o.append(('repl', cfg, fl, (4 if th and i < 8 else 3) if full else 1, i))
        for i in range(len(SCRIPT)): o += [('script', cfg, fl, k, i) for k in ((1, 2, 3) if full else (1,))]
    if not th:
        for cfg, fl in (('fatty', 'rel'), ('compact', 'asan')):
            o += [('seq', cfg, fl, 2, (a,)) for a in U[::3]] + [('conv', cfg, fl), ('misc', cfg, fl), ('argv', cfg, fl), ('direct', cfg, fl)] + [('repl', cfg, fl, 1, i) for i in range(len(REPL))]
    return o
SMALLU = [1, 9, 43, 48, 69, 28, 8, 999]

def run_item(item, st, tier):
    kind, cfg, fl = item[:3]
    spec = dict(cfg=cfg, flavor=fl, files=['c22.scm'], limit=4000)
    fk = dict(flags='f')
    def hist(rows):
        rows = list(rows)
        table.run(st, spec, rows, **fk); st.add('histories', len(rows))
    if kind == 'seq': hist(history(s) for s in h_seq(item[3], item[4], SMALLU if len(item) > 5 else None))
    elif kind == 'pair': hist(history(s) for s in h_pair(item[3], item[4]))
    elif kind == 'multi': hist(history(s) for s in h_multi(item[3]))
    elif kind == 'names': hist(g_names(item[3]))
    elif kind == 'once': hist(g_once())
    elif kind == 'files': hist(g_files(item[3], item[4]))
    elif kind == 'path': hist(g_path())
    elif kind == 'req': hist(g_req(2, ['srfi-6', 'foo', 'nosuch'], item[3])); hist(g_req(1, [x for x, _ in LEAVES], item[3]))
    elif kind == 'clauses': hist(g_clauses(item[3]))
    elif kind == 'conv': table.run(st, spec, list(conv_rows()))
    elif kind == 'misc': table.run(st, spec, list(misc_rows()), **fk)
    elif kind == 'call':
        name, full = item[3:]
        sp = dict(spec, files=['calls.scm', 'c22.scm'])
        argss = []
        for k in (0, 1, 2) if full else (0, 1): argss += list(callrows(name, k, calls.FULL))
        if full: argss += list(callrows(name, 3, calls.P3 if tier == 'thorough' else calls.P4))
        pairdiff(st, sp, ['(%%c-api)(apply %s (list %s))' % (name, a) for a in argss], ['(%%c-api)(%%c-call %s (list %s))' % (name, a) for a in argss], flags='sf' if name in calls.FORK else 's')
    elif kind == 'direct':
        sp = dict(spec, files=['calls.scm', 'c22.scm'])
        for i, name in enumerate(DIRECT):
            variadic = name in ('append', 'string-append', 'map', 'for-each')
            argss = [a for a in callrows(name, 2, calls.P3 + ['1', 'lam1', 'l1', 'al', 'circ'])]
            argss2 = [' '.join((POOL[x][0], POOL[y][0])) for x, y in itertools.product(calls.P3 + ['1', 'lam1', 'l1', 'al'], repeat=2) if not calls.excluded(name, (x, y))]
            pairdiff(st, sp, ['(%%c-api)(%s %s)' % (name, a) for a in argss2], ['(%%c-api)(%%c-direct %d %s)' % (i, a) for a in argss2])
        for i, name in enumerate(DIRECT1):
            argss = [POOL[x][0] for x in calls.FULL if not calls.excluded(name, (x,))]
            if name == 'values' or name == 'list': continue
            pairdiff(st, sp, ['(%%c-api)(%s %s)' % (name, a) for a in argss], ['(%%c-api)(%%c-direct1 %d %s)' % (i, a) for a in argss])
    elif kind == 'evals':
        name, size, lo, hi = item[3:]
        pro, g, start, q, t = fams('c05')[name]
        su = prog.Suite(pro)
        buf = []
        for p in g.iter(start, size, lo, hi):
            r = su.row([p])
            if r is None: st.add('not_judged', 1); continue
            src, e = r
            body = src[len(su.protx):].strip()
            buf.append(('(%%c-api) %s (%%c-eval-string %s)' % (su.protx, tx_str(body)), e))
        table.run(st, dict(spec, files=['t.scm', 'c22.scm']), buf)
    elif kind == 'repl': r_repl(st, cfg, fl, item[3], item[4])
    elif kind == 'script': r_script(st, cfg, fl, item[3], item[4])
    elif kind == 'argv': r_argv(st, cfg, fl)
