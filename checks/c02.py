"""C02: garbage is reclaimed."""
import itertools, re
from vlib import core, calls, direct
from vlib.rs import tx
from vlib.calls import POOL, SIGS, FULL, P3, P4
from checks import c01, c07
from checks.c01 import chunks, fams, HOLD, MG, MODS, MODFILE, NAMES

ID = 'C02'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of operations (all error sources in all contexts, all calls of the table of C08, the grammars of C01 and C05-C07, C18, reader texts cut at every place, port and load operations) and of interpreter histories: each operation is repeated from its own end state until the abstract state (live cells, malloced blocks and bytes, open files, heap cells) recurs, which makes the explored cycle hold for any number of repetitions; long runs in one fixed heap; initialize-run-finalize histories of the C interface with every word sequence up to a length'
NOTE = 'Bounded: the operations listed. An operation is accused only when each of three equal spans of repetitions adds at least one cell, block, byte or file per repetition; slower leaks are not seen. Operations that store into global ports grow live data by design and are not counted.'
BUILDS = [('compact', 'rel'), ('fatty', 'rel'), ('compact', 'asan')]
BOUNDS = {'quick': '205 error sources x 60 contexts; calls of arity up to 2 over 55 values and 3 over 19; holder programs of size 2; corpora up to 12000 programs per size; 26574 reader texts; 41 programs x 20000 repetitions in a small heap; all valid words of 6 protection operations over 15; all sequences of 3 out of 15 sessions',
          'thorough': 'the same in all builds; corpora up to 20000 per size'}
NONVACUOUS = {'states': 60000, 'repetitions': 2000000}
N = 10

def q(s): return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'
ROW = re.compile(rb'^\(\((-?\d+ ?){5}\) \((-?\d+ ?){5}\) \((-?\d+ ?){5}\)\)$')
WHAT = ['live cells', 'malloced blocks', 'open files', 'malloced bytes', 'heap cells']
def judge(r, n=N):
    if r.kind in 'SX': return 'crash'
    if r.kind != 'V' or not ROW.match(r.val): return None
    v = [int(x) for x in re.findall(rb'-?\d+', r.val)]
    for j in range(5):
        w = (v[j], v[5 + j], v[10 + j])
        if min(w) >= n * (8 if j == 3 else 1): return '%s grow with every repetition (by %d, %d, %d in %d repetitions each)' % ((WHAT[j],) + w + (n,))
def repeat(st, spec, srcs, flags='w'):
    """the stack is scanned conservatively: stale words may keep objects for a
    while, so growth counts only if eight times as many repetitions show it too"""
    st.add('states', len(srcs)); st.add('transitions', len(srcs) * (4 + 3 * N)); st.add('repetitions', len(srcs) * (4 + 3 * N))
    d = core.driver(**spec)
    sus = []
    for o in range(0, len(srcs), 4000):
        if len(d.history) > 8000: d.close()
        part = srcs[o:o + 4000]
        for s, r in zip(part, d.eval([core.case('(%%leak %s %d)' % (q(s), N), flags) for s in part])):
            if r.kind != 'V' or not ROW.match(r.val): st.add('not_judged')
            if judge(r): sus.append(s)
    st.add('traces_validated_against_impl', len(srcs))
    if sus:
        st.add('examined_again', len(sus))
        core.compare(st, spec, [core.case('(%%leak %s %d)' % (q(s), 8 * N), flags + 'L') for s in sus[:40]], lambda i, r: judge(r, 8 * N))

# ---- reader texts
LONG = ['a' * 1500, '\u3042' * 700, '1' * 1300]
def texts():
    o = []
    for t in ['"a\\"b\\x41;c"', '#(1 #(2 "s") #\\space)', '(a (b . c) \'d `(e ,f ,@g) . h)', ';c\n#| x |# y', '#\\newline', '+5 -x 1+ #xFF ...', '"\\n\\t\\\\"', '|a b|', "'#()", '#t#f', '#;1 2', '(1 . 2 3)', '(. 1)', '( . )', '#\\foo', '#\\xD800', '"\\xZ"', '"\\q"', '#q', ')', ']', '[1]', '{', '#(1 . 2)', 'a"b"', "(')", '#e1.5', '12abc', '99999999999999999999', '#b2', ',', ',@', '`', "'"]:
        for k in range(len(t) + 1):
            o.append(t[:k])
            for x in '")(\\#.;x ': o.append(t[:k] + x + t[k:]); o.append(t[:k] + x)
    L = []
    for w in LONG:
        for pre in ('', '(', '"', '#\\', "'", '#(', ';', '("x" ', '#x', '(a . ', '"\\n', '|', ','):
            for post in ('', '"', ')', '\\', '\\q"', '"x', ' . ', '#', '\x01', '\\x', '\\x110000;', "'", '\n', '"\x01'): L.append(pre + w + post)
    return list(dict.fromkeys(o)), L
OPS = '''(open-input-file "f.scm") (open-output-file "f.out") (call-with-input-file "f.scm" read) (call-with-input-file "f.scm" (lambda (p) (car 1))) (call-with-output-file "f.out" (lambda (p) (write 1 p) (car 1))) (call/cc (lambda (k) (call-with-output-file "f.out" (lambda (p) (k 1)))))
(with-input-from-file "f.scm" read) (with-input-from-file "f.scm" (lambda () (car 1))) (call/cc (lambda (k) (with-input-from-file "f.scm" (lambda () (k 1))))) (with-output-to-file "f.out" (lambda () (write 1))) (with-output-to-file "f.out" (lambda () (car 1))) (call/cc (lambda (k) (with-output-to-file "f.out" (lambda () (k 1)))))
(load "f.scm") (load "bad.scm") (load "err.scm") (load "esc.scm") (load "none.scm") (load 1) (call/cc (lambda (k) (set! %k k) (load "esc.scm"))) (let ((p (open-input-file "f.scm"))) (close-input-port p) (close-input-port p)) (let ((p (open-output-file "f.out"))) (write 1 p) (close-output-port p) (write 1 p))
(close-input-port (open-input-file "f.scm")) (let ((p (open-input-file "f.scm"))) (read p) (read p) (read p) (read p)) (open-input-file "none") (open-output-file "no-dir/x") (file-exists? "f.scm") (delete-file "none") (file-length "f.scm")
(open-input-string "abc") (open-output-string) (let ((p (open-output-string))) (write (make-string 5000 #\\a) p) (get-output-string p)) (let ((p (open-input-string (make-string 5000 #\\a)))) (read p)) (read-line (open-input-string (make-string 5000 #\\a))) (read-line (open-input-string (string #\\a)))
(read-string 3 (open-input-string "abcd")) (read-string 5000 (open-input-string "abcd")) (with-char-codec "UTF-8" (lambda () 1)) (with-char-codec "nope" (lambda () 1)) (with-char-codec "EUC-JP" (lambda () (car 1))) (call/cc (lambda (k) (with-char-codec "ISO-8859-1" (lambda () (k 1)))))
(require "none") (use none) (require-extension (srfi 999)) (require-extension (srfi 8)) (use srfi-34) (provided? "srfi-34") (provide "c02-feature") (require "f.scm") (%%require-module "none") (%%require-module "srfi-8") (%%current-environment) (string->symbol "c02-sym") (symbol->string (quote abc)) (string->symbol (make-string 2000 #\\s))
(eval (quote (define c02-x (list 1))) (interaction-environment)) (eval (read (open-input-string "(lambda (x) (if x 1 2))")) (interaction-environment)) (define-macro (c02-m x) (list (quote list) x)) (c02-m 1) (define (c02-f x) (lambda (y) (list x y))) ((c02-f 1) 2) (delay (list 1)) (force (delay (list 1))) (let loop ((i 0)) (if (< i 100) (loop (+ i 1))))
(call/cc (lambda (k) k)) (call/cc (lambda (k) (set! %k k))) (%k 1) (dynamic-wind list (lambda () (call/cc (lambda (k) (set! %k k)))) list) (call/cc (lambda (k) (dynamic-wind list (lambda () (k 1)) list))) (call/cc (lambda (k) (dynamic-wind list (lambda () (car 1)) (lambda () (k 2))))) (guard (e (#t e)) (dynamic-wind list (lambda () (raise 1)) (lambda () (raise 2)))) (values 1 2) (call-with-values (lambda () (values 1 2 3)) list) (call/cc (lambda (k) (with-exception-handler (lambda (e) (k e)) (lambda () (raise 1)))))
(with-exception-handler (lambda (e) 1) (lambda () (raise 1))) (with-exception-handler (lambda (e) (raise 2)) (lambda () (raise 1))) (error "x" (make-vector 1000 1)) (raise (make-string 1000 #\\a)) (exit-not-bound) (make-vector 10000 0) (make-string 10000 #\\a) (vector-fill! (make-vector 10) (list 1)) (string-append (make-string 100 #\\a) (make-string 100 #\\b)) (list->string (string->list (make-string 100 #\\a))) (number->string 123) (let ((s (make-string 10 #\\a))) (string-set! s 0 (integer->char 12354)) (string-set! s 0 #\\a) (string-fill! s (integer->char 12354)) s)
(let ((l (list 1))) (set-cdr! l l) l) (let ((v (make-vector 2))) (vector-set! v 0 v) (list v)) (letrec ((f (lambda () f))) f) (let ((p (open-output-string))) (write/ss (let ((l (list 1 2))) (set-cdr! (cdr l) l) l) p)) (let ((h (list 1))) (write/ss (list h h (vector h))))
(format "~a" 1) (format #f "~a ~s" 1) (format "~q" 1) (format 1 2) (string-split "a b" " ") (length+ (quote (1 2))) (eval 1 (quote ())) (eval (quote (car 1)) (list (cons (quote (a)) (list 1)))) (let () (define a 1) (define b 2) (set! a b) a) `(1 ,(list 2) ,@(list 3)) `#(1 ,@(list 2 3) ,(car 1)) `(1 ,@2 3) (case-not-bound 1) (let-optionals* (list 1) ((a 2) (b 3)) (list a b)) (let-optionals* 5 ((a 2)) a) (stream-not-bound) (%%set-current-input-port! (open-input-string "x"))'''
MOPS = {69: '(hash-table-set! (make-hash-table) 1 2) (let ((h (make-hash-table equal?))) (hash-table-set! h (list 1) 2) (hash-table-delete! h (list 1)) (hash-table->alist h)) (hash-table-update! (make-hash-table) 1 car) (hash-table-ref (make-hash-table) 1) (hash-table-walk (alist->hash-table (list (cons 1 2))) (lambda (k v) (car 1)))',
        1: '(fold cons (list) (list 1 2)) (reduce + 0 (list 1 2)) (filter car (list 1)) (delete 1 (list 1 2)) (iota 100) (list-tabulate 5 car) (circular-list 1 2) (delete-duplicates (list 1 1 2)) (append! (list 1) (list 2)) (reverse! (list 1 2))',
        43: '(vector-map + (vector 1 2)) (vector-append (vector 1) (vector 2)) (subvector (vector 1 2) 0 1) (vector-copy (vector 1 2)) (vector-unfold list 3) (vector-grow (vector 1) 3) (reverse-vector->list (vector 1 2))',
        48: '(format "~a ~b ~5,3f ~c" 1 2 3) (format #t "~a" 1) (format "~8a" 1) (format "~h") (format "~?" "~a" (list 1)) (format "~a")',
        60: '(logand 1 3) (bit-count 1) (integer->list 5) (booleans->integer #t #f) (copy-bit 1 2 #t)', 95: '(sort (list 3 1 2) <) (sort (vector 3 1 2) <) (sort! (list 3 1) <) (merge (list 1) (list 2) <) (sort (list 1 (quote a)) <)',
        9: '(define-record-type c02r (c02mk a b) c02r? (a c02a c02a!)) (c02mk 1 2) (c02a! (c02mk 1 2) 5) (c02a 1) (c02a (c02mk 1 2))', 38: '(write/ss (let ((l (list 1))) (set-cdr! l l) l)) (read (open-input-string "#0=(1 . #0#)")) (write-with-shared-structure (list 1))'}
def split(s):
    from vlib import reader, model
    reader.UNICODE = True
    o = []; i = 0
    while True:
        while i < len(s) and s[i] in ' \n': i += 1
        x, j = reader.read(s, i, (-(1 << 59), (1 << 59) - 1))
        if x is model.EOF: return o
        o.append(s[i:j].strip()); i = j
FILES = {'f.scm': '(define c02-y (list 1 2)) "str" #(1 2)\n', 'bad.scm': '(define c02-z (list 1 2)) (car "x" ', 'err.scm': '(define c02-z (list 1 2)) (car 1) (define c02-z 3)', 'esc.scm': '(define c02-z (list 1 2)) (%k 1) (define c02-z 3)'}
def setup(): return ''.join('(%%spit "%s" (quote (%s)))' % (n, ' '.join(str(b) for b in t.encode())) for n, t in FILES.items())

# ---- long runs in one heap
LONGRUN = ['(list i i i)', '(string-append "abc" (number->string i))', '(make-vector 10 i)', '(make-string 20 #\\a)', '(call/cc (lambda (k) (list (k i))))', '(guard (e (#t e)) (raise (list i)))', '(guard (e (#t e)) (car i))', '(let ((l (list i))) (set-cdr! l l) l)', '(delay (list i))', '(force (delay (list i)))', '(let ((p (open-output-string))) (write (list i "a") p) (get-output-string p))', '(let ((p (open-input-string "(a #(b c) \\"s\\")"))) (read p))', '(eval (list (quote lambda) (list) (list (quote quote) (list i))) (interaction-environment))', '(dynamic-wind list (lambda () (list i)) list)', '(vector-map-not-bound)', '(string->symbol "long-run-symbol")', '(string->symbol (string-append "lr" (number->string (modulo i 50))))', '(call-with-values (lambda () (values (list i) i)) list)', '`(1 ,i ,@(list i i) #(,i))', '(map (lambda (x) (+ x i)) (list 1 2 3))', '(apply list i (list 1 2))', '(begin (set! keep (list i)) (vector-set! kv (modulo i 10) (list keep i)))', '(with-exception-handler (lambda (e) 1) (lambda () (list i)))', '(let loop ((j 0) (a (list))) (if (< j 10) (loop (+ j 1) (cons j a)) a))', '(define (inner x) (lambda () (list x i)))', '(letrec ((f (lambda (n) (if (= n 0) (list) (cons n (f (- n 1))))))) (f 20))', '(do ((j 0 (+ j 1)) (v (make-vector 5 0))) ((= j 5) v) (vector-set! v j (list j)))', '(load "f.scm")', '(call-with-input-file "f.scm" read)', '(let ((h (lambda a a))) (h i i i i))', '(begin (define-macro (lr x) (list (quote list) x x)) (lr i))', '(let ((s (string-copy "abc"))) (string-set! s 0 (integer->char (+ 65 (modulo i 26)))) (string->list s))', '(read (open-input-string "(1 . ) "))', '(%%current-environment)', '(let* ((a (list i)) (b (delay (cons a i)))) (set-car! a b) (force b))', '(list->vector (vector->list (vector i (list i))))', '(write/ss-not-bound)', '(call/cc (lambda (k) (dynamic-wind list (lambda () (for-each (lambda (x) (k (list x))) (list i 2))) list)))', '(guard (e ((string? e) 1) (else (list e))) (guard (f ((pair? f) (raise (cdr f)))) (raise (cons 1 i))))', '(string-append (make-string 500 #\\a) "b")', '(make-vector 300 (list i))']

# ---- sessions of the C interface between initialization and finalization
def E(s): return 'e:' + s.encode().hex()
BODIES = ['', 'a0 p0 x r0', 'a0 p0 d0 x u0 x', 'q0 a1 c w01 u0', 's ' + E('(car 1)'), 's ' + E('(define x (list 1 2)) (set! car cdr) (define-macro (m x) x) (car x)') + ' ' + E('(m (car (list 1 2)))'), 's ' + E('(call/cc (lambda (k) (set! kk k) 1))') + ' ' + E('(define kk #f) (call/cc (lambda (k) (set! kk k))) (list 1 2)'),
          's ' + E('(require-extension (srfi 1 48 69)) (list (format #f "~a" 1) (hash-table? (make-hash-table)))'), 's ' + E('(provide "sess") (list (provided? "sess") (provided? "other-sess"))') + ' ' + E('(string->symbol "session symbol")'), 's ' + E('(%%set-current-input-port! (open-input-string "abc")) (read-char)') + ' ' + E('(read)'),
          's ' + E('(guard (e (#t (raise (list e)))) (raise 1))') + ' ' + E('(guard (e (#f 1)) (raise 2))') + ' ' + E('(provided? "sess")'), 's ' + E('(with-char-codec "EUC-JP" (lambda () (car 1)))') + ' ' + E('(string->list "\u3042")'), 's ' + E('(define v (make-vector 3000 (list 1))) (vector-length v)') + ' x ' + E('(car (vector-ref v 5))'), 's ' + E('(open-output-file "sess.out") (call-with-input-file "none" read)') + ' ' + E('kk') + ' ' + E('(vector? (vector))'), 's x ' + E('(use srfi-38) (use srfi-34) (write/ss (let ((l (list 1))) (set-cdr! l l) l)) (delay (list 1))') + ' ' + E('(read (open-input-string "(1 . ")')]

def items(tier):
    th = tier == 'thorough'
    o = [('words', cfg, fl, 6 if th or (cfg, fl) == ('compact', 'rel') else 5, f) for cfg, fl in BUILDS for f in ('a0', 'a1', 'q0')] + [('words', cfg, fl, d, None) for cfg, fl in BUILDS for d in (1, 2, 3, 4)]
    o += [('sessions', cfg, fl, p, 12) for cfg, fl in BUILDS for p in range(12)]
    for cfg, fl in BUILDS:
        o += [('ops', cfg, fl), ('texts', cfg, fl, 0), ('texts', cfg, fl, 1), ('texts', cfg, fl, 2)]
        o += [('mops', cfg, fl, m) for m in sorted(MOPS)]
        for i in range(len(LONGRUN)): o.append(('long', cfg, fl, i))
        k = 1 if th or (cfg, fl) == ('compact', 'rel') else 6
        for i in range(0, len(c07.CTX), k): o.append(('err', cfg, fl, i))
        n = HOLD.count('S', 1)
        if th or fl == 'rel':
            for lo, hi in chunks(n, 200): o.append(('hold', cfg, fl, 1, lo, hi))
        if th or (cfg, fl) == ('compact', 'rel'):
            for lo, hi in chunks(HOLD.count('S', 2), 400): o.append(('hold', cfg, fl, 2, lo, hi))
        for m, (pro, g) in enumerate(MG):
            for lo, hi in chunks(g.count('S', 0), 100): o.append(('mod', cfg, fl, m, 0, lo, hi))
        if fl == 'rel' or th:
            for mod in ('c05', 'c06', 'c07', 'c18'):
                for name, (pro, g, start, qz, t) in fams(mod).items():
                    if name == 'quote': continue      # redefines the global names this check uses
                    for size in qz:
                        n = g.count(start, size)
                        if n > (20000 if th else 12000 if cfg == 'compact' else 2500): break
                        for lo, hi in chunks(n, 500): o.append(('corp', cfg, fl, mod, name, size, lo, hi))
        for i in range(len(NAMES)):
            if NAMES[i] in calls.FORK: continue
            o.append(('calls', cfg, fl, i, 3 if th or (cfg, fl) == ('compact', 'rel') else 1 if fl == 'asan' else 2))
    return o

def run_item(item, st, tier):
    kind, cfg, fl = item[:3]
    th = tier == 'thorough'
    spec = dict(cfg=cfg, flavor=fl, files=['leak.scm'], heap=4096, heaps_max=64, limit=4000)
    if kind == 'ops':
        spec['files'] = ['leak.scm', 'c02.scm']
        repeat(st, spec, split(OPS))
    elif kind == 'mops':
        spec['files'] = ['leak.scm', 'm-srfi-%d.scm' % item[3]]
        repeat(st, spec, split(MOPS[item[3]]))
    elif kind == 'texts':
        a, L = texts()
        if item[3] == 0: repeat(st, spec, ['(read (open-input-string %s))' % q(t) for t in a + L])
        elif item[3] == 1: repeat(st, spec, ["(quote %s" % t for t in a + L])
        else: repeat(st, spec, ['(let ((p (open-input-string %s))) (guard (e (#t 1)) (read-char p)) (guard (e (#t 1)) (read p)) (read-line p))' % q(t) for t in a + L])
    elif kind == 'long':
        spec.update(files=['c02.scm'], heap=2500, heaps_max=4 if 1 else 1, threshold=200, limit=60000)
        n = 20000 if fl == 'rel' else 5000
        if 'load' in LONGRUN[item[3]] or 'f.scm' in LONGRUN[item[3]]: n //= 8
        src = '(define keep #f) (define kv (make-vector 10 0)) (let loop ((i 0)) (if (< i %d) (begin (guard (e (#t #f)) %s) (loop (+ i 1))) (quote done)))' % (n, LONGRUN[item[3]])
        core.compare(st, spec, [core.case(src)], lambda i, r: None if r.kind == 'V' and r.val == b'done' else 'a loop with bounded live data ends with ' + r.show()[:300])
        st.add('states'); st.add('repetitions', n); st.add('transitions', n)
    elif kind == 'err':
        srcs = c07.sources() + list(c07.RAISES)
        spec['files'] = ['t.scm', 'leak.scm']
        repeat(st, spec, [c07.CTX[item[3]].replace('$X', x) for x in srcs if '%%fail' not in x])
    elif kind == 'hold':
        size, lo, hi = item[3:]
        spec['files'] = ['gc.scm', 'leak.scm']
        repeat(st, spec, [tx(p) for p in HOLD.iter('S', size, lo, hi)])
    elif kind == 'mod':
        m, size, lo, hi = item[3:]
        pro, g = MG[m]
        spec['files'] = ['gc.scm', 'm-%s.scm' % MODFILE[m], 'leak.scm']
        repeat(st, spec, [(pro + ' ' if m == 0 else '') + tx(p) for p in g.iter('S', size, lo, hi)])
    elif kind == 'corp':
        mod, name, size, lo, hi = item[3:]
        pro, g, start, qz, t = fams(mod)[name]
        spec['files'] = ['rows.scm', 't.scm', 'leak.scm']; spec['limit'] = 100
        repeat(st, spec, [pro + ' ' + tx(p) for p in g.iter(start, size, lo, hi)])
    elif kind == 'calls':
        i, depth = item[3:]
        name = NAMES[i]
        args, nreq, rest, total = SIGS[name]
        mx = len(args) + 1 if rest is None else 4
        ts = []
        for n in range(0, min(mx, depth) + 1):
            for t in itertools.product({0: [], 1: FULL, 2: P3, 3: P4}[n], repeat=n):
                if calls.excluded(name, t): continue
                if any('huge' in x for x in [POOL[x][1] for x in t]) and name in ('make-string', 'make-vector'): continue
                ts.append(t)
        spec['files'] = ['calls.scm', 'leak.scm']
        for o in range(0, len(ts), 2000):
            repeat(st, spec, ['(%s%s)' % (name, ''.join(' ' + POOL[x][0] for x in t)) for t in ts[o:o + 2000]])
    elif kind == 'words':
        depth, first = item[3:]
        lines, exp = [], []
        for t, e in direct.words(depth, first):
            lines.append(' '.join(['N'] + t + direct.RESET + ['l'])); exp.append(' '.join(e + ['l0', '.']))
        st.add('states', len(lines)); st.add('transitions', len(lines) * depth)
        direct.compare(st, dict(cfg=cfg, flavor=fl), lines, lambda i, r: None if r == exp[i] else 'expected ' + exp[i])
    elif kind == 'sessions':
        part, parts = item[3:]
        bodies = BODIES
        sp = dict(cfg=cfg, flavor=fl)
        alone = direct.run(sp, ['!i N %s l z' % b for b in bodies])
        want = []
        for b, r in zip(bodies, alone):
            if not r.endswith(' 0,0 .'): st.violation('session ' + b[:50], 'session "%s" does not release everything: %s' % (b, r), dict(spec=sp, direct=['!i N %s l z' % b], got=r))
            want.append(r[:-2])
        seqs = [x for n in ((2, 3) if th or fl == 'rel' else (2,)) for x in itertools.product(range(len(bodies)), repeat=n)][part::parts]
        lines = ['!' + ' '.join('i N %s l z' % bodies[j] for j in x) for x in seqs]
        exp = [' '.join(want[j] for j in x) + ' .' for x in seqs]
        st.add('states', len(lines)); st.add('transitions', sum(map(len, seqs)))
        direct.compare(st, sp, lines, lambda i, r: None if r == exp[i] else 'in separate processes: ' + exp[i])
