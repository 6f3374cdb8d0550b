"""C16: ports, redirection and load."""
import itertools
from vlib import core, table, reader, model
from vlib.table import V, E, Exp
from vlib.model import Sym, Char, EOF, wr, ls_, Str, Vec, ls, Pair, NIL
from checks.c12 import raw, dec, REPS

ID = 'C16'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of operation histories on string and file ports, of redirection nests with every way of leaving them, and of loaded files, on the real code against a reference model'
NOTE = 'Bounded: every history of 5 input operations over every text of up to 3 pieces (4 in the thorough tier), every interleaving of 4 operations on two ports, every sequence of up to 3 output operations, in all six codecs; every redirection nest of depth 2 with every exit; every file of up to 3 forms with 16 kinds of script preludes. char-ready? is exercised on string ports only (it is documented as not working on file ports). After a read error or an invalid character nothing more is required of that port.'
BUILDS = [('compact', 'rel'), ('fatty', 'rel'), ('compact', 'asan')]
CODECS = ['UTF-8', 'EUC-JP', 'EUC-CN', 'EUC-KR', 'Shift_JIS', 'ISO-8859-1']
BOUNDS = {'quick': 'texts of <= 3 pieces x 5 operations; <= 3 output operations; nests of depth 2; files of <= 2 forms',
          'thorough': 'texts of <= 4 pieces x 5 operations, 3 pieces x 6; <= 4 output operations; files of <= 3 forms; both layouts, AddressSanitizer'}
NONVACUOUS = {'states': 200000, 'multibyte': 20000}

def encs(codec, s):
    o = b''
    for c in s:
        r = raw(codec, ord(c))
        if r is None: return None
        o += r
    return o
def bl(b): return '(' + ' '.join(map(str, b)) + ')'
def asrc(codec, s):
    """source text of the case (bytes in the codec)"""
    b = encs(codec, s)
    assert b is not None, s
    return b

def pieces(codec):
    m = [chr(c) for c in REPS[codec] if c > 0x7f and not 0xd800 <= c <= 0xdfff and c < 0x110000]
    if codec == 'UTF-8': m = ['\u03bb', '\u3042', '\U0001f600']
    else: m = [m[0], m[-1]]
    return ['a', ' ', '(', ')', '"', '\n', ';', '\0' if 0 else '1'] + m[:3]

def run_ops(s, ops, lim, uni, pos=0):
    """-> list of results, final"""
    reader.UNICODE = uni
    st = {0: pos, 1: pos}
    o = []
    for op in ops:
        which, op = op if isinstance(op, tuple) else (0, op)
        t = s[which] if isinstance(s, tuple) else s
        i = st[which]
        if op in 'rp':
            if i >= len(t): o.append(Sym('eof'))
            else:
                o.append(Char(t[i]))
                if op == 'r': st[which] = i + 1
        elif op == 'c': o.append(True)
        else:
            try: x, i = reader.read(t, i, lim)
            except reader.RErr:
                o.append(Sym('err')); return o
            st[which] = i
            o.append(Sym('eof') if x is EOF else x)
    return o

def opsrc(ops): return '(' + ' '.join('(%d . %s)' % o if isinstance(o, tuple) else o for o in ops) + ')'

class Rows:
    """rows whose source is ASCII and whose result is compared in the codec"""
    def __init__(self, st, spec, codec):
        self.st = st; self.spec = spec; self.codec = codec; self.cases = []; self.exp = []
    def add(self, src, exp, kind='V', out=''):
        """exp: str in characters of the codec, or None for any value"""
        self.cases.append(core.case(src, 'w'))
        self.exp.append((kind, None if exp is None else encs(self.codec, exp), None if out is None else encs(self.codec, out)))
        if len(self.cases) >= 20000: self.flush()
    def flush(self):
        if not self.cases: return
        ex = self.exp
        def judge(i, r):
            k, v, out = ex[i]
            if r.kind not in k or (r.kind == 'V' and v is not None and r.val != v) or (out is not None and r.out != out):
                return 'should be %s %s%s' % (k, core.txt(v), ' with output %r' % core.txt(out) if out else '')
        core.compare(self.st, self.spec, self.cases, judge)
        n = len(self.cases)
        self.st.add('states', n); self.st.add('transitions', n)
        k = n // 2
        self.st.sample('%s => %s' % (core.txt(self.cases[k][0])[:160], core.txt(ex[k][1])[:100]), 1)
        self.cases = []; self.exp = []

def items(tier):
    o = []
    th = tier == 'thorough'
    for c in CODECS:
        ports = ['s', 'f']
        cfgs = [('compact', 'rel')] + ([('fatty', 'rel'), ('compact', 'asan')] if th else [])
        for cfg, fl in cfgs:
            for p in ports:
                for k in range(11):
                    if k >= len(pieces(c)): continue
                    if c == 'UTF-8': o.append(('in', cfg, fl, c, p, k, 4 if th and fl == 'rel' else 3, 5))
                    else: o.append(('in', cfg, fl, c, p, k, 3 if th else 2, 5))
            o.append(('inw', cfg, fl, c))
            o.append(('in2', cfg, fl, c))
            for p in 'sfcw': o.append(('out', cfg, fl, c, p, 3 if c == 'UTF-8' or th else 2))
            o.append(('out2', cfg, fl, c))
        o.append(('in', 'fatty', 'rel', c, 's', -1, 2, 5)); o.append(('in', 'compact', 'asan', c, 'f', -1, 2, 4))
        o.append(('in', 'compact', 'asan', c, 's', -1, 2, 4))
        o.append(('big', 'compact', 'rel', c))
        o.append(('mixed', 'compact', 'rel', c))
    for cfg, fl in (('compact', 'rel'), ('fatty', 'rel'), ('compact', 'asan')):
        o += [('nest', cfg, fl, k) for k in range(6)] + [('closed', cfg, fl), ('prelude', cfg, fl), ('mutate', cfg, fl)]
        o += [('load', cfg, fl, k, 3 if th and fl == 'rel' else 2) for k in range(4)]
    return o

def run_item(item, st, tier):
    kind, cfg, fl = item[:3]
    lim = (-2 ** 63, 2 ** 63 - 1) if cfg == 'fatty' else (-2 ** 59, 2 ** 59 - 1)
    codec = item[3] if len(item) > 3 and item[3] in CODECS else 'UTF-8'
    uni = codec == 'UTF-8'
    spec = dict(cfg=cfg, flavor=fl, enc=None if uni else codec, files=['rows.scm', 'port.scm'])
    R = Rows(st, spec, codec)
    if kind == 'in':
        _, _, _, _, p, k, n, depth = item
        ps = pieces(codec)
        ops = 'rpR' + ('c' if p == 's' else '')
        hist = list(itertools.product(ops, repeat=depth))
        texts = [t for m in range(0, n + 1) for t in itertools.product(ps, repeat=m)]
        if k >= 0:
            texts = [t for t in texts if (t[0] if t else ps[0]) == ps[k]]
        if n > 2 or k < 0: hist = [h for h in hist if h.count('c') <= 1]
        for t in texts:
            s = ''.join(t)
            b = encs(codec, s)
            if any(ord(c) > 127 for c in s): st.add('multibyte', len(hist))
            for h in hist:
                R.add("(%%in-%s '%s '%s)" % (p, bl(b), opsrc(h)), wr(ls_(run_ops(s, h, lim, uni))))
    elif kind == 'inw':
        ps = pieces(codec)
        for n in range(0, 3):
            for t in itertools.product(ps, repeat=n):
                s = ''.join(t); b = encs(codec, s)
                for h in itertools.product('rpR', repeat=4):
                    e = wr(ls_(run_ops(s, h, lim, uni)))
                    R.add("(%%in-w '%s '%s)" % (bl(b), opsrc(h)), e)
                    R.add("(%%in-c '%s '%s)" % (bl(b), opsrc(h)), e)
    elif kind == 'in2':
        ps = pieces(codec)
        mb = ps[-1]
        hist = list(itertools.product(itertools.product((0, 1), 'rpR'), repeat=4))
        for s1, s2 in (('ab', 'cd'), (mb + 'a', 'b' + mb), (mb * 2, mb + ps[-2]), ('(a)b', mb), ('', 'a' + mb), ('a\n' + mb, '')):
            for h in hist:
                R.add("(%%in-2 '%s '%s '%s)" % (bl(encs(codec, s1)), bl(encs(codec, s2)), opsrc(h)), wr(ls_(run_ops((s1, s2), h, lim, uni))))
                if s1 != 'ab':
                    R.add("(%%in-ff '%s '%s)" % (bl(encs(codec, s1 + s2)), opsrc(h)), wr(ls_(run_ops((s1 + s2, s1 + s2), h, lim, uni))))
    elif kind in ('out', 'out2'):
        mb = pieces(codec)[-1]; mb2 = pieces(codec)[-2]
        S = lambda x: Str(x)
        vals = [S('a"\\' + mb), S(''), Char('b'), Char(mb), Sym('sym'), 42, ls(1, S('x\n'), Char(' ')), NIL, True, Vec([Char(mb2), S(mb2)]), ls(Sym('quote'), Sym('a'))]
        def q(v):
            """quoted source: strings built from bytes so that the source stays ASCII"""
            return "(cons '%s %s)"
        def qsrc(v):
            if isinstance(v, Str): return "(%%bytes '%s)" % bl(encs(codec, v.s))
            if isinstance(v, Char):
                return "(string-ref (%%bytes '%s) 0)" % bl(encs(codec, chr(v.c)))
            if isinstance(v, Vec): return '(vector %s)' % ' '.join(map(qsrc, v.v))
            if isinstance(v, Pair): return '(list %s)' % ' '.join(map(qsrc, model.pl(v)))
            return "'" + wr(v)
        acts = []
        for v in vals:
            acts.append(("(cons 'd %s)" % qsrc(v), wr(v, 'd')))
            acts.append(("(cons 'w %s)" % qsrc(v), wr(v)))
            if isinstance(v, Char): acts.append(("(cons 'c %s)" % qsrc(v), chr(v.c)))
        acts.append(("(cons 'n 0)", '\n'))
        acts.append(("(cons 's %s)" % qsrc(vals[0]), wr(vals[0], 's')))
        acts.append(("(cons 'c \"x\")", ''))
        def src(seq): return '(list ' + ' '.join(a for a, _ in seq) + ')'
        if kind == 'out':
            p, n = item[4], item[5]
            for m in range(0, n + 1):
                for seq in itertools.product(acts, repeat=m):
                    if m == 4 and seq[0][0] > seq[1][0]: continue
                    b = encs(codec, ''.join(o for _, o in seq))
                    e = bl(b)
                    if any(x > 127 for x in b): st.add('multibyte')
                    if p == 's': e = '(%s #t %s)' % (e, bl(b + b'x'))
                    R.add('(%%out-%s %s)' % (p, src(seq)), e)
        else:
            for s1 in itertools.product(acts[::2], repeat=2):
                for s2 in itertools.product(acts[1::3], repeat=2):
                    R.add('(%%out-2 %s %s)' % (src(s1), src(s2)), '(%s %s)' % (bl(encs(codec, ''.join(o for _, o in s1))), bl(encs(codec, ''.join(o for _, o in s2)))))
    elif kind == 'big':
        # buffer sizes: characters of each length at every offset around powers of two
        mbs = pieces(codec)[8:] or ['a']
        for base in (64, 128, 256, 512, 1024, 4096, 8192):
            for d in range(-5, 6):
                for m in mbs:
                    n = base + d
                    # string output port and file output port growth
                    body = '(let ((p (open-output-string)) (f (open-output-file "out"))) (display (make-string %d #\\a) p) (display (make-string %d #\\a) f) (let ((m (string-ref (%%bytes \'%s) 0))) (write-char m p) (write-char m f) (write m p) (write m f) (close-output-port f) ' % (n, n, bl(encs(codec, m)))
                    b = b'a' * n + encs(codec, m) + encs(codec, '#\\' + m)
                    R.add(body + '(list (string-length (get-output-string p)) (equal? (%%slurp "out") (%%string-bytes (get-output-string p))) (list-tail (%%string-bytes (get-output-string p)) %d))))' % (n - 1),
                          '(%d #t %s)' % (n + 4, bl(b[n - 1:])))
                    # many small writes
                    R.add('(let ((p (open-output-string))) (let loop ((i 0)) (if (< i %d) (begin (write-char #\\b p) (loop (+ i 1))))) (display (%%bytes \'%s) p) (string-length (get-output-string p)))' % (n, bl(encs(codec, m))), str(n + 1))
                    R.add('(begin (let ((p (open-output-file "big"))) (display (make-string %d #\\a) p) (display (%%bytes \'%s) p) (close-output-port p)) (call-with-input-file "big" (lambda (p) (let loop ((i 0)) (if (< i %d) (begin (peek-char p) (read-char p) (loop (+ i 1))) (let* ((a (peek-char p)) (b (read-char p)) (c (read-char p))) (list (char->integer a) (eqv? a b) (char->integer c) (eof-object? (read-char p)))))))))' % (n, bl(encs(codec, m + 'z')), n),
                          '(%d #t 122 #t)' % ord(m))
    elif kind == 'mixed':
        # a port keeps the codec it was opened with
        for other in CODECS:
            for m in pieces(codec)[8:]:
                b = encs(codec, m + 'a' + m)
                R.add('(let ((p (open-input-string (%%bytes \'%s)))) (with-char-codec "%s" (lambda () (let* ((a (char->integer (read-char p))) (b (char->integer (peek-char p)))) (read-char p) (list a b (char->integer (read-char p)) (eof-object? (peek-char p)))))))' % (bl(b), other), '(%d 97 %d #t)' % (ord(m), ord(m)))
                R.add('(begin (%%spit "in" \'%s) (let ((p (open-input-file "in"))) (with-char-codec "%s" (lambda () (let* ((a (char->integer (read-char p))) (b (char->integer (peek-char p)))) (read-char p) (list a b (char->integer (read-char p)) (eof-object? (peek-char p))))))))' % (bl(b), other), '(%d 97 %d #t)' % (ord(m), ord(m)))
                # and one opened within the other codec reads by that codec
                o, s = dec(other, b)
                if s == 'ok':
                    R.add('(begin (%%spit "in" \'%s) (with-char-codec "%s" (lambda () (call-with-input-file "in" (lambda (p) (let loop ((r (quote ()))) (let ((c (read-char p))) (if (eof-object? c) (reverse r) (loop (cons (char->integer c) r))))))))))' % (bl(b), other), bl(o))
                R.add('(let ((p (open-output-string))) (write-char (integer->char %d) p) (with-char-codec "%s" (lambda () (write-char #\\z p))) (write-char (integer->char %d) p) (%%string-bytes (get-output-string p)))' % (ord(m), other, ord(m)),
                      bl(encs(codec, m + 'z' + m)))
    elif kind == 'nest':
        nest(R, item[3])
    elif kind == 'closed':
        closed(R)
    elif kind == 'prelude':
        prelude(R)
    elif kind == 'load':
        load(R, item[3], item[4])
    elif kind == 'mutate':
        # a string port delivers the characters stored when it was opened
        for s in ('abc', '\u03bbb', '(a b) c', ''):
            for mut in ('(string-set! s 0 #\\x)', '(string-set! s 0 (integer->char #x3042))', '(string-fill! s #\\y)', '(string-fill! s (integer->char #x10000))', '(set! s #f)', '(%live)',
                        '(begin (set! s #f) (%live) (make-string 100 #\\z))', '(begin (string-fill! s (integer->char #x3042)) (make-string 4 #\\w) (%live))'):
                if not s and 'set! s 0' in mut: continue
                for h in itertools.product('rpR', repeat=3):
                    for k in range(0, 3):
                        e = run_ops(s, h, lim, True)
                        if Sym('err') in e: continue
                        src = '(let* ((s (%%bytes \'%s)) (p (open-input-string s)) (a (%%ops \'%s p))) %s (append a (%%ops \'%s p)))' % (bl(s.encode()), opsrc(h[:k]), mut, opsrc(h[k:]))
                        R.add(src, wr(ls_(e)))
        # get-output-string returns fresh strings
        R.add('(let* ((p (open-output-string)) (x (begin (display "ab" p) (get-output-string p)))) (string-set! x 0 #\\z) (display "c" p) (list x (get-output-string p)))', '("zb" "abc")')
    R.flush()

# ---------------------------------------------------------------- redirection
def nest(R, part):
    """every nest of two redirections with every exit at every place"""
    kinds = ['wi', 'wo', 'ci', 'co', 'dw', 'none']
    exits = ['normal', 'error', 'raise', 'k-out', 'k-mid', 'err-mid', 'syntax']
    outer_kind = kinds[part]
    def wrap(k, body, f):
        return {'wi': '(with-input-from-file "%s" (lambda () %s))' % (f, body),
                'wo': '(with-output-to-file "%s" (lambda () %s))' % (f + 'o', body),
                'ci': '(call-with-input-file "%s" (lambda (p) %s))' % (f, body),
                'co': '(call-with-output-file "%s" (lambda (p) %s))' % (f + 'o', body),
                'dw': '(dynamic-wind (lambda () (note (quote in))) (lambda () %s) (lambda () (note (quote out))))' % body,
                'none': body}[k]
    # prelude: notes, files; f1 has "123", f2 has "456"
    for k1 in [outer_kind]:
        for k2 in kinds:
            for ex in exits:
                for pos in range(4):
                    # actions: read+write a datum before, inside, after
                    act = '(note (read-char)) (write-char #\\%s)'
                    exit_src = {'normal': '(note 9)', 'error': '(car 1)', 'raise': '(raise 5)', 'k-out': '(k 7)', 'k-mid': '(km 8)', 'err-mid': '(raise 6)', 'syntax': '(let ((x)) x)'}[ex]
                    bodies = [act % c for c in 'ABCD']
                    ins = lambda i: bodies[i] + (' ' + exit_src if pos == i else '')
                    inner = wrap(k2, ins(1), 'f2')
                    if ex in ('k-mid',): inner = '(call/cc (lambda (km) %s))' % inner
                    if ex == 'err-mid': inner = '(let ((m (guard (e (#t (list (quote mid) e))) %s (quote x)))) (if (pair? m) (note m)))' % inner
                    mid = ins(0) + ' ' + inner + ' ' + ins(2)
                    if ex == 'k-mid' and pos != 1: continue
                    outer = wrap(k1, mid, 'f1')
                    src = ('(begin (%%spit "f1" (list 49 50 51 52 53)) (%%spit "f2" (list 97 98 99 100 101)) (%%spit "f1o" (list)) (%%spit "f2o" (list)) (%%spit "f0" (list 65 66 67 68 69 70)) (let* ((l (quote ())) (note (lambda (x) (set! l (cons x l)))) (ip (current-input-port)) (op (current-output-port)))'
                           ' (with-input-from-file "f0" (lambda () (let ((ip (current-input-port)) (op (current-output-port))) (note (guard (e (#t (list (quote caught) (if (number? e) e (quote err))))) (call/cc (lambda (k) %s %s (quote done)))))'
                           ' (note (eq? ip (current-input-port))) (note (eq? op (current-output-port))) (note (read-char)) (write-char #\\Z)))) (note (eq? ip (current-input-port))) (note (eq? op (current-output-port))) (%%live) (list (reverse l) (%%slurp "f1o") (%%slurp "f2o"))))') % (outer, ins(3))
                    val, out = nest_model(k1, k2, ex, pos)
                    if val is not None: R.add(src, val, 'V', out)

class _Esc(Exception):
    pass
def nest_model(k1, k2, ex, pos):
    """the observations the nest must give; None where the buffered data of a
    port left open by an error cannot be predicted"""
    notes = []
    ins = [list('ABCDEF')]; outs = ['']
    files = {'f1': list('12345'), 'f2': list('abcde')}
    wrote = {'f1': None, 'f2': None}
    closed = {'f1': True, 'f2': True}
    stack_in = [files_iter(list('ABCDEF'))]
    stack_out = [[]]
    def act(i):
        notes.append(wr(Char(next(stack_in[-1]))))
        stack_out[-1].append('ABCD'[i])
        if pos == i:
            if ex == 'normal': notes.append('9')
            elif ex in ('error', 'syntax'): raise _Esc('outer', '(caught err)')
            elif ex == 'raise': raise _Esc('outer', '(caught 5)')
            elif ex == 'k-out': raise _Esc('outer', '7')
            elif ex == 'k-mid': raise _Esc('mid', None)
            elif ex == 'err-mid': raise _Esc('emid', '6')
    def wrap(k, f, body):
        if k == 'wi':
            stack_in.append(files_iter(files[f]))
            try: body()
            finally: stack_in.pop()
        elif k == 'wo':
            b = []
            stack_out.append(b); wrote[f] = b
            closed[f] = False
            try: body(); closed[f] = True
            finally: stack_out.pop()
        elif k == 'dw':
            notes.append('in')
            try: body()
            finally: notes.append('out')
        elif k == 'co':
            wrote[f] = []
            body()
        else: body()
    try:
        def inner(): wrap(k2, 'f2', lambda: act(1))
        def mid():
            act(0)
            if ex == 'k-mid':
                try: inner()
                except _Esc as e:
                    if e.args[0] != 'mid': raise
            elif ex == 'err-mid':
                try: inner()
                except _Esc as e:
                    if e.args[0] != 'emid': raise
                    notes.append('(mid 6)')
            else: inner()
            act(2)
        wrap(k1, 'f1', mid)
        act(3)
        notes.append('done')
    except _Esc as e:
        notes.append(e.args[1] if e.args[0] == 'outer' else '(caught 6)')
    notes += ['#t', '#t']
    notes.append(wr(Char(next(stack_in[-1]))))
    stack_out[-1].append('Z')
    notes += ['#t', '#t']
    o = []
    for f in ('f1', 'f2'):
        o.append(bl([ord(c) for c in (wrote[f] or [])]) )
    if not all(closed.values()):
        return None, None if 0 else None
    return '((%s) %s %s)' % (' '.join(notes), o[0], o[1]), ''.join(stack_out[0])
def files_iter(l): return iter(l)

# --------------------------------------------------------------- closed ports
def closed(R):
    ops_in = ['(read-char p)', '(peek-char p)', '(read p)', '(char-ready? p)']
    ops_out = ['(write 1 p)', '(display "a" p)', '(write-char #\\a p)', '(newline p)', '(write/ss 1 p)', '(display "" p)']
    mk = {'is': '(open-input-string "abc")', 'os': '(open-output-string)', 'if': '(begin (%spit "in" (list 97 98)) (open-input-file "in"))', 'of': '(open-output-file "out")'}
    for k, src in mk.items():
        cl = '(close-input-port p)' if k[0] == 'i' else '(close-output-port p)'
        for ops in (ops_in, ops_out):
            for op in ops:
                R.add('(let ((p %s)) %s %s)' % (src, cl, op), None, 'E')
                for op2 in ops_in + ops_out:
                    R.add('(let ((p %s)) %s (list (%%try (lambda () %s)) (%%try (lambda () %s)) (input-port? p)))' % (src, cl, op, op2), '(err err %s)' % ('#t' if k[0] == 'i' else '#f'))
                wrong = (k[0] == 'i') != (ops is ops_in)
                if wrong: R.add('(let ((p %s)) %s)' % (src, op), None, 'E')
                if wrong: R.add('(let ((p %s)) (%%try (lambda () %s)) (%s p))' % (src, op, 'read-char' if k == 'is' or k == 'if' else 'newline'), '#\\a' if k[0] == 'i' else '#<undef>')
        R.add('(let ((p %s)) %s (let ((o (open-output-string))) (write p o) (string? (get-output-string o))))' % (src, cl), '#t')
        R.add('(let ((p %s)) (list (input-port? p) (output-port? p)))' % src, '(%s)' % ('#t #f' if k[0] == 'i' else '#f #t'))
        R.add('(let ((p %s)) (%s p))' % (src, '%%set-current-output-port!' if k[0] == 'i' else '%%set-current-input-port!'), None, 'E')
        R.add('(let ((p %s)) %s (%s p))' % (src, cl, '%%set-current-input-port!' if k[0] == 'i' else '%%set-current-output-port!'), None, 'E')
        R.add('(let ((p %s)) (eof-object? p))' % src, '#f')
    R.add('(let ((p (open-output-string))) (display "a" p) (close-output-port p) (get-output-string p))', None, 'E')
    R.add('(get-output-string (open-input-string "a"))', None, 'E')
    R.add('(get-output-string (open-output-file "out"))', None, 'E')
    for f in ('open-input-file', 'call-with-input-file', 'with-input-from-file', 'load'):
        a = {'call-with-input-file': ' (lambda (p) 1)', 'with-input-from-file': ' (lambda () 1)'}.get(f, '')
        R.add('(%s "nonexistent"%s)' % (f, a), None, 'E')
        R.add('(let ((a (current-input-port)) (b (current-output-port))) (%%try (lambda () (%s "nonexistent"%s))) (list (eq? a (current-input-port)) (eq? b (current-output-port))))' % (f, a), '(#t #t)')
    R.add('(open-output-file "nodir/x")', None, 'E')
    R.add('(list (call-with-output-file "out" (lambda (p) (write 1 p) 5)) (with-output-to-file "out" (lambda () (write 12) 6)) (%slurp "out") (call-with-input-file "out" read) (with-input-from-file "out" read))', '(5 6 (49 50) 12 12)')
    # an output file is truncated when opened
    R.add('(begin (%spit "out" (list 97 98 99)) (close-output-port (open-output-file "out")) (%slurp "out"))', '()')
    # the port passed to the procedure is closed on return
    R.add('(let ((q #f)) (call-with-input-file "out" (lambda (p) (set! q p))) (read-char q))', None, 'E')
    R.add('(let ((q #f)) (call-with-output-file "out" (lambda (p) (set! q p))) (newline q))', None, 'E')
    R.add('(let ((q #f)) (with-output-to-file "out" (lambda () (set! q (current-output-port)))) (newline q))', None, 'E')
    R.add('(let ((q #f)) (with-input-from-file "out" (lambda () (set! q (current-input-port)))) (read-char q))', None, 'E')

# ----------------------------------------------------------------------- load
def spit(name, b): return '(%%spit "%s" (quote %s))' % (name, bl(b))

def prelude(R):
    obs = '(list (%%current-char-codec) l)'
    body = b'(set! l (cons (%%current-char-codec) l))(set! l (cons (string-length "\xe3\x81\x82\xe3\x81\x84") l))\n'
    n = {'UTF-8': 2, 'EUC-JP': None, 'Shift_JIS': 4 if 0 else None, 'ISO-8859-1': 6}
    lines = [(b'', 'UTF-8'), (b'#! sscm\n', 'UTF-8'), (b'#! /usr/bin/env sscm\n', 'UTF-8'), (b'#! /usr/bin/env sscm -C UTF-8\n', 'UTF-8'),
             (b'#! /usr/bin/env sscm -C ISO-8859-1\n', 'ISO-8859-1'), (b'#! sscm -C ISO-8859-1\n', 'ISO-8859-1'), (b'#!  sscm   -C  ISO-8859-1  \n', 'ISO-8859-1'),
             (b'#! sscm -C ISO-8859-1 x y\n', 'ISO-8859-1'), (b'#! sscm x -C ISO-8859-1\n', 'UTF-8'), (b'#! \n', 'UTF-8'), (b'#! sscm\t-C\tISO-8859-1\n', 'ISO-8859-1'),
             (b'#!sscm\n', None), (b'#! sscm -C\n', None), (b'#! sscm -C nonsense\n', None), (b'#! sscm -z\n', None), (b'#!\n', None),
             (b'#! ' + b'a' * 61 + b'\n', None), (b'#! ' + b'a' * 60 + b'\n', 'UTF-8'), (b'#! ' + b'a' * 59 + b'\n', 'UTF-8'), (b'#! ' + b'a' * 100 + b'\n', None),
             (b'#! ' + b'a' * 62 + b'\n', None), (b'#! sscm \xe3\x81\x82\n', None), (b'#! /usr/bin/env sscm -C ISO-8859-1' + b' ' * (64 - 34) + b'\n', None),
             (b'#! /usr/bin/env sscm -C ISO-8859-1' + b' ' * (63 - 34) + b'\n', 'ISO-8859-1'),
             (b'#t\n', 'UTF-8'), (b'#\\a (quote #(1)) ', 'UTF-8'), (b' #! sscm\n', None), (b';c\n', 'UTF-8'), (b'\n', 'UTF-8'), (b'#', None), (b'"#! sscm -C ISO-8859-1"', 'UTF-8')]
    for ln, codec in lines:
        if ln == b'#':
            src = '(begin (define l (quote ())) %s (list (%%try (lambda () (load "ld") (quote ok))) %s))' % (spit('ld', ln), obs)
            R.add(src, '(err ("UTF-8" ()))'); continue
        src = '(begin (define l (quote ())) %s (list (%%try (lambda () (load "ld") (quote ok))) %s))' % (spit('ld', ln + body), obs)
        if codec is None: e = '(err ("UTF-8" ()))'
        else: e = '(ok ("UTF-8" (%d "%s")))' % (n[codec], codec)
        R.add(src, e)
        # nested in another file, itself in another codec
        src = '(begin (define l (quote ())) %s %s (list (%%try (lambda () (load "ld2") (quote ok))) %s))' % (
            spit('ld', ln + body), spit('ld2', b'#! sscm -C EUC-JP\n(load "ld")(set! l (cons (%%current-char-codec) l))'), obs)
        if codec is None: e = '(err ("UTF-8" ()))'
        elif codec == 'UTF-8' and b'-C UTF-8' not in ln: e = None     # inherits EUC-JP: the text is not judged
        else: e = '(ok ("UTF-8" ("EUC-JP" %d "%s")))' % (n[codec], codec)
        if e: R.add(src, e)
    # a string of the declared codec
    for codec, b, c in (('EUC-JP', b'\xa4\xa2', 0xa4a2), ('Shift_JIS', b'\x82\xa0', 0x82a0), ('UTF-8', b'\xe3\x81\x82', 0x3042), ('ISO-8859-1', b'\xe9', 0xe9)):
        R.add('(begin (define r #f) %s (load "ld") (list r (%%%%current-char-codec)))' % spit('ld', b'#! /usr/bin/env sscm -C ' + codec.encode() + b'\n(set! r (list (string-length "' + b + b'") (char->integer (string-ref "' + b + b'" 0)) (char->integer #\\' + b + b')))'),
              '((1 %d %d) "UTF-8")' % (c, c))

def load(R, part, n):
    """every file of up to n forms"""
    forms = [('(out 1)', 'o1'), ('(define v (cons 3 v))', 'd'), ('(out v)', 'ov'), ('(car 0)', 'err'), ('(raise 5)', 'err'), (')', 'err'), ('(out "a', 'err'), ('; (out 9)\n', ''), ("'(quoted)", ''),
             ('(load "g")', 'load'), ('(load "nonexistent")', 'err'), ('(out (read-char))', 'read'), ('(begin (out 2) (out 3))', 'o23'), ('(%%set-current-char-codec! "EUC-JP")', 'euc'), ('(k 8)', 'k'), ('', ''),
             ('(guard (e (#t (out 7))) (load "h"))', 'guard'), ('(out (%%current-char-codec))', 'codec'), ('(define (f) v) (out (f))', 'f'), ('#t #\\x "s" (quote #(1))', '')]
    k = 0
    for m in range(0, n + 1):
        for seq in itertools.product(forms, repeat=m):
            k += 1
            if k % 4 != part: continue
            # forms sharing a line: separated by nothing, a space or a newline
            for sep in ((' ',) if m < 2 else (' ', '\n') if m == 2 else ('\n',)):
                text = sep.join(f for f, _ in seq)
                src = ('(begin (define l (quote ())) (define v (quote ())) (define (out x) (set! l (cons x l))) (define k #f) %s %s %s (let* ((r (call/cc (lambda (c) (set! k c) (%%try (lambda () (load "ld") (quote ok)))))))'
                       ' (list r (reverse l) v (%%%%current-char-codec) (eq? (current-input-port) (current-input-port)))))') % (
                    spit('ld', text.encode()), spit('g', b'(out 4) (%%set-current-char-codec! "ISO-8859-1") (out 5)'), spit('h', b'(%%set-current-char-codec! "Shift_JIS") (out 6) (undefined-variable)'))
                l = []; v = []; r = 'ok'; codec = 'UTF-8'
                vs = lambda: '(' + ' '.join(v) + ')'
                for f, t in seq:
                    if t == 'o1': l.append('1')
                    elif t == 'd': v = ['3'] + v
                    elif t in ('ov', 'f'): l.append(vs())
                    elif t == 'o23': l += ['2', '3']
                    elif t == 'load': l += ['4', '5']
                    elif t == 'guard': l += ['6', '7']
                    elif t == 'euc': codec = 'EUC-JP'
                    elif t == 'codec': l.append('"%s"' % codec)
                    elif t == 'read': l = None; break
                    elif t == 'k': r = '8'; break
                    elif t == 'err': r = 'err'; break
                if l is None: continue
                R.add(src, '(%s (%s) %s "UTF-8" #t)' % (r, ' '.join(l), vs()))
