"""C17: format."""
import itertools
from vlib import core, table
from vlib.table import V, E, Exp
from vlib.model import *
from checks.c12 import raw, REPS

ID = 'C17'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of format strings (directive sequences) with argument tuples and destinations on the real code against a reference model of the directives'
NOTE = 'Bounded: every sequence of up to 2 (3 in the thorough tier) of 41 directives, prefixed directives, literals and invalid directives, with every tuple of right-typed arguments from a boundary set, one missing or one excess argument, every wrong type, every destination, for format of SRFI-28, format of SRFI-48 and format+; every width and padding up to 20 and around the limit of 127 with every radix and boundary number; multi-byte format strings in the six codecs. Whether ~& counts a newline printed by ~a, ~s, ~w, ~y, ~c or the end of ~? is left open (the test suite says so). More than 4 digits in a prefix are left open.'
BUILDS = [('compact', 'rel'), ('fatty', 'rel'), ('compact', 'asan')]
BOUNDS = {'quick': 'sequences of <= 2 directives over all argument tuples', 'thorough': 'sequences of <= 3 directives; both layouts; AddressSanitizer'}
NONVACUOUS = {'states': 200000, 'error_cases': 20000}

def radix(n, r):
    if n == 0: return '0'
    s = ''; m = abs(n)
    while m: s = '0123456789abcdef'[m % r] + s; m //= r
    return ('-' if n < 0 else '') + s

class Bad(Exception): pass      # an error
class Open_(Exception): pass    # not judged

def padnum(n, r, width, zero):
    s = radix(n, r)
    if len(s) >= width: return s
    if zero: return ('-' if n < 0 else '') + s.lstrip('-').rjust(width - (n < 0), '0')
    return s.rjust(width)

def fmt(f, args, level, last=''):
    """set of possible outputs; level 28, 48 or 'plus'"""
    outs = {('', last)}      # (text, is the last thing a newline: 'n', 'o'ther, '?')
    args = list(args)
    i = 0
    def pop():
        if not args: raise Bad
        return args.pop(0)
    def emit(s, l):
        nonlocal outs
        outs = {(o + s, l) for o, _ in outs}
    while i < len(f):
        c = f[i]; i += 1
        if c != '~':
            emit(c, 'n' if c == '\n' else 'o'); continue
        j = i
        while i < len(f) and f[i] in '0123456789': i += 1
        w = f[j:i]; d = None
        if i < len(f) and f[i] == ',':
            if not w: raise Bad
            i += 1; k = i
            while i < len(f) and f[i] in '0123456789': i += 1
            d = f[k:i]
            if not d: raise Bad
            if len(d) > 4: raise Open_
            if int(d) > 127: raise Bad
        if w:
            zero = level == 'plus' and w[0] == '0'
            if len(w) > 3 + (w[0] == '0'): raise Open_
            if zero and len(w) == 1: width = 0
            else: width = int(w)
            if width > 127: raise Bad
            if zero and d is not None and len(w) == 1: raise Open_
        else: width = 0; zero = False
        pre = bool(w)
        if i >= len(f): raise Bad
        c = f[i]; i += 1
        cl = c.lower() if ord(c) < 128 else c
        if level == 28:
            if pre: raise Bad
            if cl not in 'as%~': raise Bad
        elif cl == 'f':
            x = pop()
            if isinstance(x, Str): emit(''.join(x.s).rjust(width), '?')
            elif type(x) is int: emit(padnum(x, 10, width, zero), 'o')
            else: raise Bad
            continue
        elif cl in 'dxob':
            if pre and level != 'plus': raise Bad
            x = pop()
            if type(x) is not int: raise Bad
            emit(padnum(x, {'d': 10, 'x': 16, 'o': 8, 'b': 2}[cl], width, zero), 'o')
            continue
        if pre: raise Bad
        if cl == 'a': emit(wr(pop(), 'd'), '?')
        elif cl == 's': emit(wr(pop()), '?')
        elif cl == 'y': emit(wr(pop()), '?')
        elif cl == 'w': emit(wr(pop(), 's'), '?')
        elif cl == '%': emit('\n', 'n')
        elif cl == '~': emit('~', 'o')
        elif cl == 't': emit('\t', 'o')
        elif cl == '_': emit(' ', 'o')
        elif cl == '&':
            no = set()
            for o, l in outs:
                # what came out through an argument may or may not be noticed
                if l != 'n': no.add((o + '\n', 'n'))
                if l == 'n' or l == '?' and o.endswith('\n'): no.add((o, 'n'))
            outs = no
        elif cl == 'c':
            x = pop()
            if not isinstance(x, Char): raise Bad
            emit(chr(x.c), '?')
        elif cl in '?k':
            g = pop(); l = pop()
            if not isinstance(g, Str): raise Bad
            if not (isinstance(l, Pair) or l is NIL): raise Bad
            no = set()
            for o, la in outs:
                # whether the inner format knows about the outer column is open
                for la2 in {la, ''} if la in 'n?' else {la}:
                    for o2, l2 in fmt(''.join(g.s), pl(l), level, '?' if la2 == '?' else la2):
                        no.add((o + o2, '?'))
            outs = no
        else: raise Bad
    if args: raise Bad
    return outs

LV = {'28': 28, '48': 48, '+': 'plus'}
FN = {'28': 'format', '48': 'format', '+': 'format+'}

def qs(x):
    return wr(x) if isinstance(x, (Str, Char, bool, int)) else mk(x)

def mkrow(f, args, var, dest='', fsrc=None):
    fs = fsrc or wr_str(f)
    fn = FN[var]
    a = ''.join(' ' + qs(x) for x in args)
    if dest == 'p': src = '(%%fp %s %s%s)' % (fn, fs, a)
    else: src = '(%s%s %s%s)' % (fn, dest, fs, a)
    try: outs = {o for o, _ in fmt(f, args, LV[var])}
    except Bad: return src, E(None)
    if dest == ' #t':
        if len(outs) == 1: return src, Exp('#<undef>', outs.pop())
        return src, Exp('#<undef>', None)
    pre = '[' if dest == 'p' else ''
    return src, Exp(None, '', 'V', vals=sorted(wr_str(pre + o) for o in outs))

INTS = [0, 1, -1, 255, -256, 2 ** 59 - 1, -2 ** 59]
ANY = [Sym('sym'), Str('a"\n'), Char('b'), Char('\u3042'), ls(1, Str('\u3042'), Char(' ')), NIL, True, Vec([1, Str('x')]), ls(Sym('quote'), Sym('a')), ls(1, tail=2), False, Str(''), 42]
LIST1 = ls(1, 2)
class SharedW:      # (let ((x (list 1 2))) (list x x))
    pass
INNER = [(Str('<~a>'), ls(5)), (Str('~%~&'), NIL), (Str(''), NIL), (Str('~&z'), NIL), (Str('~?~d'), ls(Str('~s'), ls(Char('c')), 7)), (Str('~a'), NIL), (Str('~'), NIL), (Str('x'), ls(1)), (Str('\u3042'), NIL)]

def directives(var, small):
    """(text, list of argument tuples)"""
    any_ = [(x,) for x in (ANY[:6:2] if small else ANY)]
    ints = [(x,) for x in (INTS[1:5:2] if small else INTS)]
    strs = [(Str('a\u3042'),), (7,)]
    chars = [(Char('b'),), (Char('\u3042'),)] if not small else [(Char('\u3042'),)]
    ind = INNER[:4] if small else INNER
    o = [('x', [()]), ('\u3042', [()]), ('\n', [()]), ('~~', [()]), ('~%', [()]), ('~a', any_), ('~s', any_), ('~A', any_[:1]), ('~S', any_[:1])]
    o += [('~w', any_), ('~d', ints), ('~x', ints), ('~o', ints), ('~b', ints), ('~f', strs), ('~c', chars), ('~&', [()]), ('~t', [()]), ('~_', [()]), ('~y', any_), ('~?', ind),
          ('~5f', strs), ('~3,2f', strs), ('~05f', strs), ('~05d', ints), ('~4x', ints), ('~3,1b', ints), ('~2a', any_[:1]), ('~,f', strs[:1]), ('~3,f', strs[:1]), ('~z', [()]), ('~\u0161', any_[:1]), ('~\u0125', [()]), ('~(', [()]), ('~-3d', ints[:1]), ('~\u3042', [()])]
    if not small:
        o += [('~W', any_[:1]), ('~D', ints[:1]), ('~X', ints), ('~O', ints[:1]), ('~B', ints[:1]), ('~F', strs), ('~C', chars), ('~T', [()]), ('~Y', any_[:1]), ('~K', ind), ('~k', ind), ('~7F', strs)]
    return o

def items(tier):
    th = tier == 'thorough'
    o = []
    for cfg, fl in [('compact', 'rel')] + ([('fatty', 'rel'), ('compact', 'asan')] if th else []):
        for var in ('28', '48', '+'):
            nd = len(directives(var, False))
            o += [('two', cfg, fl, var, i) for i in range(nd)]
            o += [('width', cfg, fl, var), ('args', cfg, fl, var), ('dest', cfg, fl, var)]
            if fl == 'rel': o += [('three', cfg, fl, var, i) for i in range(len(directives(var, True)))]
    for cfg, fl in (('fatty', 'rel'), ('compact', 'asan')):
        for var in ('28', '48', '+'): o += [('args', cfg, fl, var), ('dest', cfg, fl, var), ('width', cfg, fl, var)]
    for c in REPS:
        for cfg, fl in (('compact', 'rel'), ('compact', 'asan')): o += [('codec', cfg, fl, c)]
    o += [('two', 'fatty', 'rel', v, i) for v in ('28', '48', '+') for i in range(0, 9)]
    o += [('mutate', 'compact', 'asan'), ('mutate', 'fatty', 'asan')]
    return o

def spec_of(cfg, fl, var, **k):
    return dict(cfg=cfg, flavor=fl, files=['rows.scm', 'use28.scm' if var == '28' else 'use48.scm'], **k)

def run_item(item, st, tier):
    kind, cfg, fl = item[:3]
    rows = []
    def put(f, args, var, dest=''):
        try: rows.append(mkrow(f, args, var, dest))
        except Open_: st.add('not_judged')
    if kind in ('two', 'three'):
        var = item[3]
        ds = directives(var, kind == 'three')
        f0, a0 = ds[item[4]]
        rest = [('', [()])] + ds if kind == 'two' else itertools.product(ds, ds)
        for r in rest:
            if kind == 'two': rs = (r,)
            else: rs = r
            f = f0 + ''.join(x[0] for x in rs)
            for tup in itertools.product(a0, *[x[1] for x in rs]):
                args = [x for t in tup for x in t]
                put(f, args, var)
    elif kind == 'width':
        var = item[3]
        for d in 'dxobfDFas':
            for w in [''] + [p + str(n) for p in ('', '0') for n in list(range(0, 21)) + [59, 60, 61, 63, 64, 65, 66, 67, 100, 126, 127, 128, 129, 255, 256, 257, 999]] + ['00', '000', '0000', '00005', '1000', '12345', '99999999999999999999']:
                for frac in ('', ',0', ',1', ',2', ',02', ',127', ',128', ',', ',0127', ',300'):
                    for n in ([5, -5, 2 ** 59 - 1, -2 ** 59, 0] if not frac else [-77]):
                        if len(w) > 5: st.add('not_judged'); continue
                        put('<~%s%s%s>' % (w, frac, d), [n], var)
            for w in (0, 1, 2, 3, 4, 5, 6, 127):
                for s in ('', 'a', '\u3042', 'ab\u3042', '\u3042\u3042\u3042'):
                    for z in ('', '0'):
                        put('~%s%d%s' % (z, w, d), [Str(s)], var)
    elif kind == 'args':
        var = item[3]
        for d, tuples in directives(var, False):
            for t in tuples:
                for pre, prea in (('', []), ('~a', [1]), ('x', [])):
                    # missing, excess, wrong types in every position
                    for n in range(len(t)): put(pre + d, prea + list(t[:n]), var)
                    put(pre + d, prea + list(t) + [9], var)
                    put(pre + d, prea + list(t) + [NIL], var)
                    for n in range(len(t)):
                        for x in ANY + INTS + [ls(1, tail=2), Str('~'), Str('~a')]:
                            t2 = list(t); t2[n] = x
                            if d[-1] in '?kK' and n == 1 and isinstance(x, Pair) and it_improper(x): rows.append(('(%s %s%s)' % (FN[var], wr_str(pre + d), ''.join(' ' + qs(y) for y in prea + t2)), E(None))); continue
                            put(pre + d, prea + t2, var)
        # every single character as a directive
        for c in list(range(1, 0x180)) + [0x3042, 0x10041, 0x161, 0x1f661, 0x1041, 0xff61, 0x17e, 0x10025, 0x10026]:
            if c in (0xd800,) or chr(c) in '0123456789hH': continue
            for a in ([], [5], [Str('s')], [Char('q')], [Str('~a'), ls(1)], [5, 6]):
                f = '~' + chr(c)
                fs = '"~' + ('\\x%x;' % c if var != 'x' else '') + '"'
                try: rows.append(mkrow(f, a, var, '', fs))
                except Open_: pass
    elif kind == 'dest':
        var = item[3]
        fn = FN[var]
        for dest in ([''] if var == '28' else ['', ' #f', ' #t', 'p']):
            for d, tuples in directives(var, False):
                for t in tuples:
                    for x in ('', 'x~%'):
                        put(x + d, t, var, dest)
                        put(d + x, t, var, dest)
        for bad in ('0', '#\\a', "'()", "'(1)", "(vector)", "'sym", 'car', '(if #f #f)', '(eof)'):
            rows.append(('(%s %s "~~")' % (fn, bad), E()))
            rows.append(('(%s %s)' % (fn, bad), E()))
        for bad in ('', ' #f', ' #t', ' #f #f', ' #t 1', ' #f (quote a) "x"', ' "" 1'):
            rows.append(('(%s%s)' % (fn, bad), E()))
        rows.append(('(%s "")' % fn, V('""')))
        if var == '28':
            for p in (' #f', ' #t'): rows.append(('(format%s "a")' % p, E()))
        else:
            rows += [('(%s (open-input-string "a") "x")' % fn, E()),
                     ('(%s (open-input-string "a") "~a" 1)' % fn, E()),
                     ('(let ((p (open-output-string))) (close-output-port p) (%s p "x"))' % fn, E()),
                     ('(let ((p (open-output-string))) (%s p "a~a" 1) (%s p "b~a" 2) (get-output-string p))' % (fn, fn), V('"a1b2"')),
                     ('(let* ((l (list 1 2)) (a (list "~a~a" 3 4))) (let ((r (apply %s a))) (list r a)))' % fn, V('("34" ("~a~a" 3 4))')),
                     ('(let* ((a (list 3 4))) (let ((r (%s "~?" "~a~a" a))) (list r a)))' % fn, V('("34" (3 4))')),
                     ('(let ((x (list 1 2))) (%s "~w" (list x x)))' % fn, V('"(#1=(1 2) #1#)"')),
                     ('(let ((x (list 1 2))) (set-cdr! (cdr x) x) (%s "~w~a" x 5))' % fn, V('"#1=(1 2 . #1#)5"')),
                     ('(let ((x (list 1 2))) (%s "~a" (list x x)))' % fn, V('"((1 2) (1 2))"')),
                     ('(string? (%s "~h"))' % fn, V('#t')),
                     ('(let ((a (%s "~h")) (b (%s "~H"))) (list (string=? a b) (> (string-length a) 500) (substring a 0 7)))' % (fn, fn), V('(#t #t "(format")')),
                     ('(begin (define pretty-print (lambda (x p) (display "<" p) (display x p) (display ">" p))) (%s "a~yb" "q"))' % fn, None),
                     ]
            rows[-1] = (rows[-1][0].replace('(begin', '(let ((old pretty-print) (r #f))').replace('(define pretty-print (lambda', '(set! pretty-print (lambda').replace('(%s "a~yb" "q"))' % fn, '(set! r (%s "a~yb" "q")) (set! pretty-print old) r)' % fn), V('"a<q>b"'))
            rows.append(('(let ((old pretty-print) (r #f)) (set! pretty-print #f) (set! r (%%try (lambda () (%s "~y" 1)))) (set! pretty-print old) r)' % fn, V('err')))
            rows.append(('(let ((old pretty-print) (r #f)) (set! pretty-print (lambda (x p) (raise (quote pp)))) (set! r (guard (e (#t e)) (%s "~y" 1))) (set! pretty-print old) (list r (%s "~y" 1)))' % (fn, fn), V('(pp "1")')))
    elif kind == 'codec':
        codec = item[3]
        sp = spec_of(cfg, fl, '48', enc=None if codec == 'UTF-8' else codec)
        ms = [c for c in REPS[codec] if c > 0x7f and raw(codec, c)]
        cases = []; exps = []
        def bl(b): return '(' + ' '.join(map(str, b)) + ')'
        for m in ms:
            mb = raw(codec, m)
            for f, args in ((b'\0', []), (b'\0~a\0', ["'x"]), (b'~a\0', ['(%%bytes (quote %s))' % bl(mb)]), (b'~c', ['(string-ref (%%bytes (quote %s)) 0)' % bl(mb)]),
                            (b'~s', ['(string-ref (%%bytes (quote %s)) 0)' % bl(mb)]), (b'\0\0~%~~', []), (b'~3f|', ['(%%bytes (quote %s))' % bl(mb)]), (b'~?', ['(%%bytes (quote %s))' % bl(mb + b'~a'), '(list 1)']),
                            (b'~\0', []), (b'~\0', ['1']), (b'~1\0', ['1']), (b'~1,2\0', ['1']), (b'\0~', []), (b'~&\0~&', [])):
                fb = f.replace(b'\0', mb)
                src = '(%%string-bytes (format (%%bytes (quote %s))%s))' % (bl(fb), ''.join(' ' + a for a in args))
                e = {b'\0': mb, b'\0~a\0': mb + b'x' + mb, b'~a\0': mb + mb, b'~c': mb, b'~s': b'#\\' + mb, b'\0\0~%~~': mb + mb + b'\n~', b'~3f|': b'  ' + mb + b'|', b'~?': mb + b'1', b'~&\0~&': b'\n' + mb + b'\n'}.get(f)
                rows.append((src, V(bl(e)) if e is not None else E()))
        st.add('codec_cases', len(rows))
        table.run(st, sp, rows)
        return
    elif kind == 'mutate':
        # the format string is modified or dropped while it is being used
        for n in (0, 1, 2):
            for big in ('(integer->char #x3042)', '#\\z'):
                for op in ('(string-set! s %d c)' % n, '(string-fill! s c)', '(begin (set! s #f) (%live) (make-string 50 c))', '(begin (string-fill! s c) (%live) (make-string 7 #\\y))'):
                    rows.append(('(let* ((old pretty-print) (c %s) (s (string-copy "~y~a")) (r #f)) (set! pretty-print (lambda (x p) %s (display x p))) (set! r (%%try (lambda () (format s 1 2)))) (set! pretty-print old) (or (string? r) (eq? r (quote err))))' % (big, op), V('#t')))
                    rows.append(('(let* ((old pretty-print) (c %s) (s (string-copy "~y~a")) (r #f)) (set! pretty-print (lambda (x p) %s (display x p))) (set! r (%%try (lambda () (format "~?" s (list 1 2))))) (set! pretty-print old) (or (string? r) (eq? r (quote err))))' % (big, op), V('#t')))
        rows.append(('(let* ((old pretty-print) (r #f)) (set! pretty-print (lambda (x p) (%live) (make-string 50 #\\z) (display x p))) (set! r (format (string-append "~y~a" "~a") 1 2 3)) (set! pretty-print old) r)', V('"123"')))
        rows.append(('(let* ((old pretty-print) (l (list 1 2 3)) (r #f)) (set! pretty-print (lambda (x p) (set-cdr! l (list 9 8)) (%live) (display x p))) (set! r (format "~?" "~y~a~a" l)) (set! pretty-print old) (string? r))', V('#t')))
        table.run(st, spec_of(cfg, fl, '48'), rows)
        return
    B = 20000
    for i in range(0, len(rows), B):
        table.run(st, spec_of(cfg, fl, item[3]), rows[i:i + B])

def it_improper(x):
    while isinstance(x, Pair): x = x.cdr
    return x is not NIL
