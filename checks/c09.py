"""C09: the reader."""
import itertools
from vlib import core, reader, model
from vlib.model import Sym, Char, Pair, NIL, Str, Vec, wr, ls_

ID = 'C09'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of texts up to a length over the lexical alphabet, read datum by datum on the real reader and compared with a reference reader'
NOTE = 'Bounded: every text of up to 4 characters over 34 lexically significant characters (5 over 16), every sequence of up to 5 tokens over 21 tokens, every sequence of up to 6 tokens over 7 with 10 kinds of white space and comment in every gap, every prefix, single-character change and deletion of a set of long texts, every character name, every hexadecimal scalar around the range boundaries, symbols, strings and numbers around the reader buffer sizes with multi-byte characters at every offset, every sequence of up to 3 bytes over byte classes, in UTF-8 and the other codecs, through string ports and file ports, nesting up to 2000. Texts nested so deeply that the C stack of the recursive reader is exhausted are outside the bounds. Forms the documents leave open (a list in dotted position of a vector literal, hexadecimal escapes on ports that are not Unicode) are only required not to crash.'
BUILDS = [('compact', 'rel'), ('fatty', 'rel'), ('compact', 'asan')]
BOUNDS = {'quick': 'texts of <= 4 characters over 34, 5 over 14; <= 4 tokens over 21 (5 over 12); <= 6 tokens over 7 with every atmosphere in every gap',
          'thorough': 'texts of <= 4 characters over 40, 5 over 24, 6 over 12; <= 5 tokens over 21; <= 7 tokens over 7 with every atmosphere in every gap'}
NONVACUOUS = {'states': 500000, 'errors': 100000, 'data': 100000}
LIM = {'compact': (-2 ** 59, 2 ** 59 - 1), 'fatty': (-2 ** 63, 2 ** 63 - 1)}

A33 = ['(', ')', '#', "'", '`', ',', '@', '.', '"', '\\', ';', ' ', '\n', '+', '-', '0', '1', '7', 't', 'f', 'x', 'b', 'a', 'n', 'g',
       '\u03bb', '|', '[', '\r', '\x01', '\x7f', '!', 'D', '/']
A40 = A33 + ['\0', '{', '9', 'A', '\u3042', '\U0010ffff']
A24 = ['(', ')', '#', "'", ',', '@', '.', '"', '\\', ';', ' ', '\n', '+', '-', '0', '1', 't', 'x', 'b', 'a', 'n', '\u03bb', '|', 'D']
A14 = ['(', ')', '#', "'", ',', '@', '.', '"', '\\', ' ', '\n', '1', 'x', 'a']
A12 = ['(', ')', '#', "'", '.', '"', '\\', ' ', ';', '\n', 'x', '1']
T20 = ['(', ')', '#(', "'", '`', ',', ',@', ' . ', '...', 'a', '12', '"s;"', '#\\a', '#t', ' ', ';c\n', ';\r', '-', '#x1F', '#\\(', '""']
T12 = ['(', ')', '#(', "'", ',@', ' . ', 'a', '"s"', '#\\a', ' ', ';c\n', '#\\space']

# token sequences with every kind of atmosphere in every gap
K7 = ['(', ')', '#(', "'", '.', 'a', '"s"']
K12 = K7 + [',@', '1', '#\\a', '#t', '...']
ATM = ['', '\t', '\n', ';c\n', ';)\r', ' ;(\n ', ';"\n;|\n', '\x0c', '\v', '\r\n']
ATM3 = ['', ';c\n', '\n']
def atmos(al, n, first, two):
    for rest in itertools.product(al, repeat=n - 1):
        ts = (first,) + rest
        if rest and rest.count('(') + rest.count('#(') >= n - 1: continue
        g = [''] + [' '] * (n - 1) + ['']
        def tx(): return ''.join(x + y for x, y in zip(g, ts)) + g[n]
        for i in range(1, n + 1):
            old = g[i]
            for a in ATM:
                if a == old: continue
                g[i] = a; yield tx()
                if two and a in ATM3:
                    for j in range(i + 1, n + 1):
                        oj = g[j]
                        for b in ATM3:
                            if b != oj: g[j] = b; yield tx()
                        g[j] = oj
            g[i] = old
def names():
    o = []
    for n in list(reader.NAMES) + ['NUL', 'linefee', 'spaces', 'foo', 'x', 'xx', 'x41', 'X41', 'U+41', 'rubout', 'altmode', 'null']:
        for k in range(1, len(n) + 1): o.append('#\\' + n[:k])
        o += ['#\\' + n.upper(), '#\\' + n.capitalize(), '#\\' + n + 'a', '#\\' + n + '(', '#\\' + n + ' ', '#\\' + n[:-1] + n[-1].upper(), '#\\' + n + '\u03bb', '#\\\u03bb' + n]
        # first character replaced by one that is equal modulo 256
        o += ['#\\' + chr(0x100 + ord(n[0])) + n[1:], '#\\' + chr(0x4e00 + ord(n[0])) + n[1:], '#\\' + n[0] + chr(0x100 + ord(n[-1]))]
    for i in range(0, 0x180): o += ['#\\' + chr(i), '#\\%s(' % chr(i), '#\\%s%s' % (chr(i), chr(i))]
    hexs = [0, 1, 9, 0x1f, 0x20, 0x41, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7fe, 0xd7ff, 0xd800, 0xd801, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffe, 0xffff,
            0x10000, 0xfffff, 0x100000, 0x10fffe, 0x10ffff, 0x110000, 0x7fffffff, 0x80000000, 0x80000041, 0xffffffff, 0x100000041]
    for h in hexs:
        for w in range(1, 12):
            for f in ('%0*x', '%0*X'):
                t = f % (w, h)
                if len(t) > w and w > 1: continue
                o += ['#\\x' + t, '"\\x' + t + ';"', '"\\x' + t + '"', '"a\\x' + t + ';b"', '#\\x' + t + 'g', '"\\x' + t + ' ;"', "(#\\x" + t + ")"]
    for d in 'ghGx-+ ;"\\\n': o += ['#\\x' + d, '"\\x' + d + ';"', '#\\x1' + d, '"\\x1' + d + ';"']
    for i in range(0, 256): o += ['"\\' + chr(i) + '"', '"a' + chr(i) + 'b"', 'a' + chr(i) + 'b', chr(i), '#' + chr(i), "'" + chr(i), ',' + chr(i), '.' + chr(i) + ' ', '(a .' + chr(i) + 'b)', '(a . b' + chr(i) + ')', '1' + chr(i), '-' + chr(i), ';' + chr(i) + 'a', ';a' + chr(i) + 'b\nc', '(a;' + chr(i) + ')\n)', '"s"' + chr(i) + 'a', '#t' + chr(i) + 'a', '#\\a' + chr(i), '(' + chr(i) + 'a)', "#(" + chr(i) + 'a)', ',@' + chr(i) + 'a', ';' + chr(i)]
    return o

def numbers(cfg):
    o = []
    lo, hi = LIM[cfg]
    for v in [0, 1, 7, 8, 9, 10, 15, 16, hi - 1, hi, hi + 1, -lo, -lo + 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 62, 2 ** 63 - 1, 2 ** 63, 2 ** 63 + 1, 2 ** 64 - 1, 2 ** 64, 2 ** 64 + 1, 2 ** 70]:
        for s in ('', '+', '-'):
            for z in ('', '0', '000'):
                for p, f in (('', '%d'), ('#d', '%d'), ('#o', '%o'), ('#x', '%x'), ('#x', '%X')):
                    o.append(p + s + z + f % v)
                o.append('#b' + s + z + bin(v)[2:])
    for p in ('', '#d', '#o', '#x', '#b', '#i', '#e', '#X', '#B', '#x#e'):
        for t in ['', '+', '-', '++1', '+-1', '--1', '1+', '1-', '1.', '1.0', '.1', '1e2', '1/2', '0x1', '1_', ' 1', '2', '8', 'a', 'F', 'g', '1a', '12 ', '1"s"', '1(', '1;', "1'", '+1(', '1i', '+i', '-a', '+a', '+.', '-.', '1#', '\u0661', '1\u03bb', '-\u03bb']:
            o.append(p + t)
    for n in (40, 58, 59): o += ['0' * n + '1', '#b' + '1' * n, '#x' + 'f' * n, '-' + '9' * n]
    for n in (61, 63, 64, 65, 66, 67, 68, 100, 200): o += ['1' * n, '#b' + '1' * n, '-' + '0' * n, '+' + 'a' * n]
    return o

def buffers():
    """symbols, strings and comments around the internal buffer sizes"""
    o = []
    mb = ['\u03bb', '\u3042', '\U0001f600']
    for n in list(range(50, 80)) + list(range(120, 136)) + [255, 256, 257, 1000]:
        o += ['a' * n, '"' + 'a' * n + '"', ';' + 'a' * n + '\nb', '(' + 'b' * n + ')', '"' + 'a' * n, 'a' * n + '"x"', '"' + '\\n' * n + '"', '"' + 'a' * n + '\\x3042;"']
        for c in mb:
            o += ['a' * n + c + 'b', '"' + 'a' * n + c + 'b"', 'a' * n + c, c * n, '"' + c * n + '"', '"' + 'a' * n + c, '(' + c * n + ' . ' + c + ')', '"' + 'a' * n + c + '\\"' + c + '"', 'a' * n + c * 5 + 'b']
            for k in range(1, 6): o += ['a' * n + c * k + ')', 'a' * k + c * n + 'b(', '"' + 'a' * k + c * n + '\\\\"']
    for n in (1, 2, 10, 100, 500, 2000):
        o += ['(' * n + 'a' + ')' * n, '(' * n, ')' * n, "'" * n + 'a', "'" * n, '#(' * n + ')' * n, '(' * n + ')' * (n - 1), '(a . ' * n + 'b' + ')' * n, ',@' * n + 'x', '`,' * n + 'x',
              '(a ' * n + '. b' + ')' * n, '(' + 'a ' * n + ')', '(' + 'a ' * n + '. b)', ' ' * n + 'a', '\n;x' * n + '\na', '#(' + '1 ' * n + ')', '(' + '#\\a' * n + ')', '(' + '"s"' * n + ')']
    return o

LONG = ['(define (f x . y) (if (<= x 10) `(a ,x ,@y . z) #(1 "s\\n\\x41;" #\\a #\\space #\\x3bb)))',
        "'(a . (b . (c . ()))) ; comment\n\"str\\\"ing\" #t #f #x-1F #b101 +5 - ... a.b",
        "(let loop ((i 0)) ;c\n\t(cond ((= i 3) => list) (else 'x)))\r\n#\\) #\\( #\\\" #\\; #\\# a|b",
        '("\u3042\\t\u03bb" \u03bb\u3042 #\\\u3042 . \u03bb)(())#()"" \'() ,x ,@(y) ...',
        "#(a #(b (c . d)) #\\newline)\"a;b\"'a`b,c,@d;e\n(1 . 2)(+1 -1)"]

def mutations():
    o = []
    for t in LONG:
        for i in range(len(t) + 1):
            o.append(t[:i])
            o.append(t[i:])
            if i < len(t): o.append(t[:i] + t[i + 1:])
            for c in A24:
                o.append(t[:i] + c + t[i:])
                if i < len(t): o.append(t[:i] + c + t[i + 1:])
    return o

def decoded(codec, b):
    """the characters of bytes b, None when not judged"""
    from checks import c12
    if codec == 'UTF-8':
        return b.decode('utf-8', 'surrogateescape')
    o, s = c12.dec(codec, b)
    if s == '?' or any(0xd800 <= c <= 0xdfff or c > 0x10ffff for c in o): return None
    return ''.join(map(chr, o)) + ('\udcff' if s == 'bad' else '')

def bytetexts(codec):
    cl = {'UTF-8': [0x22, 0x61, 0x20, 0x28, 0x29, 0x23, 0x5c, 0x3b, 0x0a, 0x80, 0xbf, 0xc2, 0xe3, 0xed, 0x81, 0xf0, 0xf4, 0xff],
          'EUC-JP': [0x22, 0x61, 0x20, 0x28, 0x29, 0x23, 0x5c, 0x3b, 0x0a, 0xa4, 0xa2, 0xfe, 0x8e, 0x8f, 0x80],
          'Shift_JIS': [0x22, 0x61, 0x20, 0x28, 0x29, 0x23, 0x5c, 0x3b, 0x0a, 0x82, 0xa0 - 0, 0xb1, 0xfc, 0x40, 0x7c],
          'ISO-8859-1': [0x22, 0x61, 0x20, 0x28, 0x29, 0x23, 0x5c, 0x3b, 0x0a, 0xe9, 0xa0, 0xff, 0x80]}
    cl['EUC-CN'] = cl['EUC-KR'] = cl['EUC-JP']
    al = cl[codec]
    o = [bytes(t) for n in (1, 2, 3, 4) for t in itertools.product(al, repeat=n)]
    # every character class inside a string, a character and a symbol
    for t in itertools.product(al, repeat=2):
        b = bytes(t)
        for pre, post in ((b'"', b'"'), (b'(#\\', b')'), (b'"a', b'\\\\"'), (b';', b'\na'), (b'x', b' y'), (b"'(a . ", b')'), (b'#\\', b''), (b'"\\', b'"'), (b'#(', b')'), (b'a;', b'\n"b"'), (b'.', b'.'), (b'(a .', b' b)')):
            o.append(pre + b + post)
    return o

def chunk(name, seq, n, *spec):
    return [(name, i, n) + spec for i in range(n)]

def items(tier):
    o = []
    th = tier == 'thorough'
    cf = [('compact', 'rel'), ('fatty', 'rel')]
    if th: cf.append(('compact', 'asan'))
    for cfg, fl in cf:
        o += [('chars', 'A33' if not th else 'A40', 4, i, cfg, fl) for i in range(len(A33 if not th else A40))] if cfg == 'compact' and fl == 'rel' else [('chars', 'A33', 3, -1, cfg, fl)]
    o += [('chars', 'A14', 5, i, 'compact', 'rel') for i in range(14)]
    if th:
        o += [('chars', 'A24', 5, i, 'compact', 'rel') for i in range(24)]
        o += [('chars', 'A12', 6, i, 'compact', 'rel') for i in range(12)]
        o += [('chars', 'T20', 5, i, 'compact', 'rel') for i in range(20)]
        o += [('chars', 'T12', 5, i, 'fatty', 'asan' if 0 else 'rel') for i in range(12)]
    else:
        o += [('chars', 'T20', 4, -1, 'compact', 'rel')]
        o += [('chars', 'T12', 5, i, 'compact', 'rel') for i in range(12)]
    for n in range(2, 7 if th else 6): o += [('atm', 'K7', n, f, n < 6, 'compact', 'rel') for f in K7 if f != ')']
    if not th: o += [('atm', 'K7', 6, f, False, 'compact', 'rel') for f in ('(', '#(')]
    else:
        o += [('atm', 'K12', 5, f, False, 'compact', 'rel') for f in K12 if f != ')']
        o += [('atm', 'K7', 7, '(', False, 'fatty', 'rel')]
    o += [('chars', 'A33', 3, -1, 'compact', 'asan'), ('chars', 'T20', 3, -1, 'compact', 'asan')]
    for cfg, fl in (('compact', 'rel'), ('fatty', 'rel'), ('compact', 'asan')):
        o += [('set', s, cfg, fl, m) for s in ('names', 'numbers', 'buffers') for m in ('r', 'R')]
    for k in range(8):
        o.append(('mut', k, 'compact', 'rel', 'r'))
        if th: o += [('mut', k, 'compact', 'asan', 'r'), ('mut', k, 'fatty', 'rel', 'R')]
    o += [('mut', k, 'compact', 'asan', 'r') for k in range(1)]
    for c in ('UTF-8', 'EUC-JP', 'EUC-CN', 'EUC-KR', 'Shift_JIS', 'ISO-8859-1'):
        o.append(('bytes', c, 'compact', 'rel', 'r'))
        o.append(('bytes', c, 'compact', 'asan', 'R'))
    o.sort(key=lambda i: (i[0] != 'bytes', i[0] != 'mut', i[0] != 'set'))
    return o

def enc_model(s, codec):
    if codec == 'UTF-8': return s.encode('utf-8', 'surrogateescape')
    o = bytearray()
    for ch in s:
        c = ord(ch)
        if c > 0xffff: o += bytes([c >> 16, c >> 8 & 255, c & 255])
        elif c > 0xff: o += bytes([c >> 8, c & 255])
        else: o.append(c)
    return bytes(o)

def run_texts(st, texts, cfg, fl, mode, codec='UTF-8'):
    """texts: bytes or str"""
    spec = dict(cfg=cfg, flavor=fl, enc=None if codec == 'UTF-8' else codec)
    reader.UNICODE = codec == 'UTF-8'
    lim = LIM['fatty' if cfg == 'fatty' else 'compact']
    exp = []
    cases = []
    for t in texts:
        b = t.encode('utf-8', 'surrogateescape') if isinstance(t, str) else t
        s = t if isinstance(t, str) else decoded(codec, b)
        if s is None:
            e = None
        else:
            try:
                r = reader.session(s, lim)
                if r[-1].n == 'err': st.add('errors')
                st.add('data', len(r) // 2)
                e = enc_model(wr(ls_(r)), codec)
            except reader.Open:
                e = None
            except RecursionError:
                e = None
        if e is None: st.add('unjudged')
        exp.append(e)
        cases.append(core.case(b, 'w' + mode))
    def judge(i, r):
        if r.kind in core.CRASH: return 'the reader crashed or hung'
        if exp[i] is not None and (r.kind != 'V' or r.val != exp[i]):
            return 'reading this datum by datum should give %s' % exp[i].decode('utf-8', 'backslashreplace')
    core.compare(st, spec, cases, judge)
    st.add('states', len(cases)); st.add('transitions', len(cases))
    if cases:
        k = len(cases) // 2
        st.sample('%r => %s' % (cases[k][0][:80], (exp[k] or b'?')[:80].decode('utf-8', 'backslashreplace')), 1)

def run_item(item, st, tier):
    import sys
    sys.setrecursionlimit(200000)
    import threading
    kind = item[0]
    if kind == 'chars':
        _, an, n, first, cfg, fl = item
        al = globals()[an]
        buf = []
        def flush():
            run_texts(st, buf, cfg, fl, 'r'); buf.clear()
        if first < 0:
            gen = (''.join(t) for k in range(0, n + 1) for t in itertools.product(al, repeat=k))
        else:
            gen = (al[first] + ''.join(t) for t in itertools.product(al, repeat=n - 1))
        for t in gen:
            buf.append(t)
            if len(buf) >= 20000: flush()
        flush()
    elif kind == 'atm':
        _, an, n, first, two, cfg, fl = item
        buf = []
        for t in atmos(globals()[an], n, first, two):
            buf.append(t)
            if len(buf) >= 20000: run_texts(st, buf, cfg, fl, 'r'); buf.clear()
        run_texts(st, buf, cfg, fl, 'r')
    elif kind == 'set':
        _, s, cfg, fl, m = item
        ts = numbers(cfg) if s == 'numbers' else globals()[s]()
        big = None
        def go():
            run_texts(st, ts, cfg, fl, m)
        threading.stack_size(512 << 20)
        t = threading.Thread(target=go); t.start(); t.join()
    elif kind == 'mut':
        _, k, cfg, fl, m = item
        run_texts(st, mutations()[k::8], cfg, fl, m)
    else:
        _, c, cfg, fl, m = item
        run_texts(st, bytetexts(c), cfg, fl, m, c)
