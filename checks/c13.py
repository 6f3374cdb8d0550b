"""C13: strings and characters as sequences of characters."""
import itertools
from vlib import core, table
from vlib.table import V, E, Exp
from vlib.model import *
from vlib.applic import *

ID = 'C13'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of procedure applications and of all mutation histories up to a depth on the real code against a list-of-characters model'
NOTE = 'Bounded: all characters of the BMP edges and every character below U+0250 (all characters in the thorough tier), all pairs over a boundary set, all pairs of strings of length <= 3 over characters of every byte length and case, every index in and around the valid range, every history of mutations of three strings to the stated depth; both storage layouts, part of it under AddressSanitizer. Case conversion is the ASCII one this build documents.'
BUILDS = [('compact', 'rel'), ('fatty', 'rel'), ('compact', 'asan')]
BOUNDS = {'quick': 'histories of depth 5 over 12 mutations; strings of length <= 3 over 5 characters',
          'thorough': 'histories of depth 6 over 12 mutations; all Unicode characters; strings of length <= 4 over 4 characters'}
NONVACUOUS = {'states': 200000, 'error_cases': 1000}

def err(): raise SErr('domain')
A1, A2, A3, A4 = 'a', '\u00e9', '\u3042', '\U0001f600'

def up(n): return n - 32 if 97 <= n <= 122 else n
def dn(n): return n + 32 if 65 <= n <= 90 else n
def tf(x): return '#t' if x else '#f'
def chrow(n):
    al = 65 <= n <= 90 or 97 <= n <= 122
    return '(#t %d %s %s %s %s %s %d %d #t #t #t #f #f #f)' % (n, tf(al), tf(48 <= n <= 57), tf(n == 32 or 9 <= n <= 13), tf(65 <= n <= 90), tf(97 <= n <= 122), up(n), dn(n))
def cmps(a, b, fold):
    c, d = fold(a), fold(b)
    return ' '.join(tf(x) for x in (a == b, a < b, a > b, a <= b, a >= b, c == d, c < d, c > d, c <= d, c >= d))

def st_(x):
    if not isinstance(x, Str): err()
    return x
def ch_(x):
    if not isinstance(x, Char): err()
    if x.c == 0: err()
    return chr(x.c)
def in_(x):
    if type(x) is not int: err()
    return x

def m_make(n, *c):
    if len(c) > 1: err()
    n = in_(n)
    if n < 0: err()
    if c and n:
        ch_(c[0])
    if not c: return ('len', n)
    if n == 0 and not isinstance(c[0], Char): raise Either(Str(''))
    if n == 0: return Str('')
    return Str(ch_(c[0]) * n)
def m_string(*c): return Str([ch_(x) for x in c])
def m_ref(s, k):
    st_(s); in_(k)
    if not 0 <= k < len(s.s): err()
    return Char(s.s[k])
def m_set(s, k, c):
    st_(s); in_(k); c = ch_(c)
    if s.lit: err()
    if not 0 <= k < len(s.s): err()
    s.s[k] = c
    return UNDEF
def m_fill(s, c):
    st_(s); c = ch_(c)
    if s.lit: err()
    s.s[:] = [c] * len(s.s)
    return UNDEF
def m_sub(s, a, b):
    st_(s); in_(a); in_(b)
    if not 0 <= a <= b <= len(s.s): err()
    return Str(s.s[a:b])
def m_append(*ss): return Str([c for s in ss for c in st_(s).s])
def m_l2s(l): return Str([ch_(x) for x in pl(l)])

SPEC = []
def proc(name, model, args, mode='s', after=True, order=True): SPEC.append(dict(name=name, model=model, args=args, mode=mode, after=after, order=order))
def X(*p): return list(itertools.product(*p))

def build(tier):
    SPEC.clear()
    q = tier == 'quick'
    chars = (A1, A2, A3, A4)
    strs = [A(Str(''.join(t))) for n in range(0, 4 if q else 5) for t in itertools.product(chars, repeat=n)]
    few = [A(Str(''.join(t))) for n in range(0, 3) for t in itertools.product(chars, repeat=n)]
    lits = [Arg('"%s"' % s, lambda s=s: Str(s, True)) for s in ('', 'a', A3, 'a' + A2, A4 + 'ab')]
    syms = [Arg("(symbol->string '%s)" % s, lambda s=s: Str(s, True)) for s in ('abc', A3)]
    cs = [A(Char(c)) for c in ('a', 'Z', '~', '\x7f', '\x80', A2, '\u07ff', '\u0800', A3, '\uffff', '\U00010000', A4)] + [Arg('(integer->char 0)', lambda: Char(0))]
    odd = [A(x) for x in (5, Sym('a'), ls(Char('a')), NIL, True, Vec([1]))] + [A(Char('x')), A(Str('z'))]
    idx = [A(i) for i in range(-1, 5 if q else 6)] + [A(x) for x in (Char('a'), Str('1'), Sym('a'), 1 << 40, -(1 << 58))]
    long_ = [A(Str((A1 + A2 + A3 + A4) * n)) for n in (4, 16, 64, 256)]
    proc('string?', lambda x: isinstance(x, Str), X(strs + lits + odd))
    proc('string-length', lambda s: len(st_(s).s), X(strs + lits + odd + long_))
    proc('string-ref', m_ref, X(strs + lits, idx) + X(odd, idx[:3]) + X(long_, [A(i) for i in range(0, 1024, 37)]))
    proc('string-set!', m_set, X(strs[:150], idx, cs[::2] + cs[-1:]) + X(few, idx[:4], cs + odd) + X(lits + syms, idx[:4], cs[:3]) + X(odd, idx[:3], cs[:1]) + X(long_, [A(i) for i in range(0, 1024, 111)], cs))
    proc('string-fill!', m_fill, X(strs, cs) + X(few + lits + syms, cs + odd) + X(odd, cs[:1]) + X(long_, cs))
    proc('substring', m_sub, X(strs + lits, idx[:6], idx[:6]) + X(few[-5:], idx, idx) + X(odd, idx[:2], idx[:2]) + X(long_, [A(i) for i in range(0, 18, 3)], [A(i) for i in range(0, 18, 2)]))
    proc('string-append', m_append, X() + X(strs + lits + odd) + X(few + lits, few + lits) + X(few[:12], few[:8], few[:12]) + X(few, odd) + X(odd, few[:6]) + X(few[:4], few[:4], few[:4], few[:4]) + X(long_, long_))
    proc('string-copy', lambda s: Str(st_(s).s), X(strs + lits + syms + odd + long_))
    proc('string->list', lambda s: ls_([Char(c) for c in st_(s).s]), X(strs + lits + syms + odd + long_))
    lst = [A(ls_([Char(c) for c in s.make().s])) for s in strs + long_]
    proc('list->string', m_l2s, X(lst) + X([A(ls(Char('a'), tail=Char('b'))), A(ls(Char('a'), 5)), A(ls(Str('a'))), A(ls(Char('a'), Char('b'), tail=Str('c'))), Arg('(list #\\a (integer->char 0))', lambda: ls(Char('a'), Char(0)))] + odd))
    proc('string', m_string, X() + X(cs + odd) + X(cs, cs) + X(cs[:6], cs[5:], cs[:6]) + X(cs[:3], odd))
    proc('make-string', lambda n, *c: m_make(n, *c), [t for t in X([A(i) for i in range(-1, 9)], cs) + X([A(1000)], cs) + X([A(x) for x in (Sym('a'), Str('1'), -(1 << 40))], cs[:1]) + X([A(1), A(2)], odd)])
    # conversions
    names = ['a', 'abc', 'A', '+', '...', 'x->y', A2, A3, 'a b', '1', '']
    proc('string->symbol', lambda s: Raw('', ''.join(st_(s).s)), X([A(Str(n)) for n in names] + odd[:5]))
    return SPEC

BCH = [0, 1, 8, 9, 10, 13, 14, 31, 32, 33, 47, 48, 57, 58, 64, 65, 66, 90, 91, 95, 96, 97, 98, 122, 123, 126, 127, 128, 0xe0, 0xe9, 0xff, 0x3bb, 0x7ff, 0x800, 0x3042, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff]
SCH = {'quick': ['a', 'B', '_', A2, A3], 'thorough': ['a', 'B', 'b', '_', A3]}

OPS = [  # (source, model) over strings a b c; c starts as alias of a
    ('(string-set! a 0 #\\x)', lambda e: m_set(e['a'], 0, Char('x'))),
    ('(string-set! a 1 #\\' + A3 + ')', lambda e: m_set(e['a'], 1, Char(A3))),
    ('(string-set! a 2 #\\' + A4 + ')', lambda e: m_set(e['a'], 2, Char(A4))),
    ('(string-set! b 1 #\\y)', lambda e: m_set(e['b'], 1, Char('y'))),
    ('(string-set! b 0 (string-ref a 1))', lambda e: m_set(e['b'], 0, m_ref(e['a'], 1))),
    ('(string-fill! a #\\' + A2 + ')', lambda e: m_fill(e['a'], Char(A2))),
    ('(string-fill! c #\\z)', lambda e: m_fill(e['c'], Char('z'))),
    ('(set! b (string-append a b))', lambda e: e.update(b=m_append(e['a'], e['b']))),
    ('(set! a (substring b 1 (string-length b)))', lambda e: e.update(a=m_sub(e['b'], 1, len(e['b'].s)))),
    ('(set! c a)', lambda e: e.update(c=e['a'])),
    ('(set! b (string-copy c))', lambda e: e.update(b=Str(e['c'].s))),
    ('(set! a (list->string (reverse (string->list b))))', lambda e: e.update(a=Str(e['b'].s[::-1]))),
]
def obs(s):
    cs = '(' + ' '.join(str(ord(c)) for c in s.s) + ')'
    by = '(' + ' '.join(map(str, ''.join(s.s).encode())) + ')'
    return '(%d %s %s %s)' % (len(s.s), cs, cs, by)

def hist_rows(first, depth):
    rows = []
    for d in ([depth] if first is not None else range(0, 3)):
        pool = [range(len(OPS))] * d
        if first is not None: pool[0] = [first]
        for t in itertools.product(*pool):
            env = dict(a=Str('a' + A2 + A3), b=Str('pq'))
            env['c'] = env['a']
            k = []
            for o in t:
                try:
                    OPS[o][1](env); k.append('ok')
                except SErr: k.append('e')
            src = '(let* ((a (string-copy "a%s%s")) (b (string-copy "pq")) (c a)) (let ((k (list %s))) (list k (%%obs a) (%%obs b) (%%obs c) (eq? a c))))' % (
                A2, A3, ' '.join("(guard (e (#t 'e)) %s 'ok)" % OPS[o][0] for o in t))
            rows.append((src, V('((%s) %s %s %s %s)' % (' '.join(k), obs(env['a']), obs(env['b']), obs(env['c']), tf(env['a'] is env['c'])))))
    return rows

def items(tier):
    n = len(build(tier))
    o = [(cfg, 'proc', i) for cfg in ('compact', 'fatty') for i in range(n)]
    top = 0x1000 if tier == 'quick' else 0x110000
    o += [(cfg, 'chars', i) for cfg in ('compact', 'fatty') for i in range(0, top, 0x8000)]
    o += [(cfg, 'pairs') for cfg in ('compact', 'fatty')]
    ns = sum(5 ** k for k in range(4)) if tier == 'quick' else sum(5 ** k for k in range(5))
    o += [(cfg, 'scmp', i) for cfg in ('compact', 'fatty') for i in range(0, ns, 40)]
    o += [(cfg, 'hist', f) for cfg in ('compact', 'fatty') for f in range(len(OPS))]
    o += [('asan', 'hist', f) for f in range(len(OPS))] + [('asan', 'proc', i) for i in range(n)]
    return o

def allstr(tier):
    N = 3 if tier == 'quick' else 4
    return [''.join(t) for n in range(N + 1) for t in itertools.product(SCH[tier], repeat=n)]

def run_item(item, st, tier):
    cfg, kind = item[:2]
    fl = 'rel'
    if cfg == 'asan': cfg, fl = 'compact', 'asan'
    spec = dict(cfg=cfg, flavor=fl, files=['rows.scm', 'str.scm', 'tr.scm'])
    if kind == 'proc':
        sp = build(tier)[item[2]]
        args = sp['args'] if fl == 'rel' else sp['args'][::5]
        if sp['name'] == 'make-string':
            rows = [row(sp, a) for a in args]
            rows += [('(let ((s (make-string %d))) (list (string? s) (string-length s) (length (string->list s))))' % n, V('(#t %d %d)' % (n, n)) if n >= 0 else E()) for n in range(-2, 40)]
        else:
            rows = [row(sp, a, i % 5 // 4) for i, a in enumerate(args)]
        table.run(st, spec, rows, mode=sp['mode'])
        if sp['name'] == 'string->symbol':
            rows = [('(let* ((s (string-copy "%s")) (y (string->symbol s))) (string-fill! s #\\z) (list (symbol->string y) (eq? y (string->symbol "%s")) (string=? (symbol->string (string->symbol "%s")) "%s")))' % (n, n, n, n), V('("%s" #t #t)' % n)) for n in ['a', 'abc', 'A', 'hello world', '+', A2, A3, A4 + 'x', '()', '"'.replace('"', "'")]]
            rows += [("(eq? (string->symbol \"%s\") (string->symbol \"%s\"))" % (a, b), V(tf(a == b))) for a in ('a', 'A', 'ab', 'ba', A2, A3) for b in ('a', 'A', 'ab', 'ba', A2, A3)]
            table.run(st, spec, rows)
    elif kind == 'chars':
        top = 0x1000 if tier == 'quick' else 0x110000
        rows = [('(%%chrow %d)' % n, V(chrow(n))) for n in range(item[2], min(top, item[2] + 0x8000)) if not 0xd800 <= n <= 0xdfff]
        table.run(st, spec, rows)
        if not item[2]:
            rows = [('(integer->char %d)' % n, E()) for n in (-1, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0x110000, 1 << 32, (1 << 32) + 65, -(1 << 58))]
            rows += [('(%s %s)' % (f, x), E()) for f in ('char->integer', 'char-upcase', 'char-downcase', 'char-alphabetic?', 'char-numeric?', 'char-whitespace?', 'char-upper-case?', 'char-lower-case?') for x in ('65', '"a"', "'a", '#t', "'()")]
            rows += [('(integer->char %s)' % x, E()) for x in ('#\\a', '"a"', "'a", '#f')]
            rows += [('(char? %s)' % x, V(tf(v))) for x, v in (('#\\a', 1), ('#\\space', 1), ('65', 0), ('"a"', 0), ("'a", 0), ("'()", 0), ('#t', 0), ("'#(#\\a)", 0), ('car', 0))]
            table.run(st, spec, rows)
    elif kind == 'pairs':
        rows = [('(%%chpair %d %d)' % (a, b), V('(%s)' % cmps(a, b, dn))) for a in BCH for b in BCH]
        rows += [('(%s %s)' % (f, x), E()) for f in ('char=?', 'char<?', 'char>?', 'char<=?', 'char>=?', 'char-ci=?', 'char-ci<?', 'char-ci>?', 'char-ci<=?', 'char-ci>=?') for x in ('#\\a 65', '65 #\\a', '#\\a "a"', "'a #\\a")]
        rows += [('(%s %s)' % (f, x), E()) for f in ('string=?', 'string<?', 'string>?', 'string<=?', 'string>=?', 'string-ci=?', 'string-ci<?', 'string-ci>?', 'string-ci<=?', 'string-ci>=?') for x in ('"a" 65', '65 "a"', '#\\a "a"', "'a \"a\"")]
        wide = [c for c in range(0x20, 0x7f)]
        rows += [('(%%spair "%s" "%s")' % tuple(chr(c).replace('\\', '\\\\').replace('"', '\\"') for c in (a, b)), V('(%s)' % cmps(a, b, dn))) for a in wide for b in wide[::3]]
        table.run(st, spec, rows)
    elif kind == 'scmp':
        al = allstr(tier)
        fold = lambda s: [dn(ord(c)) for c in s]
        for a in al[item[2]:item[2] + 40]:
            rows = [('(%%spair "%s" "%s")' % (a, b), V('(%s)' % cmps2(a, b))) for b in al]
            table.run(st, spec, rows)
    elif kind == 'hist':
        D = (5 if tier == 'quick' else 6) - (fl == 'asan')
        for d in range(1, D + 1):
            table.run(st, spec, hist_rows(item[2], d))

def cmps2(a, b):
    x, y = [ord(c) for c in a], [ord(c) for c in b]
    c, d = [dn(n) for n in x], [dn(n) for n in y]
    return ' '.join(tf(v) for v in (x == y, x < y, x > y, x <= y, x >= y, c == d, c < d, c > d, c <= d, c >= d))
