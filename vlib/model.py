"""Scheme data in Python: mutable, with the writer of the interpreter."""

class Sym:
    __slots__ = ('n',)
    _tab = {}
    def __new__(cls, n):
        s = cls._tab.get(n)
        if s is None:
            s = object.__new__(cls); s.n = n; cls._tab[n] = s
        return s
    def __repr__(self): return self.n
    def __reduce__(self): return (Sym, (self.n,))

class Char:
    __slots__ = ('c',)
    def __init__(self, c): self.c = c if isinstance(c, int) else ord(c)
    def __eq__(self, o): return isinstance(o, Char) and o.c == self.c
    def __hash__(self): return hash(('char', self.c))
    def __repr__(self): return wr(self)

class Pair:
    __slots__ = ('car', 'cdr')
    def __init__(self, a, d): self.car = a; self.cdr = d
    def __repr__(self): return wr(self)

class _Nil:
    def __repr__(self): return '()'
    def __reduce__(self): return 'NIL'
NIL = _Nil()

class Str:
    __slots__ = ('s', 'lit')
    def __init__(self, s, lit=False): self.s = list(s); self.lit = lit
    def __repr__(self): return wr(self)

class Vec:
    __slots__ = ('v', 'lit')
    def __init__(self, v, lit=False): self.v = list(v); self.lit = lit
    def __repr__(self): return wr(self)

class _U:
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n
UNDEF = _U('#<undef>')
EOF = _U('#<eof>')

class Values:
    def __init__(self, vs): self.vs = list(vs)

class Raw:
    """an opaque object (a procedure, say) built by a Scheme expression"""
    def __init__(self, src, rep=None): self.src = src; self.rep = rep or src
    def __repr__(self): return self.rep

class SErr(Exception):
    """A Scheme error object."""

CHNAMES = {0: 'nul', 7: 'alarm', 8: 'backspace', 9: 'tab', 0xa: 'newline', 0xb: 'vtab', 0xc: 'page', 0xd: 'return',
           0x1b: 'esc', 0x20: 'space', 0x7f: 'delete'}
STRESC = {0x22: '\\"', 0x5c: '\\\\', 7: '\\a', 8: '\\b', 9: '\\t', 0xa: '\\n', 0xb: '\\v', 0xc: '\\f', 0xd: '\\r', 0: '\\x00;'}

def wr_char(c):
    if c in CHNAMES: return '#\\' + CHNAMES[c]
    if c < 0x20: return '#\\x%02x' % c
    return '#\\' + chr(c)

def wr_str(cs):
    o = ['"']
    for ch in cs:
        c = ord(ch)
        if c in STRESC: o.append(STRESC[c])
        elif c == 0x1b or c == 0x7f: o.append('\\x%02x;' % c)
        else: o.append(ch)
    o.append('"')
    return ''.join(o)

def ls(*xs, tail=NIL):
    r = tail
    for x in reversed(xs):
        r = Pair(x, r)
    return r
def ls_(xs, tail=NIL):
    r = tail
    for x in reversed(list(xs)):
        r = Pair(x, r)
    return r

def it(l):
    """elements of a (possibly improper) list"""
    while isinstance(l, Pair):
        yield l.car
        l = l.cdr
def pl(l):
    """python list of a proper list, SErr otherwise"""
    o = []
    while isinstance(l, Pair):
        o.append(l.car); l = l.cdr
    if l is not NIL: raise SErr('improper')
    return o

def labelled(x):
    return isinstance(x, (Pair, Vec)) or (isinstance(x, Str) and len(x.s) > 0)

def scan(x, seen):
    """objects met more than once"""
    st = [x]
    multi = set()
    while st:
        y = st.pop()
        if not labelled(y): continue
        if id(y) in seen:
            multi.add(id(y)); continue
        seen.add(id(y))
        if isinstance(y, Pair): st += [y.cdr, y.car]
        elif isinstance(y, Vec): st += reversed(y.v)
    return multi

def wr(x, mode='w'):
    """External representation; mode w(rite), d(isplay), s (write/ss)."""
    lab = scan(x, set()) if mode == 's' else ()
    num = {}
    disp = mode == 'd'
    def f(x):
        if x is True: return '#t'
        if x is False: return '#f'
        t = type(x)
        if t is int: return str(x)
        if t is Sym: return x.n
        if x is NIL: return '()'
        if t is Char: return chr(x.c) if disp else wr_char(x.c)
        pre = ''
        if id(x) in lab:
            if id(x) in num: return '#%d#' % num[id(x)]
            num[id(x)] = len(num) + 1
            pre = '#%d=' % num[id(x)]
        if t is Str: return pre + (''.join(x.s) if disp else wr_str(x.s))
        if t is Vec: return pre + '#(' + ' '.join([f(e) for e in x.v]) + ')'
        if t is Pair:
            o = []
            while True:
                o.append(f(x.car))
                d = x.cdr
                if isinstance(d, Pair):
                    if id(d) in lab:
                        o += ['.', f(d)]
                        return pre + '(' + ' '.join(o) + ')'
                    x = d
                    continue
                if d is not NIL:
                    o += ['.', f(d)]
                return pre + '(' + ' '.join(o) + ')'
        if t is Values:
            return '#values' + ''.join(' ' + f(e) for e in x.vs)
        return repr(x)
    return f(x)

def mk(x):
    """Scheme expression constructing x freshly (mutable)."""
    if isinstance(x, Pair):
        o = []
        y = x
        while isinstance(y, Pair):
            o.append(mk(y.car)); y = y.cdr
        if y is NIL:
            return '(list ' + ' '.join(o) + ')'
        r = mk(y)
        for e in reversed(o):
            r = '(cons %s %s)' % (e, r)
        return r
    if x is NIL: return "'()"
    if isinstance(x, Sym): return "'" + x.n
    if isinstance(x, Vec): return '(vector' + ''.join(' ' + mk(e) for e in x.v) + ')'
    if isinstance(x, Str): return '(string-copy %s)' % wr(x)
    if type(x) is Raw: return x.src
    return wr(x)

def copy(x, memo=None):
    """deep copy preserving sharing within one call"""
    if memo is None: memo = {}
    if isinstance(x, (Pair, Vec, Str)):
        k = id(x)
        if k in memo: return memo[k]
        if isinstance(x, Pair):
            p = Pair(None, None); memo[k] = p
            p.car = copy(x.car, memo); p.cdr = copy(x.cdr, memo)
            return p
        if isinstance(x, Vec):
            p = Vec([]); memo[k] = p
            p.v = [copy(e, memo) for e in x.v]
            return p
        p = Str(x.s); memo[k] = p
        return p
    return x

def eqv(a, b):
    if a is b: return True
    if isinstance(a, bool) or isinstance(b, bool): return a is b
    if isinstance(a, int) and isinstance(b, int): return a == b
    if isinstance(a, Char) and isinstance(b, Char): return a.c == b.c
    return False
def equal(a, b):
    if eqv(a, b): return True
    if isinstance(a, Pair) and isinstance(b, Pair):
        return equal(a.car, b.car) and equal(a.cdr, b.cdr)
    if isinstance(a, Str) and isinstance(b, Str): return a.s == b.s
    if isinstance(a, Vec) and isinstance(b, Vec):
        return len(a.v) == len(b.v) and all(equal(x, y) for x, y in zip(a.v, b.v))
    return False
