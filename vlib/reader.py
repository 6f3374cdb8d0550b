"""Reference reader: the documented lexical syntax (see the header of read.c and
doc/spec.txt) on a sequence of characters.

read(s, i) -> (datum, next index); EOF datum at the end; RErr when the text is
not a datum.  Unjudged texts (the documents leave them open) raise Open."""
from .model import Sym, Char, Pair, NIL, Str, Vec, EOF, ls

class RErr(Exception): pass
class Open(Exception): pass

UNICODE = True       # is the codec of the port a Unicode one?

WS = set(' \t\n\r\v\f')
TOKEN = set('()#\'`,"|{}[];')
CTRL = {chr(i) for i in range(32)} | {'\x7f', '\\'}
DELIM = WS | TOKEN | CTRL
SPECIAL = set('!$%&*/:<=>?^_~')
NAMES = {'nul': 0, 'alarm': 7, 'backspace': 8, 'tab': 9, 'newline': 10, 'linefeed': 10, 'vtab': 11, 'page': 12,
         'return': 13, 'esc': 27, 'space': 32, 'delete': 127}
ESC = {'"': '"', '\\': '\\', 'n': '\n', 'a': '\a', 'b': '\b', 't': '\t', 'v': '\v', 'f': '\f', 'r': '\r'}
HEX = set('0123456789abcdefABCDEF')
QUOTE = {"'": 'quote', '`': 'quasiquote'}
MAXTOK = 60     # longer numbers may exceed a token buffer
RADIX = {'b': 2, 'o': 8, 'd': 10, 'x': 16}

def bad(c): return '\udc80' <= c <= '\udcff'      # part of an invalid byte sequence

def skip(s, i):
    n = len(s)
    while i < n:
        c = s[i]
        if bad(c): raise RErr('invalid sequence')
        if c == ';':
            while i < n and s[i] not in '\n\r':
                if bad(s[i]): raise RErr('invalid sequence')
                i += 1
        elif c in WS: i += 1
        else: break
    return i

def token(s, i):
    """a token: the first character whatever it is, then up to a delimiter"""
    if i >= len(s): raise RErr('EOF at a token')
    j = i + 1
    while j < len(s) and s[j] not in DELIM: j += 1
    for c in s[i:j]:
        if bad(c): raise RErr('invalid sequence')
        if not UNICODE and ord(c) > 127: raise RErr('non-ASCII token')
    return s[i:j], j

def number(t, radix, lim):
    u = t[1:] if t[:1] in ('+', '-') else t
    if not u: raise RErr('number')
    v = 0
    for c in u:
        d = '0123456789abcdef'.find(c.lower()) if ord(c) < 128 else -1
        if d < 0 or d >= radix: raise RErr('number')
        v = v * radix + d
    if t[0] == '-': v = -v
    if len(t) > MAXTOK: raise Open()
    if not lim[0] <= v <= lim[1]: raise RErr('number out of range')
    return v

def hexseq(t):
    """xHHHH: None if not of that form"""
    if len(t) < 2 or t[0] != 'x' or any(c not in HEX for c in t[1:]): return None
    if len(t) > 9:
        raise RErr('too long')
    v = int(t[1:], 16)
    if v > 0x10ffff or 0xd800 <= v <= 0xdfff: raise RErr('not a Unicode scalar')
    return v

def read(s, i, lim):
    i = skip(s, i)
    n = len(s)
    if i >= n: return EOF, i
    c = s[i]
    if ord(c) > 127 or c.isalpha() or c in SPECIAL:
        t, j = token(s, i)
        return Sym(t), j
    if c.isdigit():
        t, j = token(s, i)
        return number(t, 10, lim), j
    if c in '+-':
        t, j = token(s, i)
        if len(t) == 1: return Sym(t), j
        return number(t, 10, lim), j
    if c == '.':
        t, j = token(s, i)
        if t == '...': return Sym(t), j
        raise RErr('dot')
    if c == '(': return read_list(s, i + 1, lim)
    if c == '"': return read_string(s, i + 1)
    if c in QUOTE: return quoted(s, i + 1, QUOTE[c], lim)
    if c == ',':
        if s[i + 1:i + 2] == '@': return quoted(s, i + 2, 'unquote-splicing', lim)
        return quoted(s, i + 1, 'unquote', lim)
    if c == '#':
        d = s[i + 1:i + 2]
        if d == 't': return True, i + 2
        if d == 'f': return False, i + 2
        if d == '(':
            l, j = read_list(s, i + 2, lim, True)
            v = []
            while isinstance(l, Pair):
                v.append(l.car); l = l.cdr
            if l is not NIL: raise RErr('dotted vector')
            return Vec(v), j
        if d == '\\': return read_char(s, i + 2)
        if d and d in RADIX:
            t, j = token(s, i + 2)
            return number(t, RADIX[d], lim), j
        raise RErr('#')
    raise RErr('character %r' % c)

def quoted(s, i, name, lim):
    x, j = read(s, i, lim)
    if x is EOF: raise RErr('EOF in quote')
    return ls(Sym(name), x), j

def read_char(s, i):
    if i >= len(s): raise RErr('EOF in #\\')
    c = s[i]
    if bad(c): raise RErr('invalid sequence')
    if i + 1 >= len(s) or s[i + 1] in DELIM: return Char(c), i + 1
    t, k = token(s, i)
    if not UNICODE and t[0] == 'x' and len(t) > 1: raise Open()
    v = hexseq(t)
    if v is not None: return Char(v), k
    if t.lower() in NAMES and t.isascii(): return Char(NAMES[t.lower()]), k
    raise RErr('char name')

def read_string(s, i):
    o = []
    n = len(s)
    while True:
        if i >= n: raise RErr('EOF in string')
        c = s[i]; i += 1
        if c == '"': return Str(o, True), i
        if c == '\\':
            if i >= n: raise RErr('EOF in string')
            c = s[i]; i += 1
            if c == 'x':
                if not UNICODE: raise Open()
                k = i
                while k < n and s[k] not in DELIM: k += 1
                v = hexseq('x' + s[i:k])
                if v is None or v == 0: raise RErr('hex escape')
                if s[k:k + 1] != ';': raise RErr('hex escape without ;')
                o.append(chr(v)); i = k + 1
            elif c in ESC: o.append(ESC[c])
            else: raise RErr('escape')
        elif c == '\0': raise RErr('NUL')
        elif bad(c): raise RErr('invalid sequence')
        else: o.append(c)

def read_list(s, i, lim, vec=False):
    xs = []
    n = len(s)
    while True:
        i = skip(s, i)
        if i >= n: raise RErr('EOF in list')
        c = s[i]
        if c == ')':
            r = NIL
            for x in reversed(xs): r = Pair(x, r)
            return r, i + 1
        if c == '.':
            t, j = token(s, i)
            if t == '...':
                xs.append(Sym(t)); i = j; continue
            if t != '.' or j >= n or s[j] not in WS: raise RErr('dot')
            if not xs: raise RErr('dot first')
            x, j = read(s, j, lim)
            if x is EOF: raise RErr('EOF')
            j = skip(s, j)
            if s[j:j + 1] != ')': raise RErr('dot')
            if vec and (x is NIL or isinstance(x, Pair)): raise Open()
            r = x
            for y in reversed(xs): r = Pair(y, r)
            return r, j + 1
        x, i = read(s, i, lim)
        xs.append(x)

def session(s, lim):
    """what reading s datum by datum gives: (items, final) items = datum, next char or 'eof'"""
    o = []
    i = 0
    while True:
        try:
            x, i = read(s, i, lim)
        except RErr:
            o.append(Sym('err')); return o
        if x is EOF:
            o.append(Sym('eof')); return o
        o.append(x)
        if i >= len(s): o.append(Sym('eof'))
        elif bad(s[i]):
            o.append(Sym('err')); return o
        else: o.append(Char(s[i]))
