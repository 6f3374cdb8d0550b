"""C12: character codecs."""
import itertools, os
from vlib import core, table
from vlib.table import V, E, Exp

ID = 'C12'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of code points and byte sequences on the real codecs (strings, string ports, file ports) against reference codecs'
NOTE = 'Bounded: every code point of every codec (and the neighbourhood of every range), every byte sequence of length <= 2, every sequence of length 3 and 4 over the class boundary bytes, every string of up to 4 characters over representatives of each byte length, multi-byte characters at every offset around the stdio buffer boundary. Byte values whose meaning the codec documents leave undefined (for example 0x80 in Shift_JIS) are not judged.'
CODECS = ['UTF-8', 'EUC-JP', 'EUC-CN', 'EUC-KR', 'Shift_JIS', 'ISO-8859-1']
BUILDS = [('compact', 'rel'), ('fatty', 'rel'), ('compact', 'asan')]
BOUNDS = {'quick': 'all code points (compact); all byte pairs; 3-byte sequences over class boundaries; strings of <= 3 representatives',
          'thorough': 'all code points in both layouts; byte sequences of length 4 over class boundaries; all 3-byte sequences over 96 byte values; strings of <= 4 representatives'}
NONVACUOUS = {'states': 500000, 'invalid': 50000, 'multibyte': 100000}

# ---- reference decoders: list of ints, None = invalid from here, '?' = not judged
def dec(codec, b):
    """-> (codes, status) status 'ok', 'bad' or '?'"""
    o = []
    i = 0
    n = len(b)
    while i < n:
        c = b[i]
        if codec == 'ISO-8859-1':
            o.append(c); i += 1; continue
        if c < 0x80:
            o.append(c); i += 1; continue
        if codec == 'UTF-8':
            L = 2 if 0xc0 <= c < 0xe0 else 3 if 0xe0 <= c < 0xf0 else 4 if 0xf0 <= c < 0xf8 else 0
            if not L: return o, 'bad'
            t = b[i + 1:i + L]
            if len(t) < L - 1 or any(x & 0xc0 != 0x80 for x in t): return o, 'bad'
            v = c & (0xff >> (L + 1))
            for x in t: v = v << 6 | x & 0x3f
            if v < (0, 0, 0x80, 0x800, 0x10000)[L] or v > 0x10ffff or 0xd800 <= v <= 0xdfff: return o, 'bad'
            o.append(v); i += L; continue
        if codec == 'Shift_JIS':
            if 0xa1 <= c <= 0xdf:
                o.append(c); i += 1; continue
            if c in (0x80, 0xa0) or c >= 0xfd: return o, '?'
            if i + 1 >= n: return o, 'bad'
            d = b[i + 1]
            if not 0x40 <= d <= 0xfc or d == 0x7f: return o, 'bad'
            o.append(c << 8 | d); i += 2; continue
        # EUC
        if codec == 'EUC-JP' and c == 0x8f:
            if i + 1 < n and b[i + 1] in (0xa0, 0xff): return o, '?'
            if i + 2 >= n:
                return o, 'bad'
            if not all(0xa1 <= x <= 0xfe for x in b[i + 1:i + 3]): return o, 'bad'
            o.append(c << 16 | b[i + 1] << 8 | b[i + 2]); i += 3; continue
        if 0xa1 <= c <= 0xfe or codec == 'EUC-JP' and c == 0x8e:
            if i + 1 >= n: return o, 'bad'
            d = b[i + 1]
            if d in (0xa0, 0xff): return o, '?'
            if d < 0xa1: return o, 'bad'
            if c == 0x8e and d > 0xdf: return o, '?'
            o.append(c << 8 | d); i += 2; continue
        return o, 'bad'
    return o, 'ok'

def raw(codec, n):
    """the bytes a code point would have"""
    if n < 0 or n >= 1 << 31: return None
    if codec == 'UTF-8':
        if n > 0x10ffff or 0xd800 <= n <= 0xdfff: return None
        return chr(n).encode()
    if codec == 'ISO-8859-1': return bytes([n]) if n < 256 else None
    if n < 0x100: return bytes([n])
    if n < 0x10000: return bytes([n >> 8, n & 255])
    if n < 0x1000000: return bytes([n >> 16, n >> 8 & 255, n & 255])
    return None
def enc(codec, n):
    """bytes, None (not a character) or '?'"""
    b = raw(codec, n)
    if b is None: return None
    o, s = dec(codec, b)
    if s == '?': return '?'
    return b if s == 'ok' and o == [n] else None

BOUND = {'UTF-8': [1, 0x41, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xfb, 0xfc, 0xfe, 0xff],
         'EUC-JP': [1, 0x20, 0x41, 0x7e, 0x7f, 0x80, 0x8d, 0x8e, 0x8f, 0x90, 0x9f, 0xa0, 0xa1, 0xa2, 0xdf, 0xe0, 0xfd, 0xfe, 0xff],
         'Shift_JIS': [1, 0x20, 0x3f, 0x40, 0x5c, 0x7d, 0x7e, 0x7f, 0x80, 0x81, 0x9f, 0xa0, 0xa1, 0xdf, 0xe0, 0xef, 0xf0, 0xfb, 0xfc, 0xfd, 0xff],
         'ISO-8859-1': [1, 0x41, 0x7f, 0x80, 0xa0, 0xff]}
BOUND['EUC-CN'] = BOUND['EUC-KR'] = BOUND['EUC-JP']
REPS = {'UTF-8': [0x61, 0x7f, 0x80, 0x3bb, 0x7ff, 0x800, 0x3042, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff],
        'EUC-JP': [0x61, 0x7f, 0xa1a1, 0xa4a2, 0xfefe, 0x8ea1, 0x8edf, 0x8fa1a1, 0x8ffefe],
        'EUC-CN': [0x61, 0x7f, 0xa1a1, 0xb0a1, 0xa1fe, 0xfea1, 0xfefe],
        'EUC-KR': [0x61, 0x7f, 0xa1a1, 0xb0a1, 0xa1fe, 0xfea1, 0xfefe],
        'Shift_JIS': [0x61, 0x5c, 0x7e, 0xa1, 0xdf, 0x8140, 0x837e, 0x8380, 0x815c, 0x9ffc, 0xe040, 0xfcfc],
        'ISO-8859-1': [0x61, 0x80, 0xe9, 0xff]}

def L(xs): return '(' + ' '.join(map(str, xs)) + ')'

def codepoints(codec):
    base = list(range(0, 0x20000))
    if codec == 'UTF-8': base = list(range(0, 0x111000))
    if codec == 'EUC-JP': base += range(0x8d0000, 0x900000)
    big = [-1, -2, -97, -(1 << 31), 1 << 20, 1 << 24, 1 << 30, 1 << 31, (1 << 31) - 1, (1 << 31) + 97, 1 << 32, (1 << 32) + 97, (1 << 33) + 0xa1a1, (1 << 40) + 65, (1 << 59) - 1, -(1 << 59), -(1 << 32) + 97]
    return base + big

def items(tier):
    o = []
    for c in CODECS:
        cps = len(codepoints(c))
        for cfg in (['compact'] if tier == 'quick' else ['compact', 'fatty']):
            o += [('enc', cfg, 'rel', c, i) for i in range(0, cps, 70000)]
        for cfg, fl in (('compact', 'rel'), ('fatty', 'rel')):
            o += [('dec2', cfg, fl, c), ('dec3', cfg, fl, c)]
            o += [('str', cfg, fl, c)]
        o += [('dec3', 'compact', 'asan', c), ('str', 'compact', 'asan', c), ('file', 'compact', 'rel', c)]
        if tier == 'thorough':
            n = len(BOUND[c])
            o += [('dec4', 'compact', 'rel', c, i) for i in range(n)]
            o += [('dec3w', 'compact', 'rel', c, i) for i in range(96)]
            o += [('file', 'fatty', 'rel', c)]
    return o

def dec_rows(st, codec, seqs):
    rows = []
    for b in seqs:
        codes, s = dec(codec, b)
        if s == '?':
            st.add('unjudged'); continue
        if any(c > 0x7f for c in codes): st.add('multibyte')
        if s == 'ok':
            v = '(%s %d %s %s)' % (L(codes), len(codes), L(codes), L(codes))
            k = len(codes)
        else:
            st.add('invalid')
            k = len(codes) + 1
            v = '(err ? %s %s)' % (L(codes + ['err']), L(codes + ['err']))
        rows.append(("(%%d '%s %d)" % (L(b), k), V(v)))
    return rows

def enc_rows(st, codec, cps):
    rows = []
    for n in cps:
        b = enc(codec, n)
        if b == '?':
            st.add('unjudged'); continue
        if b is None:
            st.add('invalid')
            rows.append(('(%%e %d)' % n, V('err')))
        elif n == 0:
            rows.append(('(%%e %d)' % n, V('(0 err)')))
        else:
            if len(b) > 1: st.add('multibyte')
            rows.append(('(%%e %d)' % n, V('(%d (%s 1 %d #t #t #t #t #t #t))' % (n, L(b), n))))
    return rows

def str_rows(codec, tier):
    rows = []
    R = REPS[codec]
    D = 3 if tier == 'quick' else 4
    for k in range(0, D + 1):
        for ns in itertools.product(R, repeat=k):
            n = len(ns)
            by = b''.join(raw(codec, x) for x in ns)
            subs = ' '.join(L(ns[i:j]) for i in range(n + 1) for j in range(i, n + 1))
            rows.append(("(%%s '%s)" % L(ns), V('(%d %s %s %s (%s) %s %s #t)' % (n, L(by), L(ns), L(ns), subs, L(ns), L(ns + ns)))))
    return rows

def run_item(item, st, tier):
    kind, cfg, fl, codec = item[:4]
    spec = dict(cfg=cfg, flavor=fl, enc=codec, files=['rows.scm', 'codec.scm'])
    if kind == 'enc':
        table.run(st, spec, enc_rows(st, codec, codepoints(codec)[item[4]:item[4] + 70000]))
    elif kind == 'dec2':
        seqs = [(a,) for a in range(1, 256)] + [(a, b) for a in range(1, 256) for b in range(1, 256)]
        table.run(st, spec, dec_rows(st, codec, seqs))
    elif kind == 'dec3':
        B = BOUND[codec]
        if fl == 'asan': B = B[::2] + B[-1:]
        table.run(st, spec, dec_rows(st, codec, list(itertools.product(B, repeat=3)) + [(a, b, c, 0x41) for a in B for b in B for c in (0x80, 0xbf, 0xa1, 0xfe, 0xff)]
                                     + [(0x41,) + t for t in itertools.product(B, repeat=2)]))
    elif kind == 'dec4':
        B = BOUND[codec]
        table.run(st, spec, dec_rows(st, codec, ((B[item[4]],) + t for t in itertools.product(B, repeat=3))))
    elif kind == 'dec3w':
        B = sorted(set(BOUND[codec]) | set(range(0x80, 0x100, 2)))[:96]
        if item[4] < len(B):
            table.run(st, spec, dec_rows(st, codec, ((B[item[4]],) + t for t in itertools.product(B, repeat=2))))
    elif kind == 'str':
        rows = str_rows(codec, tier)
        if fl == 'asan': rows = rows[::7]
        table.run(st, spec, rows)
    elif kind == 'file':
        rows = []
        want = []
        d = os.path.join(core.scratch(), 'files'); os.makedirs(d, exist_ok=True)
        R = REPS[codec]
        k = 0
        for size in (4096, 8192):
            for off in range(-5, 2):
                for r in R:
                    ns = [0x61 + i % 26 for i in range(size + off)] + [r, R[-1], 0x7a]
                    k += 1
                    f = '%s/%d' % (d, k)
                    with open(f, 'wb') as fh: fh.write(b''.join(raw(codec, x) for x in ns))
                    rows.append(('(let ((l (%%filechars "%s"))) (list (length l) (list-tail l %d)))' % (f, size + off), V('(%d %s)' % (len(ns), L(ns[-3:])))))
        # files of short sequences, invalid ones included, and NUL
        B = [0] + BOUND[codec][::2] + [0xff]
        for n in range(0, 3):
            for b in itertools.product(B, repeat=n):
                codes, s = dec(codec, b)
                if s == '?': continue
                k += 1
                f = '%s/%d' % (d, k)
                with open(f, 'wb') as fh: fh.write(bytes(b))
                rows.append(('(%%filechars "%s")' % f, V(L(codes + ([] if s == 'ok' else ['err'])))))
        for ns in itertools.product([0] + R[:4] + R[-2:], repeat=3):
            k += 1
            f = '%s/%d' % (d, k)
            want.append((f, b''.join(raw(codec, x) for x in ns)))
            if 0 in ns:
                rows.append(('(guard (e (#t #t)) (%%writefile "%s" \'%s))' % (f, L(ns)), V('#t')))
            else:
                rows.append(('(%%writefile "%s" \'%s)' % (f, L(ns)), V('#t')))
        table.run(st, spec, rows)
        for f, b in want:
            for g in ([f] if 0 in b else [f, f + '2']):
                with open(g, 'rb') as fh: got = fh.read()
                st.add('states')
                if got != b and len(st.viol) < 3:
                    st.violation('file-%s-%s' % (codec, b.hex()), 'writing characters of %s to a file: wrote %s, should be %s' % (codec, got.hex(), b.hex()), dict(spec=spec, expected=b.hex(), got=got.hex()))
