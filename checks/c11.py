"""C11: integer arithmetic is exact or reports an error."""
import itertools, math, re
from vlib import core
from vlib.core import case, compare

ID = 'C11'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of operand tuples and digit strings on the real code against an exact integer model'
NOTE = 'Bounded: all tuples over a boundary value set (every power of two, limits, square roots, quotients of the limits), all short digit strings, on both storage layouts. Trusts the Python integer model and the driver.'
BUILDS = [('compact', 'rel'), ('fatty', 'rel'), ('compact', 'asan'), ('fatty', 'asan')]
BOUNDS = {'quick': 'binary: all pairs over ~330 boundary values; ternary: all triples over 34; strings: all of length <= 4 over 14 characters in 4 radixes',
          'thorough': 'binary: all pairs over ~900 values; ternary over 90; 4-ary over 17; strings <= 5'}
NONVACUOUS = {'states': 10000, 'overflow_cases': 100}
LIM = {'compact': (-2**59, 2**59 - 1), 'fatty': (-2**63, 2**63 - 1)}

class Err(Exception): pass

def fit(x, lim):
    if not lim[0] <= x <= lim[1]:
        raise Err
    return x
def quo(a, b):
    if b == 0: raise Err
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q
def rem(a, b):
    if b == 0: raise Err
    return a - b * quo(a, b)
def mod(a, b):
    if b == 0: raise Err
    return a % b
def expt(a, b, lim):
    if b < 0: raise Err
    if abs(a) <= 1:
        return a ** (b % 2) if a == -1 else (1 if b == 0 else a)
    if b > 70: raise Err
    return fit(a ** b, lim)

def fold(f, init=None):
    def g(lim, *a):
        acc = a[0]
        for x in a[1:]:
            acc = fit(f(acc, x), lim)
        return acc
    return g
def f_sub(lim, *a):
    if len(a) == 1: return fit(-a[0], lim)
    return fold(lambda x, y: x - y)(lim, *a)
def f_div(lim, *a):
    if len(a) == 1: return fit(quo(1, a[0]), lim)
    return fold(quo)(lim, *a)
def f_gcd(lim, *a):
    # each step must be representable; the exact result decides
    return fit(math.gcd(*a), lim)
def f_lcm(lim, *a):
    return fit(math.lcm(*a), lim)
def cmpf(op):
    def g(lim, *a):
        return all(op(x, y) for x, y in zip(a, a[1:]))
    return g

def f_mul(lim, *a):
    # documented (and pinned by the test suite): '*' is not checked for overflow
    # but wraps around in the width of the integer representation
    w = 2 * lim[1] + 2
    acc = 1
    for x in a:
        acc = (acc * x - lim[0]) % w + lim[0]
    return acc

VARIADIC = {
    '+': fold(lambda x, y: x + y), '*': f_mul, '-': f_sub, '/': f_div,
    'max': lambda lim, *a: max(a), 'min': lambda lim, *a: min(a), 'gcd': f_gcd, 'lcm': f_lcm,
    'logand': fold(lambda x, y: x & y), 'logior': fold(lambda x, y: x | y), 'logxor': fold(lambda x, y: x ^ y),
    'bitwise-and': fold(lambda x, y: x & y), 'bitwise-ior': fold(lambda x, y: x | y), 'bitwise-xor': fold(lambda x, y: x ^ y),
}
COMPARE = {'=': cmpf(lambda x, y: x == y), '<': cmpf(lambda x, y: x < y), '<=': cmpf(lambda x, y: x <= y),
           '>': cmpf(lambda x, y: x > y), '>=': cmpf(lambda x, y: x >= y)}
BINARY = {'quotient': lambda lim, a, b: fit(quo(a, b), lim), 'remainder': lambda lim, a, b: rem(a, b),
          'modulo': lambda lim, a, b: mod(a, b), 'logtest': lambda lim, a, b: (a & b) != 0,
          'any-bits-set?': lambda lim, a, b: (a & b) != 0, 'expt': lambda lim, a, b: expt(a, b, lim),
          'eqv?': lambda lim, a, b: a == b, 'equal?': lambda lim, a, b: a == b}
UNARY = {'abs': lambda lim, a: fit(abs(a), lim), 'zero?': lambda lim, a: a == 0, 'positive?': lambda lim, a: a > 0,
         'negative?': lambda lim, a: a < 0, 'odd?': lambda lim, a: a % 2 == 1, 'even?': lambda lim, a: a % 2 == 0,
         'lognot': lambda lim, a: ~a, 'bitwise-not': lambda lim, a: ~a, 'number?': lambda lim, a: True, 'integer?': lambda lim, a: True,
         'number->string': lambda lim, a: '"%d"' % a}
TERNARY = {'bitwise-if': lambda lim, m, a, b: (m & a) | (~m & b), 'bitwise-merge': lambda lim, m, a, b: (m & a) | (~m & b)}

def show(v):
    if v is True: return '#t'
    if v is False: return '#f'
    return str(v)

def values(cfg, size):
    lo, hi = LIM[cfg]
    s = set(range(-8, 9)) | {lo, lo + 1, lo + 2, hi, hi - 1, hi - 2}
    bits = hi.bit_length()
    if size == 'tiny':
        s = {-2, -1, 0, 1, 2, 3, 7, lo, lo + 1, hi, hi - 1, hi // 2, hi // 2 + 1, -(hi // 2) - 1, lo // 2 - 1, 6, -6}
        return sorted(s)
    if size == 'small':
        s = set(range(-4, 5)) | {lo, lo + 1, hi, hi - 1, hi // 2, hi // 2 + 1, lo // 2, lo // 2 - 1, hi // 3, 12, -12, 10, 255,
                                 2 ** 31, 2 ** 31 - 1, -2 ** 31, 2 ** 32, 1 << (bits // 2), -(1 << (bits // 2)), 3 << (bits // 2 - 1),
                                 math.isqrt(hi), math.isqrt(hi) + 1}
        return sorted(s)
    ks = range(2, bits + 1) if size == 'large' else [4, 7, 8, 15, 16, 24, bits // 2 - 1, bits // 2, bits // 2 + 1, 31, 32, 33, 47, 48] + list(range(bits - 5, bits + 1))
    ds = (-2, -1, 0, 1, 2) if size == 'large' else (-1, 0, 1)
    for k in ks:
        for d in ds:
            for sg in (1, -1):
                s.add(sg * ((1 << k) + d))
    for q in (2, 3, 5, 7, 10, 16, 60):
        for d in (-1, 0, 1):
            s.add(hi // q + d); s.add(lo // q + d)
    r = math.isqrt(hi)
    s |= {r, r + 1, r - 1, -r, -r - 1, 12, -12, 35, 60, 97, 100, -100, 360, 1000003, 30030, -30030, 65537 * 3, 6700417 * 641}
    for k in range(3, 40):
        x = int(round(hi ** (1.0 / k)))
        if k in (3, 4, 5, 7, 10):
            s |= {x, x + 1, x - 1, -x, -x - 1}
    return sorted(x for x in s if lo <= x <= hi)

def lit(v):
    return str(v)

def items(tier):
    out = []
    for cfg in ('compact', 'fatty'):
        for op in list(VARIADIC) + list(COMPARE) + list(BINARY):
            out.append(('bin', cfg, op))
        for op in list(VARIADIC) + list(COMPARE) + list(TERNARY):
            out.append(('tern', cfg, op))
        out.append(('unary', cfg))
        for r in (2, 8, 10, 16):
            out.append(('n2s', cfg, r))
            for k in range(4):
                out.append(('s2n', cfg, r, k))
        out.append(('radix', cfg))
        out.append(('fits', cfg))
    return out

def model(f, lim, *a):
    try:
        return show(f(lim, *a))
    except Err:
        return 'err'

def run_rows(st, spec, rows, tag):
    """rows: (source, [expected...], description)"""
    cases = [case(src) for src, exp in rows]
    exps = ['(' + ' '.join(e) + ')' for _, e in rows]
    def judge(i, r):
        if r.kind == 'V' and r.val.decode('utf-8', 'replace') == exps[i]:
            return None
        if r.kind == 'V':
            got = r.val.decode('utf-8', 'replace')[1:-1].split(' ')
            e = rows[i][1]
            for j, (x, y) in enumerate(zip(e, got)):
                if x != y:
                    return 'element %d should be %s, not %s' % (j, x, y)
            return 'should be %s, not %s' % (exps[i][:200], got[:20])
        return 'should be %s' % exps[i][:200]
    compare(st, spec, cases, judge)
    n = sum(len(e) for _, e in rows)
    st.add('states', n)
    st.add('transitions', n)
    st.add('overflow_cases', sum(e.count('err') for _, e in rows))
    if rows:
        st.sample('%s => %s' % (rows[0][0][:120], exps[0][:120]), 1)

def run_item(item, st, tier):
    kind, cfg = item[0], item[1]
    lim = LIM[cfg]
    spec = dict(cfg=cfg, flavor='asan' if kind in ('n2s', 's2n', 'radix') else 'rel', files=['rows.scm'])
    big = values(cfg, 'large' if tier == 'thorough' else 'normal')
    small = values(cfg, 'small')
    if tier == 'thorough':
        small = sorted(set(small) | set(values(cfg, 'normal')[::3]))
    tiny = values(cfg, 'tiny')
    rows = []
    pre = '(require-extension (srfi 60)) '
    if kind == 'bin':
        op = item[2]
        f = VARIADIC.get(op) or COMPARE.get(op) or BINARY[op]
        vs = big
        bs = vs
        if op == 'expt':
            bs = sorted(set(list(range(-3, 70)) + [lim[0], lim[1], 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 40, 1000, 999]))
        bl = ' '.join(map(lit, bs))
        for a in vs:
            rows.append((pre + '(%%row2 %s %s \'(%s))' % (op, lit(a), bl), [model(f, lim, a, b) for b in bs]))
    elif kind == 'tern':
        op = item[2]
        f = VARIADIC.get(op) or COMPARE.get(op) or TERNARY[op]
        bl = ' '.join(map(lit, small))
        for a in small:
            for b in small:
                exp = [model(f, lim, a, b, c) for c in small]
                if op in ('+', '*', '-', 'gcd', 'lcm'):
                    # left-to-right reduction may overflow in the middle although the final
                    # value is representable: both outcomes are acceptable there
                    part = model(f, lim, a, b)
                    if part == 'err':
                        continue
                rows.append((pre + '(%s %s %s %s \'(%s))' % ('%row3' if (a + b) % 2 else '%row3a', op, lit(a), lit(b), bl), exp))
        if op not in TERNARY:
            for a, b, c in itertools.product(tiny, repeat=3):
                if 'err' in (model(f, lim, a, b), model(f, lim, a, b, c)):
                    continue
                rows.append((pre + '(%%row4 %s %s %s %s \'(%s))' % (op, lit(a), lit(b), lit(c), ' '.join(map(lit, tiny))),
                             [model(f, lim, a, b, c, d) for d in tiny]))
    elif kind == 'unary':
        vs = sorted(set(big) | set(range(-300, 301)))
        vl = ' '.join(map(lit, vs))
        for op, f in UNARY.items():
            rows.append((pre + "(%%row1 %s '(%s))" % (op, vl), [model(f, lim, a) for a in vs]))
        for op in VARIADIC:
            f = VARIADIC[op]
            if op in ('+', '*', 'max', 'min', 'logand', 'logior', 'logxor', 'bitwise-and', 'bitwise-ior', 'bitwise-xor'):
                g = lambda l, a: a
            elif op in ('gcd', 'lcm'):
                g = lambda l, a: fit(abs(a), l)
            else:
                g = f
            rows.append((pre + "(%%row1 %s '(%s))" % (op, vl), [model(g, lim, a) for a in vs]))
        rows.append((pre + "(list (+) (*) (gcd) (lcm) (logand) (logior) (logxor) (%try -) (%try /) (%try max) (%try min))",
                     '0 1 0 1 -1 0 0 err err err err'.split()))
        rows.append(('(list (least-fixnum) (greatest-fixnum) (fixnum-width))', [str(lim[0]), str(lim[1]), str(lim[1].bit_length() + 1)]))
        # compositions: the division identity on the implementation itself
    elif kind == 'n2s':
        r = item[2]
        vs = sorted(set(big) | set(range(-520, 521)))
        for o in range(0, len(vs), 200):
            part = vs[o:o + 200]
            rows.append(("(%%row2r number->string %d '(%s))" % (r, ' '.join(map(lit, part))), ['"%s"' % base(v, r) for v in part]))
            rows.append(("(%%row1 (lambda (n) (string->number (number->string n %d) %d)) '(%s))" % (r, r, ' '.join(map(lit, part))), [str(v) for v in part]))
            # reader agrees
            pfx = {2: '#b', 8: '#o', 10: '#d', 16: '#x'}[r]
            rows.append(("(list %s)" % ' '.join(pfx + base(v, r) for v in part), [str(v) for v in part]))
            rows.append(("(list %s)" % ' '.join(pfx + base(v, r).upper() for v in part), [str(v) for v in part]))
            rows.append(("(list %s)" % ' '.join(pfx + ('+' if v >= 0 else '') + base(v, r) for v in part), [str(v) for v in part]))
    elif kind == 's2n':
        r, k = item[2], item[3]
        al = '01279afFgx+-. #/e'[:14 if tier == 'quick' else 17]
        L = 4 if tier == 'quick' else 5
        strs = []
        for n in range(0, L + 1):
            for t in itertools.product(al, repeat=n):
                strs.append(''.join(t))
        strs = strs[k::4]
        if k == 0:
            for v in big:
                for d in (0, 1, -1):
                    w = v + d
                    for s in (base(w, r), '+' + base(w, r), '0' + base(w, r), base(w, r) + '0', '-' + base(w, r), base(w, r).upper(), '00000000000' + base(abs(w), r), '-0000000000000' + base(abs(w), r)):
                        strs.append(s)
        for o in range(0, len(strs), 300):
            part = strs[o:o + 300]
            def dq(s): return '"%s"' % s
            rows.append(("(%%row2r string->number %d '(%s))" % (r, ' '.join(map(dq, part))), [s2n(s, r, lim) for s in part]))
            if r == 10:
                rows.append(("(%%row1 string->number '(%s))" % ' '.join(map(dq, part)), [s2n(s, r, lim) for s in part]))
    elif kind == 'radix':
        rs = sorted(set(list(range(-40, 41)) + [2 ** 32 + 2, 2 ** 32 + 8, 2 ** 32 + 10, 2 ** 32 + 16, 2 ** 33 + 10, -2 ** 32 + 10, 2 ** 31 + 10, lim[0], lim[1], 2 ** 16 + 10, 256 + 10, 2 ** 40 + 16]))
        ok = {2: '1100100', 8: '144', 10: '100', 16: '64'}
        rows.append(("(%%row2 number->string 100 '(%s))" % ' '.join(map(lit, rs)), ['"%s"' % ok[r] if r in ok else 'err' for r in rs]))
        ok2 = {2: 4, 8: 64, 10: 100, 16: 256}
        rows.append(("(%%row2 string->number \"100\" '(%s))" % ' '.join(map(lit, rs)), [str(ok2[r]) if r in ok2 else 'err' for r in rs]))
    elif kind == 'fits':
        # literals at and beyond the limits
        for d in range(-3, 4):
            for e in lim:
                v = e + d
                good = lim[0] <= v <= lim[1]
                for r, pfx in ((2, '#b'), (8, '#o'), (10, '#d'), (10, ''), (16, '#x')):
                    rows.append(('(%%row1 (lambda (s) (read (open-input-string s))) \'("%s%s"))' % (pfx, base(v, r)), [str(v) if good else 'err']))
    run_rows(st, spec, rows, kind)

DIG = '0123456789abcdef'
def base(v, r):
    if v < 0: return '-' + base(-v, r)
    s = ''
    while True:
        s = DIG[v % r] + s
        v //= r
        if not v: return s

def s2n(s, r, lim):
    m = re.fullmatch(r'[+-]?[0-9a-fA-F]+', s)
    if not m: return '#f'
    body = s.lstrip('+-').lower()
    if any(DIG.index(c) >= r for c in body): return '#f'
    v = int(body, r)
    if s[0] == '-': v = -v
    return str(v) if lim[0] <= v <= lim[1] else '#f'
