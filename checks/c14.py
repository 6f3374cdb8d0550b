"""C14: list procedures against their definitions."""
import itertools
from vlib import core, table
from vlib.table import V, E, Exp
from vlib.model import *
from vlib.applic import *

ID = 'C14'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of procedure applications on the real code against reference definitions over an explicit heap model (result, sharing, arguments afterwards, call trace)'
NOTE = 'Bounded: every list up to the stated length over a small element set, every index in range, pools of procedure arguments, one to three lists; both storages. Trusts the Python definitions and the driver.'
BUILDS = [('compact', 'rel'), ('fatty', 'rel')]
BOUNDS = {'quick': 'lists up to length 5 over 3 elements (single list) and single lists of lengths up to 101, 3 over 2 (pairs of lists), 2 (triples); indexes -1..len+1; c[ad]{1,4}r on all trees of depth 4 positions',
          'thorough': 'lists up to length 7 over 3 elements (single), 4 over 2 (pairs), 3 (triples)'}
NONVACUOUS = {'states': 20000, 'error_cases': 300}

def circ(n, els, k=0):
    """circular list of els whose last cdr is the k-th pair"""
    def make():
        l = ls_(els); p = [l]
        while p[-1].cdr is not NIL: p.append(p[-1].cdr)
        p[-1].cdr = p[k]
        return l
    d = '(cdr ' * k + 'l' + ')' * k
    return Arg("(let ((l (list %s))) (set-cdr! %sl%s %s) l)" % (' '.join(mk(e) for e in els), '(cdr ' * (len(els) - 1), ')' * (len(els) - 1), d), make)

# ------------------------------------------------------------------ helpers
def err(): raise SErr('domain')
def pairof(x):
    if not isinstance(x, Pair): err()
    return x
def lst(l):
    return pl(l)
def truthy(x): return x is not False
def cdrs(l):
    """pairs of a list"""
    while isinstance(l, Pair):
        yield l
        l = l.cdr
def tailk(l, k):
    if k < 0: err()
    for _ in range(k):
        l = pairof(l).cdr
    return l
def kind(x):
    seen = set()
    while isinstance(x, Pair):
        if id(x) in seen: return 'circular'
        seen.add(id(x)); x = x.cdr
    return 'proper' if x is NIL else 'dotted'

def append(*ls__):
    if not ls__: return NIL
    r = ls__[-1]
    for l in reversed(ls__[:-1]):
        r = ls_(lst(l), r)
    return r
def minlists(lists):
    """zip of lists, stopping at the shortest (circular allowed)"""
    cur = list(lists)
    if not cur: return
    while True:
        for c in cur:
            if c is NIL: return
            if not isinstance(c, Pair): err()
        yield tuple(c.car for c in cur)
        cur = [c.cdr for c in cur]
def minpairs(lists):
    cur = list(lists)
    while all(isinstance(c, Pair) for c in cur):
        nxt = [c.cdr for c in cur]
        yield tuple(cur)
        cur = nxt

def m_delete(eq):
    def f(x, l, e=None):
        e = e or eq
        return ls_([y for y in lst(l) if not truthy(e(x, y))])
    return f
def reduce_(f, rid, l):
    l = lst(l)
    if not l: return rid
    acc = l[0]
    for x in l[1:]: acc = f(x, acc)
    return acc
def reduce_right(f, rid, l):
    l = lst(l)
    if not l: return rid
    acc = l[-1]
    for x in reversed(l[:-1]): acc = f(x, acc)
    return acc
def foldr(k, z, *ls__):
    rows = list(minlists(ls__))
    acc = z
    for r in reversed(rows): acc = k(*r, acc)
    return acc
def fold(k, z, *ls__):
    acc = z
    for r in minlists(ls__): acc = k(*r, acc)
    return acc
def pfold(k, z, *ls__):
    acc = z
    for r in minpairs(ls__): acc = k(*r, acc)
    return acc
def pfoldr(k, z, *ls__):
    acc = z
    for r in reversed(list(minpairs(ls__))): acc = k(*r, acc)
    return acc
def any_(f, *ls__):
    for r in minlists(ls__):
        v = f(*r)
        if truthy(v): return v
    return False
def every(f, *ls__):
    v = True
    for r in minlists(ls__):
        v = f(*r)
        if not truthy(v): return False
    return v
def span(f, l):
    pre = []
    while isinstance(l, Pair):
        if not truthy(f(l.car)): break
        pre.append(l.car); l = l.cdr
    return Values([ls_(pre), l])
def neg(f): return lambda *a: not truthy(f(*a))
def mem(eq):
    def f(x, l, e=None):
        e = e or eq
        for p in cdrs(l):
            if truthy(e(x, p.car)): return p
            last = p
        if kind(l) == 'dotted': err()
        return False
    return f
def ass(eq, keyfirst=False):
    def f(x, l, e=None):
        for p in cdrs(l):
            pairof(p.car)
            if truthy(e(x, p.car.car) if e else eq(p.car.car, x)): return p.car
        if kind(l) == 'dotted': err()
        return False
    return f
def is_(a, b): return eqv(a, b) if isinstance(a, (int, Char)) else a is b
def deldup(l, e=equal):
    o = []
    for x in lst(l):
        if not any(truthy(e(y, x)) for y in o): o.append(x)
    return ls_(o)
def unzip(n):
    def f(l):
        cols = [[] for _ in range(n)]
        for r in lst(l):
            r = lst(r)
            for i in range(n): cols[i].append(r[i])
        cols = [ls_(c) for c in cols]
        return cols[0] if n == 1 else Values(cols)
    return f
def appendmap(f, *ls__):
    vs = [f(*r) for r in minlists(ls__)]
    return append(*vs)
def lastpair(l):
    pairof(l)
    while isinstance(l.cdr, Pair): l = l.cdr
    return l
def listeq(e, *ls__):
    for a, b in zip(ls__, ls__[1:]):
        if a is b: continue
        a, b = lst(a), lst(b)
        # elements are compared left to right and pairwise until a difference
        for i in range(max(len(a), len(b))):
            if i >= len(a) or i >= len(b): return False
            if not truthy(e(a[i], b[i])): return False
    return True

# set operations: results as sets (order and multiplicity of representatives
# are checked only as far as specified)
def adjoin(e, l, *xs):
    cur = lst(l)
    for x in xs:
        if not any(truthy(e(y, x)) for y in cur): cur = [x] + cur
    return ls_(cur)
def subset(e, a, b): return all(any(truthy(e(x, y)) for y in b) for x in a)
def lset_le(e, *ls__):
    return all(subset(e, lst(a), lst(b)) for a, b in zip(ls__, ls__[1:]))
def lset_eq(e, *ls__):
    return all(subset(e, lst(a), lst(b)) and subset(e, lst(b), lst(a)) for a, b in zip(ls__, ls__[1:]))
def lunion(e, *ls__):
    if not ls__: return NIL
    ans = lst(ls__[0])
    for l in ls__[1:]:
        l = lst(l)
        if not ans: ans = l; continue
        for x in l:
            if not any(truthy(e(y, x)) for y in ans): ans = [x] + ans
    return ls_(ans)
def linter(e, a, *ls__):
    return ls_([x for x in lst(a) if all(any(truthy(e(x, y)) for y in lst(l)) for l in ls__)])
def ldiff(e, a, *ls__):
    return ls_([x for x in lst(a) if not any(any(truthy(e(x, y)) for y in lst(l)) for l in ls__)])
def ldi(e, a, *ls__):
    d = [x for x in lst(a) if not any(any(truthy(e(x, y)) for y in lst(l)) for l in ls__)]
    i = [x for x in lst(a) if any(any(truthy(e(x, y)) for y in lst(l)) for l in ls__)]
    return Values([ls_(d), ls_(i)])
def lxor(e, *ls__):
    # only for lists without duplicates; compared as a set
    acc = []
    for l in ls__:
        l = lst(l)
        acc = [x for x in acc if not any(truthy(e(x, y)) for y in l)] + [y for y in l if not any(truthy(e(x, y)) for x in acc)]
    return ls_(acc)

def unfold(p, f, g, seed, tail=None):
    o = []
    while not truthy(p(seed)):
        o.append(f(seed)); seed = g(seed)
    return ls_(o, tail(seed) if tail else NIL)
def unfoldr(p, f, g, seed, tail=NIL):
    ans = tail
    while not truthy(p(seed)):
        ans = Pair(f(seed), ans); seed = g(seed)
    return ans

def takel(l, k):
    o = []
    for _ in range(k): o.append(pairof(l).car); l = l.cdr
    return ls_(o)
def npairs(l): return sum(1 for _ in cdrs(l))
def setcar(p, v): pairof(p).car = v; return UNDEF
def setcdr(p, v): pairof(p).cdr = v; return UNDEF
def m_map(f, *ls__): return ls_([f(*r) for r in minlists(ls__)])
def m_foreach(f, *ls__):
    for r in minlists(ls__): f(*r)
    return UNDEF
def m_pairforeach(f, *ls__):
    for r in minpairs(ls__): f(*r)
    return UNDEF
def pairfe_bang(l):
    return l
def m_filter(f, l): return ls_([x for x in lst(l) if truthy(f(x))])
def m_filtermap(f, *ls__): return ls_([v for v in (f(*r) for r in minlists(ls__)) if truthy(v)])
def m_partition(f, l):
    a, b = [], []
    for x in lst(l): (a if truthy(f(x)) else b).append(x)
    return Values([ls_(a), ls_(b)])
def lindex(f, *ls__):
    for i, r in enumerate(minlists(ls__)):
        if truthy(f(*r)): return i
    return False
def findtail(f, l):
    for p in cdrs(l):
        if truthy(f(p.car)): return p
    if kind(l) == 'dotted': err()
    return False
def find(f, l):
    t = findtail(f, l)
    return t.car if t is not False else False
def cadr(path):
    def f(x):
        for c in reversed(path):
            x = pairof(x).car if c == 'a' else pairof(x).cdr
        return x
    return f
def iota(n, start=0, step=1):
    if n < 0: err()
    return ls_([start + i * step for i in range(n)])
def length(l):
    if kind(l) != 'proper': err()
    return len(lst(l))
def lengthp(l):
    return False if kind(l) == 'circular' else npairs(l)
def seq(f): return lambda *a: f(*a)

# ------------------------------------------------------- procedure arguments
num = lambda x: type(x) is int
P1 = [Fn('(lambda (x) (and (number? x) (odd? x)))', lambda x: num(x) and x % 2 == 1),
      Fn('(lambda (x) (eqv? x 2))', lambda x: x == 2 and num(x)),
      Fn('(lambda (x) #t)', lambda x: True), Fn('(lambda (x) #f)', lambda x: False),
      Fn('(lambda (x) (and (eqv? x 3) (list x)))', lambda x: ls(3) if x == 3 and num(x) else False)]
M1 = [Fn('list', lambda *a: ls(*a)), Fn('(lambda (x) x)', lambda x: x)]
FM1 = P1[:2] + [Fn('(lambda (x) (and (number? x) (* 10 x)))', lambda x: num(x) and 10 * x)]
P2 = [Fn('(lambda (x y) (eqv? x y))', lambda x, y: eqv(x, y)), Fn('(lambda (x y) (and (eqv? x 1) (list x y)))', lambda x, y: ls(x, y) if eqv(x, 1) else False),
      Fn('(lambda (x y) #t)', lambda x, y: True), Fn('(lambda (x y) #f)', lambda x, y: False)]
M2 = [Fn('list', lambda *a: ls(*a))]
P3 = [Fn('(lambda (x y z) (and (eqv? x y) (eqv? y z)))', lambda x, y, z: eqv(x, y) and eqv(y, z)), Fn('(lambda (x y z) (and (eqv? z 1) (list x y z)))', lambda x, y, z: ls(x, y, z) if eqv(z, 1) else False)]
LT = Fn('(lambda (a b) (and (number? a) (number? b) (< a b)))', lambda a, b: num(a) and num(b) and a < b)
EQV = Fn('eqv?', lambda a, b: eqv(a, b))
MOD2 = Fn('(lambda (a b) (= (modulo a 2) (modulo b 2)))', lambda a, b: a % 2 == b % 2)
KONS = [Fn('cons', lambda *a: Pair(*a)), Fn('list', lambda *a: ls(*a))]

# --------------------------------------------------------------- enumeration
a_, b_, c_ = Sym('a'), Sym('b'), Sym('c')
def lists(n, els, minlen=0):
    return [ls(*t) for k in range(minlen, n + 1) for t in itertools.product(els, repeat=k)]
def dotted(n, els, tail=Sym('z')):
    return [ls(*t, tail=tail) for k in range(0, n + 1) for t in itertools.product(els, repeat=k)]

SPEC = []
def proc(name, model, args, mode='s', after=True, order=True, values=False, mods=('srfi-1',), allow_err=True):
    SPEC.append(dict(name=name, model=model, args=args, mode=mode, after=after, order=order, mods=mods))

def build(tier):
    SPEC.clear()
    q = tier == 'quick'
    N1, N2, N3 = (6, 4, 2) if q else (7, 4, 3)
    one = [A(l) for l in lists(N1, (1, 2, 3))] + [A(ls_([1 + (i * i) % 7 for i in range(n)])) for n in list(range(6, 18)) + [40, 101]]
    two = lists(N2, (1, 2))
    two = [A(l) for l in two]
    two2 = [A(l) for l in lists(N2, (2, 3))]
    tri = [A(l) for l in lists(N3, (1, 2))]
    short = [A(l) for l in lists(3, (1, 2))]
    circs = [circ(n, list(range(1, n + 1)), k) for n in (1, 2, 3, 4, 5) for k in range(n)]
    dots = [A(d) for d in dotted(3, (1, 2))]
    odd = [A(x) for x in (5, a_, Str('ab'), Vec([1]), True, Char('x'))]
    def X(*pools): return list(itertools.product(*pools))
    def fx(fs): return [F(f) for f in fs]
    R5 = ()
    # construction
    proc('cons', lambda x, y: Pair(x, y), X(short, short), mods=R5)
    proc('list', lambda *a: ls(*a), X() + X(short) + X(short, short) + X(tri, tri, tri), mods=R5)
    proc('xcons', lambda x, y: Pair(y, x), X(short, short))
    proc('cons*', lambda *a: ls(*a[:-1], tail=a[-1]), X(short) + X(short, short) + X(tri, tri, tri) + X(odd, odd, odd))
    for n in range(0, 6):
        proc('make-list', lambda k, x=None: ls_([x] * k), X([A(n)], short))
        for f in fx(M1): proc('list-tabulate', lambda k, f: ls_([f(i) for i in range(k)]), [(A(n), f)], order=False)
        proc('iota', iota, [(A(n),)] + X([A(n)], [A(i) for i in range(-2, 3)]) + X([A(n)], [A(i) for i in range(-2, 3)], [A(i) for i in range(-3, 4)]))
    proc('iota', iota, [(A(-1),)])
    proc('list-copy', lambda l: ls_(*finite_items(l)), X(one) + X(dots))
    def circular_list(*a):
        l = ls(*a); lastpair(l).cdr = l
        return l
    proc('circular-list', circular_list, [tuple(A(e) for e in t) for k in (1, 2, 3) for t in itertools.product((1, 2), repeat=k)])
    # predicates
    anyl = one + circs + dots + odd
    for nm, k in (('proper-list?', 'proper'), ('circular-list?', 'circular'), ('dotted-list?', 'dotted'), ('list?', 'proper')):
        proc(nm, lambda x, k=k: kind(x) == k, X(anyl), mods=R5 if nm == 'list?' else ('srfi-1',))
    proc('pair?', lambda x: isinstance(x, Pair), X(anyl), mods=R5)
    proc('null?', lambda x: x is NIL, X(anyl), mods=R5)
    proc('not-pair?', lambda x: not isinstance(x, Pair), X(anyl))
    proc('null-list?', lambda x: x is NIL if x is NIL or isinstance(x, Pair) else err(), X(one + circs))
    for f in (EQV, LT):
        proc('list=', listeq, X([F(f)]) + X([F(f)], two) + X([F(f)], two, two) + X([F(f)], tri, tri, tri))
    proc('length', length, X(anyl), mods=R5)
    proc('length+', lengthp, X(anyl))
    # selectors
    tree = build_tree(4)
    alltrees = [A(tree)] + ([A(t) for t in partial_trees(3)])
    for n in (1, 2, 3, 4):
        for p in itertools.product('ad', repeat=n):
            p = ''.join(p)
            proc('c%sr' % p, cadr(p), X(alltrees) + X(dots) + X(odd[:2]), mods=R5)
    longl = [A(ls_(range(n))) for n in range(0, 13)]
    for i, nm in enumerate('first second third fourth fifth sixth seventh eighth ninth tenth'.split()):
        proc(nm, lambda l, i=i: pairof(tailk(l, i)).car, X(longl))
    proc('car+cdr', lambda p: Values([pairof(p).car, p.cdr]), X(one) + X(dots) + X(circs))
    proc('set-car!', setcar, X(short, [A(9), A(ls(8))]), mods=R5)
    proc('set-cdr!', setcdr, X(short, [A(9), A(ls(8))]), mods=R5)
    idx = [A(i) for i in range(-1, 7)]
    pos = [A(i) for i in range(0, 7)]
    def lref(l, k):
        t = tailk(l, k)
        return pairof(t).car
    sel = [A(l) for l in lists(4, (1, 2))] + dots + circs
    proc('list-ref', lref, X(sel, idx), mods=R5)
    proc('list-tail', tailk, X(sel, idx), mods=R5)
    proc('take', takel, X(sel, pos))
    proc('drop', tailk, X(sel, pos))
    fin = [A(l) for l in lists(4, (1, 2))] + dots
    def inrange(ps): return [(l, k) for l, k in ps if k.make() <= npairs(l.make())]
    proc('take-right', lambda l, k: tailk(l, npairs(l) - k) if k <= npairs(l) else err(), X(fin, pos))
    proc('drop-right', lambda l, k: takel(l, npairs(l) - k) if k <= npairs(l) else err(), X(fin, pos))
    proc('take!', takel, inrange(X(fin, pos)), mode='w', after=False)
    proc('drop-right!', lambda l, k: takel(l, npairs(l) - k), inrange(X(fin, pos)), mode='w', after=False)
    proc('split-at', lambda l, k: Values([takel(l, k), tailk(l, k)]), X(sel, pos))
    proc('split-at!', lambda l, k: Values([takel(l, k), tailk(l, k)]), inrange(X(fin, pos)), mode='w', after=False)
    proc('last', lambda l: lastpair(l).car, X(one) + X(dots))
    proc('last-pair', lastpair, X(one) + X(dots))
    # concatenation
    pair2 = X(two, two2) + X(two, dots + odd)
    proc('append', append, X() + X(one) + X(odd) + pair2 + X(tri, tri, tri) + X(tri, tri, tri, [A(ls(7)), A(NIL), A(8)]) + X(dots[1:], two[:3]), mods=R5)
    proc('append!', append, X() + X(two) + pair2 + X(tri, tri, tri) + X(tri, tri, tri, [A(ls(7)), A(NIL)]), mode='w', after=False)
    proc('concatenate', lambda l: append(*lst(l)), [(A(ls(*[t.make() for t in x])),) for x in X(two, two2) + X(tri, tri, tri) + X(two) + X()], mode='w')
    proc('concatenate!', lambda l: append(*lst(l)), [(A(ls(*[t.make() for t in x])),) for x in X(two, two2) + X(tri, tri, tri) + X(two) + X()], mode='w', after=False)
    proc('reverse', lambda l: ls_(lst(l)[::-1]), X(one) + X(dots), mods=R5)
    proc('reverse!', lambda l: ls_(lst(l)[::-1]), X(one), mode='w', after=False)
    proc('append-reverse', lambda a, b: ls_(lst(a)[::-1], b), X(two, two2) + X(two, odd))
    proc('append-reverse!', lambda a, b: ls_(lst(a)[::-1], b), X(two, two2) + X(two, odd), mode='w', after=False)
    proc('zip', lambda *l: ls_([ls(*r) for r in minlists(l)]), X(two) + X(two, two2) + X(tri, tri, tri))
    rows = lambda n: [A(ls(*[ls(*[10 * i + j for j in range(n)]) for i in range(k)])) for k in range(0, 5)]
    for n in range(1, 6):
        proc('unzip%d' % n, unzip(n), X(rows(n) + rows(n + 1)))
    for f in P1:
        proc('count', lambda f, *l: sum(1 for r in minlists(l) if truthy(f(*r))), X([F(f)], one))
    for f in P2:
        proc('count', lambda f, *l: sum(1 for r in minlists(l) if truthy(f(*r))), X([F(f)], two, two2))
    for f in P3: proc('count', lambda f, *l: sum(1 for r in minlists(l) if truthy(f(*r))), X([F(f)], tri, tri, tri))
    # folds
    for f in KONS:
        proc('fold', fold, X([F(f)], [A(NIL), A(0)], one))
        proc('fold-right', foldr, X([F(f)], [A(NIL), A(0)], one))
        proc('pair-fold', pfold, X([F(f)], [A(NIL), A(0)], short))
        proc('pair-fold-right', pfoldr, X([F(f)], [A(NIL), A(0)], short))
        proc('reduce', reduce_, X([F(f)], [A(0), A(a_)], one))
        proc('reduce-right', reduce_right, X([F(f)], [A(0), A(a_)], one))
    for nm, m in (('fold', fold), ('fold-right', foldr), ('pair-fold', pfold), ('pair-fold-right', pfoldr)):
        proc(nm, m, X([F(M2[0])], [A(NIL)], two, two2) + X([F(M2[0])], [A(0)], tri, tri, tri))
    proc('fold', fold, X([F(M2[0])], [A(NIL)], two, circs))
    proc('reduce', reduce_, X([F(Fn('-', lambda a, b: a - b))], [A(0)], one))
    proc('reduce-right', reduce_right, X([F(Fn('-', lambda a, b: a - b))], [A(0)], one))
    proc('pair-fold', pfold, X([F(Fn('(lambda (p a) (set-cdr! p a) p)', lambda p, a: (setattr(p, 'cdr', a), p)[1], False))], [A(NIL)], one), mode='w', after=False)
    Z = Fn('(lambda (x) (> x 3))', lambda x: x > 3); SQ = Fn('(lambda (x) (* x x))', lambda x: x * x); INC = Fn('(lambda (x) (+ x 1))', lambda x: x + 1)
    TG = Fn('(lambda (x) (list x x))', lambda x: ls(x, x))
    proc('unfold', unfold, X(*[[F(f)] for f in (Z, SQ, INC)], [A(i) for i in range(-2, 6)]) + X(*[[F(f)] for f in (Z, SQ, INC)], [A(i) for i in range(-2, 6)], [F(TG)]))
    proc('unfold-right', unfoldr, X(*[[F(f)] for f in (Z, SQ, INC)], [A(i) for i in range(-2, 6)]) + X(*[[F(f)] for f in (Z, SQ, INC)], [A(i) for i in range(-2, 6)], [A(ls(7)), A(8)]))
    # maps
    for nm, m in (('map', m_map), ('map-in-order', m_map), ('for-each', m_foreach), ('filter-map', m_filtermap), ('pair-for-each', m_pairforeach), ('append-map', appendmap), ('map!', m_map), ('append-map!', appendmap)):
        bang = nm.endswith('!')
        fs = FM1 if nm == 'filter-map' else M1[:1] if 'append' in nm else M1
        ordd = nm not in ('map', 'append-map', 'map!', 'append-map!', 'filter-map')
        mode = 'w' if bang or nm == 'pair-for-each' or 'append' in nm else 's'
        proc(nm, m, X(fx(fs), one), mode=mode, after=not bang, order=ordd)
        f2 = P2 if nm == 'filter-map' else M2
        if not bang: proc(nm, m, X(fx(f2), two, two2) + X(fx(M2), tri, tri, tri), mode=mode, order=ordd)
        if nm == 'map!': proc(nm, m, [x for x in X(fx(f2), two, two2) if npairs(x[1].make()) <= npairs(x[2].make())], mode='w', after=False, order=False)
        if nm in ('map', 'for-each', 'filter-map'):
            proc(nm, m, X(fx(f2[:1]), two, circs) + X(fx(f2[:1]), circs, two), mode=mode, order=ordd)
    for nm, m in (('map', m_map), ('for-each', m_foreach)):
        even = [x for x in X(fx(M2), two, two2) if npairs(x[1].make()) == npairs(x[2].make())]
        even3 = [x for x in X(fx(M2), tri, tri, tri) if len({npairs(y.make()) for y in x[1:]}) == 1]
        proc(nm, m, X(fx(M1), one) + even + even3, mods=R5, order=nm != 'map')
    # filtering
    for f in fx(P1):
        for nm, m in (('filter', m_filter), ('remove', lambda f, l: m_filter(neg(f), l)), ('partition', m_partition)):
            proc(nm, m, X([f], one), mode='w', order=False)
            proc(nm + '!', m, X([f], one), mode='w', after=False, order=False)
        proc('find', find, X([f], one) + X([f], circs[:0]))
        proc('find-tail', findtail, X([f], one))
        proc('take-while', lambda f, l: span(f, l).vs[0], X([f], one), mode='w')
        proc('take-while!', lambda f, l: span(f, l).vs[0], X([f], one), mode='w', after=False)
        proc('drop-while', lambda f, l: span(f, l).vs[1], X([f], one))
        proc('span', span, X([f], one), mode='w')
        proc('break', lambda f, l: span(neg(f), l), X([f], one), mode='w')
        proc('span!', span, X([f], one), mode='w', after=False)
        proc('break!', lambda f, l: span(neg(f), l), X([f], one), mode='w', after=False)
        proc('any', any_, X([f], one)); proc('every', every, X([f], one)); proc('list-index', lindex, X([f], one))
    for f in fx(P2):
        for nm, m in (('any', any_), ('every', every), ('list-index', lindex)):
            proc(nm, m, X([f], two, two2) + X([f], two, circs))
    for f in fx(P3):
        for nm, m in (('any', any_), ('every', every), ('list-index', lindex)):
            proc(nm, m, X([f], tri, tri, tri))
    # membership; elements that tell the equivalences apart
    els = [1, a_, Str('s'), Str('t'), ls(1), NIL, Char('c'), Vec([1])]
    big = 2 ** 40
    keys = [A(x) for x in els + [2, b_, ls(2), False]]
    mlists = [A(l) for l in lists(2 if q else 3, els)] + [A(ls(1, 2, 3, 2, big))]
    mdots = [A(d) for d in dotted(2, (1, a_, ls(1)))]
    for nm, e in (('memq', is_), ('memv', eqv), ('member', equal)):
        kk, ml = noeq(nm, keys + [A(big)], mlists + mdots)
        proc(nm, mem(e), X(kk, ml), mods=R5)
    shared = Str('k')
    al = lambda ks: [A(ls(*[Pair(k, i) for i, k in enumerate(t)])) for n in range(0, 3) for t in itertools.product(ks, repeat=n)]
    for nm, e in (('assq', is_), ('assv', eqv), ('assoc', equal)):
        kk, ml = noeq(nm, keys + [A(big)], al(els) + [A(ls(Pair(1, 1), Pair(2, 2), Pair(1, 3), Pair(big, 3)))])
        proc(nm, ass(e), X(kk, ml), mods=R5)
        proc(nm, ass(e), X([A(1), A(a_)] if nm != 'assq' else [A(a_)], [A(ls(5)), A(ls(Pair(2, 2), 5)), A(ls(Pair(1, 1), 5)), A(ls(Pair(2, 2), tail=7)), A(5)]), mods=R5)
    nums = [A(i) for i in range(0, 5)]
    proc('member', mem(None), X(nums, one, [F(LT), F(EQV)]), order=True)
    proc('assoc', ass(None), X(nums, [A(ls(*[Pair(x, i) for i, x in enumerate(lst(l.make()))])) for l in one], [F(LT), F(EQV)]))
    # the key itself, not a copy: eq? search through identity
    proc('delete', m_delete(equal), X(keys, mlists), mode='w'); proc('delete!', m_delete(equal), X(keys, mlists), mode='w', after=False)
    for nm in ('delete', 'delete!'):
        proc(nm, m_delete(None), X(nums, one, [F(LT), F(EQV)]), mode='w', after=nm == 'delete', order=False)
    for nm in ('delete-duplicates', 'delete-duplicates!'):
        proc(nm, deldup, X(one + mlists), mode='w', after=nm[-1] != '!')
        proc(nm, lambda l, e: deldup(l, e), X([A(l) for l in lists(N1, (1, 2, 3, 4)[:3 if q else 4])], [F(Fn('(lambda (a b) (= (modulo a 2) (modulo b 2)))', lambda a, b: a % 2 == b % 2, False)), F(Fn('(lambda (a b) (< a b))', lambda a, b: a < b, False))]), mode='w', after=nm[-1] != '!')
    als = al((1, 2, a_))
    proc('alist-cons', lambda k, v, l: Pair(Pair(k, v), l), X(nums, nums[:2], als))
    proc('alist-copy', lambda l: ls_([Pair(p.car, p.cdr) for p in lst(l)]), X(als))
    for nm in ('alist-delete', 'alist-delete!'):
        bang = nm[-1] == '!'
        proc(nm, lambda k, l, e=equal: ls_([p for p in lst(l) if not truthy(e(k, p.car))]), X(keys, al(els)), mode='w', after=not bang)
        proc(nm, lambda k, l, e=equal: ls_([p for p in lst(l) if not truthy(e(k, p.car))]), X(nums, [A(ls(*[Pair(x, i) for i, x in enumerate(lst(l.make()))])) for l in one], [F(LT)]), mode='w', after=not bang, order=False)
    # sets
    E1 = F(Fn('eqv?', eqv, False)); E2 = F(Fn('(lambda (a b) (= (modulo a 2) (modulo b 2)))', lambda a, b: a % 2 == b % 2, False))
    sets = [A(ls(*t)) for n in range(0, 4) for t in itertools.permutations((1, 2, 3, 4)[:3 if q else 4], n)]
    multi = [A(l) for l in lists(3, (1, 2, 3))]
    for e in (E1, E2):
        proc('lset<=', lset_le, X([e]) + X([e], multi) + X([e], multi, multi) + X([e], tri, tri, tri))
        proc('lset=', lset_eq, X([e]) + X([e], multi) + X([e], multi, multi) + X([e], tri, tri, tri))
        proc('lset-adjoin', adjoin, X([e], multi) + X([e], multi, nums) + X([e], multi, nums, nums), mode='w')
        proc('lset-union', lunion, X([e]) + X([e], multi) + X([e], multi, multi) + X([e], tri, tri, tri), mode='w')
        proc('lset-union!', lunion, X([e], multi, multi), mode='w', after=False)
        for nm, m in (('lset-intersection', linter), ('lset-difference', ldiff), ('lset-diff+intersection', ldi)):
            proc(nm, m, X([e], multi) + X([e], multi, multi) + X([e], tri, tri, tri), mode='w')
            proc(nm + '!', m, X([e], multi) + X([e], multi, multi) + X([e], tri, tri, tri), mode='w', after=False)
    for nm in ('lset-xor', 'lset-xor!'):
        SPEC.append(dict(name=nm, model=lxor, args=X([E1]) + X([E1], sets) + X([E1], sets, sets) + X([E1], *[[A(ls(*t)) for n in range(0, 3) for t in itertools.permutations((1, 2, 3), n)]] * 3), mode='w', after=nm[-1] != '!', order=True, mods=('srfi-1',), sortset=True))
    return SPEC

def build_tree(d, path=''):
    if d == 0: return Sym('t' + path)
    return Pair(build_tree(d - 1, path + 'a'), build_tree(d - 1, path + 'd'))
def partial_trees(d):
    if d == 0: return [a_]
    sub = partial_trees(d - 1)
    return [a_] + [Pair(x, y) for x in sub[:4] for y in sub[:4]]

def noeq(nm, keys, pools):
    """eq? on numbers and characters is unspecified: not used as keys of memq and assq"""
    if nm in ('memq', 'assq'):
        keys = [k for k in keys if not isinstance(k.make(), (int, Char)) or k.make() is False]
    return keys, pools

def items(tier):
    n = len(build(tier))
    return [(cfg, i, i + 8) for cfg in ('compact', 'fatty') for i in range(0, n, 8)]

def run_item(item, st, tier):
    cfg, lo, hi = item
    for sp in build(tier)[lo:hi]:
        # R5RS procedures are checked before SRFI-1 replaces some of them, and after
        variants = [sp['mods']] if sp['mods'] else [(), ('srfi-1',)]
        rows = [row(sp, a) for a in sp['args']]
        rows += [row(sp, a, 1) for a in sp['args'][::3]]
        for mods in variants:
            spec = dict(cfg=cfg, flavor='rel', files=['tr.scm'] + (['use1.scm'] if mods else []))
            table.run(st, spec, rows, mode=sp['mode'])
        st.add('procedures')
