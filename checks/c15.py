"""C15: vector procedures against their definitions."""
import itertools
from vlib import core, table
from vlib.table import V, E, Exp
from vlib.model import *
from vlib.applic import *

ID = 'C15'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of procedure applications on the real code against reference definitions over an explicit heap model (result, sharing, vectors afterwards, call trace)'
NOTE = 'Bounded: every vector up to the stated length over a small element set, every start/end combination in and around the valid range, pools of procedure arguments, one to three vectors; both storages. A start index equal to the length may be accepted or refused (SRFI-43 is ambiguous and the reference implementation refuses it).'
BUILDS = [('compact', 'rel'), ('fatty', 'rel')]
BOUNDS = {'quick': 'vectors up to length 6 over 3 elements (single), 4 (pairs), 3 (triples); start/end from -1 to length+1 or omitted; copies within one vector of length <= 5',
          'thorough': 'vectors up to length 8 over 3 elements (single), 5 (pairs), 3 (triples)'}
NONVACUOUS = {'states': 20000, 'error_cases': 300}

def err(): raise SErr('domain')
def vec(v):
    if not isinstance(v, Vec): err()
    return v.v
truthy = lambda x: x is not False

def rng(n, a, lenient=True):
    """start/end arguments -> (start, end, ambiguous)"""
    if len(a) > 2: err()
    s = a[0] if len(a) > 0 else 0
    e = a[1] if len(a) > 1 else n
    if not 0 <= s <= e <= n: err()
    return s, e, bool(a) and s == n
def ranged(f, result=True):
    """f(v, s, e, ...) over a checked range given by trailing arguments"""
    def g(v, *a):
        s, e, amb = rng(len(vec(v)), a)
        r = f(v, s, e)
        if amb: raise Either(r)
        return r
    return g
def m_fill(v, x, *a):
    s, e, amb = rng(len(vec(v)), a)
    v.v[s:e] = [x] * (e - s)
    if amb: raise Either(UNDEF)
    return UNDEF
def m_copy(v, *a):
    if len(a) > 3: err()
    n = len(vec(v))
    s = a[0] if a else 0
    e = a[1] if len(a) > 1 else n
    fill = a[2] if len(a) > 2 else UNDEF
    if not 0 <= s <= e: err()
    if s > n: err()
    r = Vec(v.v[s:min(e, n)] + [fill] * max(0, e - max(s, n)))
    if a and s == n: raise Either(r)
    return r
def m_vcopy(rev):
    def f(t, ts, s, *a):
        tn = len(vec(t))
        if not 0 <= ts <= tn: err()
        st, en, amb = rng(len(vec(s)), a)
        if ts + (en - st) > tn: raise SErr('partial')
        if rev and t is s and st != ts:
            raise SErr('overlap')
        src = list(s.v[st:en])
        if rev: src.reverse()
        t.v[ts:ts + en - st] = src
        if amb or st == len(s.v) or ts == tn: raise Either(UNDEF)
        return UNDEF
    return f
def m_rev(v, s, e):
    v.v[s:e] = v.v[s:e][::-1]
    return UNDEF
def swap(v, i, j):
    if not (0 <= i < len(v.v) and 0 <= j < len(v.v)): err()
    v.v[i], v.v[j] = v.v[j], v.v[i]
    return UNDEF
def zipv(vs): return list(zip(*[vec(v) for v in vs]))
def vmap(f, *vs): return Vec([f(i, *r) for i, r in enumerate(zipv(vs))])
def vmapx(f, v, *vs):
    rows = zipv((v,) + vs)
    for i, r in reversed(list(enumerate(rows))): v.v[i] = f(i, *r)
    return UNDEF
def vforeach(f, *vs):
    for i, r in enumerate(zipv(vs)): f(i, *r)
    return UNDEF
def vfold(k, z, *vs):
    for i, r in enumerate(zipv(vs)): z = k(i, z, *r)
    return z
def vfoldr(k, z, *vs):
    for i, r in reversed(list(enumerate(zipv(vs)))): z = k(i, z, *r)
    return z
def vcount(f, *vs): return sum(1 for i, r in enumerate(zipv(vs)) if truthy(f(i, *r)))
def vindex(f, *vs):
    for i, r in enumerate(zipv(vs)):
        if truthy(f(*r)): return i
    return False
def vindexr(f, *vs):
    for i, r in reversed(list(enumerate(zipv(vs)))):
        if truthy(f(*r)): return i
    return False
def neg(f): return lambda *a: not truthy(f(*a))
def vany(f, *vs):
    for r in zipv(vs):
        x = f(*r)
        if truthy(x): return x
    return False
def vevery(f, *vs):
    x = True
    for r in zipv(vs):
        x = f(*r)
        if not truthy(x): return False
    return x
def veq(e, *vs):
    for v in vs: vec(v)
    for a, b in zip(vs, vs[1:]):
        if a is b: continue
        if len(a.v) != len(b.v): return False
        for x, y in zip(a.v, b.v):
            if not eqv(x, y) and not truthy(e(x, y)): return False
    return True
def vbs(v, x, cmp, *a):
    s, e, amb = rng(len(vec(v)), a)
    r = [i for i in range(s, e) if v.v[i] == x]
    r = OneOf(r) if len(r) > 1 else r[0] if r else False
    if amb: raise Either(r)
    return r
def unfold(right):
    def f(g, n, *seeds):
        if n < 0: err()
        v = [None] * n
        seeds = list(seeds)
        for i in (reversed(range(n)) if right else range(n)):
            r = g(i, *seeds)
            if isinstance(r, Values):
                v[i] = r.vs[0]; seeds = r.vs[1:]
            else: v[i] = r
        return Vec(v)
    return f
def l2v(l, *a):
    l = pl(l)
    if len(a) > 2: err()
    s = a[0] if a else 0
    e = a[1] if len(a) > 1 else len(l)
    if not 0 <= s <= e <= len(l): err()
    return Vec(l[s:e])
def rl2v(l, *a):
    r = l2v(l, *a); r.v.reverse(); return r
def vref(v, k):
    if not 0 <= k < len(vec(v)): err()
    return v.v[k]
def vset(v, k, x):
    vref(v, k); v.v[k] = x
    return UNDEF
def mkv(n, x=UNDEF):
    if n < 0: err()
    return Vec([x] * n)
def vcat(*vs): return Vec([x for v in vs for x in vec(v)])

num = lambda x: type(x) is int
LIST = Fn('list', lambda *a: ls(*a))
PI = [Fn('(lambda (i x) (and (odd? i) (eqv? x 1)))', lambda i, x: i % 2 == 1 and eqv(x, 1)), Fn('(lambda (i x) #t)', lambda i, x: True)]
PI2 = [Fn('(lambda (i x y) (and (odd? i) (eqv? x y)))', lambda i, x, y: i % 2 == 1 and eqv(x, y)), Fn('(lambda (i x y) 1)', lambda i, x, y: 1)]
P1 = [Fn('(lambda (x) (and (eqv? x 2) (list x)))', lambda x: eqv(x, 2) and ls(x)), Fn('(lambda (x) (eqv? x 1))', lambda x: eqv(x, 1)), Fn('(lambda (x) #t)', lambda x: True), Fn('(lambda (x) #f)', lambda x: False)]
P2 = [Fn('(lambda (x y) (and (eqv? x y) (list x y)))', lambda x, y: eqv(x, y) and ls(x, y)), Fn('(lambda (x y) #t)', lambda x, y: True), Fn('(lambda (x y) (eqv? x 2))', lambda x, y: eqv(x, 2))]
P3 = [Fn('(lambda (x y z) (and (eqv? x y) (eqv? y z)))', lambda x, y, z: eqv(x, y) and eqv(y, z)), Fn('(lambda (x y z) #t)', lambda x, y, z: True)]
CMP = Fn('-', lambda a, b: a - b, False)

SPEC = []
def proc(name, model, args, mode='s', after=True, order=True, mods=(1,)):
    SPEC.append(dict(name=name, model=model, args=args, mode=mode, after=after, order=order, mods=mods))

def vecs(n, els): return [A(Vec(t)) for k in range(n + 1) for t in itertools.product(els, repeat=k)]
class Same:
    pass

def build(tier):
    SPEC.clear()
    q = tier == 'quick'
    N1, E1, N2, N3 = (6, (1, 2, 3), 4, 3) if q else (8, (1, 2, 3), 5, 3)
    one = vecs(N1, E1) + [A(Vec([1 + (i * i) % 5 % 2 for i in range(n)])) for n in (7, 8, 9, 16, 33)]
    two, two2 = vecs(N2, (1, 2)), vecs(N2, (2, 3))
    tri = vecs(N3, (1, 2))
    dist = [A(Vec(range(10, 10 + n))) for n in range(0, N1 + 1)]
    odd = [A(x) for x in (5, Sym('a'), Str('ab'), ls(1, 2), True)]
    X = lambda *p: list(itertools.product(*p))
    fx = lambda fs: [F(f) for f in fs]
    R5 = ()
    N = lambda v: len(v.make().v)
    I = lambda a, b: [A(i) for i in range(a, b + 1)]
    def withrange(vs, extra=((),), beyond=1):
        o = []
        for v in vs:
            n = N(v)
            for ex in extra:
                o.append((v,) + ex)
                for s in I(-1, n + 1):
                    o.append((v,) + ex + (s,))
                    for e in I(-1, n + beyond): o.append((v,) + ex + (s, e))
                o.append((v,) + ex + (A(0), A(n), A(0)))
        return o
    # R5RS
    proc('vector?', lambda x: isinstance(x, Vec), X(one + odd), mods=R5)
    proc('vector', lambda *a: Vec(a), X() + X(tri) + X(tri, odd) + X(tri, tri, tri) + X(*[I(1, 2)] * 5), mods=R5)
    proc('make-vector', mkv, X(I(-1, 6)) + X(I(-1, 6), odd + tri), mods=R5)
    proc('vector-length', lambda v: len(vec(v)), X(one + odd), mods=R5)
    proc('vector-ref', vref, X(one, I(-1, 8)) + X(odd, I(0, 0)), mods=R5)
    proc('vector-set!', vset, X(one, I(-1, 8), [A(9), A(ls(1))]), mods=R5)
    proc('vector->list', lambda v: ls_(vec(v)), X(one + odd), mods=R5)
    proc('list->vector', lambda l: Vec(pl(l)), X([A(ls_(v.make().v)) for v in one] + [A(ls(1, tail=2)), A(5)]), mods=R5)
    proc('vector-fill!', lambda v, x: m_fill(v, x), X(one, [A(9), A(ls(1))]), mods=R5)
    # constructors
    for right in (False, True):
        nm = 'vector-unfold' + ('-right' if right else '')
        proc(nm, unfold(right), X([F(Fn('(lambda (i) (* 10 i))', lambda i: 10 * i))], I(-1, 6))
             + X([F(Fn('(lambda (i s) (values (cons i s) (* 2 s)))', lambda i, s: Values([Pair(i, s), 2 * s])))], I(0, 6), I(1, 3))
             + X([F(Fn('(lambda (i s t) (values (list i s t) (+ s t) s))', lambda i, s, t: Values([ls(i, s, t), s + t, s])))], I(0, 6), I(1, 3), I(1, 2)))
    proc('vector-copy', m_copy, withrange(one[:20] + dist, beyond=3) + [(v, s, e, A(7)) for v in dist for s in I(-1, N(v) + 1) for e in I(-1, N(v) + 3)])
    proc('vector-reverse-copy', ranged(lambda v, s, e: Vec(v.v[s:e][::-1])), withrange(one[:20] + dist))
    proc('vector-append', vcat, X() + X(one) + X(two, two2) + X(tri, tri, tri) + X(tri, odd))
    proc('vector-concatenate', lambda l: vcat(*pl(l)), [(A(ls(*[v.make() for v in t])),) for t in X() + X(two) + X(two, two2) + X(tri, tri, tri)])
    # predicates
    proc('vector-empty?', lambda v: len(vec(v)) == 0, X(one + odd))
    EQ = Fn('eqv?', eqv, False); M2 = Fn('(lambda (a b) (= (modulo a 2) (modulo b 2)))', lambda a, b: a % 2 == b % 2, False); LT = Fn('(lambda (a b) (< a b))', lambda a, b: a < b, False)
    for f in fx((EQ, M2)):
        proc('vector=', veq, X([f]) + X([f], two) + X([f], two, two) + X([f], two, two2) + X([f], tri, tri, tri))
    # iteration
    for nm, m in (('vector-fold', vfold), ('vector-fold-right', vfoldr)):
        proc(nm, m, X([F(LIST)], [A(NIL), A(0)], one) + X([F(LIST)], [A(0)], two, two2) + X([F(LIST)], [A(0)], tri, tri, tri))
    for nm, m, o in (('vector-map', vmap, False), ('vector-map!', vmapx, False), ('vector-for-each', vforeach, True)):
        proc(nm, m, X([F(LIST)], one) + X([F(LIST)], two, two2) + X([F(LIST)], tri, tri, tri), order=o)
    proc('vector-count', vcount, X(fx(PI), one) + X(fx(PI2), two, two2))
    for nm, m in (('vector-index', vindex), ('vector-index-right', vindexr), ('vector-skip', lambda f, *v: vindex(neg(f), *v)), ('vector-skip-right', lambda f, *v: vindexr(neg(f), *v)), ('vector-any', vany), ('vector-every', vevery)):
        proc(nm, m, X(fx(P1), one) + X(fx(P2), two, two2) + X(fx(P2), two, two) + X(fx(P3), tri, tri, tri))
    srt = [A(Vec(t)) for n in range(0, 8 if q else 9) for t in itertools.combinations_with_replacement(range(1, 6), n)]
    srt += [A(Vec([2 * i for i in range(n)])) for n in range(7, 34)]
    proc('vector-binary-search', vbs, [(v, A(k), F(CMP)) for v in srt for k in range(0, 8)] + [(v, A(k), F(CMP)) for v in srt[-27:] for k in range(-1, 68)])
    proc('vector-binary-search', vbs, [(v, A(k), F(CMP), s, e) for v in [A(Vec([2 * i for i in range(n)])) for n in range(0, 7)] for k in range(-1, 14) for s in I(-1, N(v) + 1) for e in I(-1, N(v) + 1)])
    # mutators
    proc('vector-swap!', swap, [(v, i, j) for v in dist for i in I(-1, N(v)) for j in I(-1, N(v))])
    proc('vector-fill!', m_fill, withrange(one[:20] + dist, ((A(9),),)))
    proc('vector-reverse!', ranged(m_rev), withrange(one[:20] + dist + [A(Vec(range(9)))]))
    cp = []
    for t in dist:
        for s in [A(Vec(range(20, 20 + n))) for n in range(0, N1 + 1)]:
            for ts in I(-1, N(t) + 1):
                cp += [(t, ts) + r for r in withrange([s])]
    proc('vector-copy!', m_vcopy(False), cp)
    proc('vector-reverse-copy!', m_vcopy(True), cp)
    # conversion
    proc('vector->list', ranged(lambda v, s, e: ls_(v.v[s:e])), withrange(one[:20] + dist))
    proc('reverse-vector->list', ranged(lambda v, s, e: ls_(v.v[s:e][::-1])), withrange(one[:20] + dist))
    lsts = [A(ls_(range(n))) for n in range(0, 7)]
    lr = []
    for l in lsts:
        n = len(pl(l.make()))
        lr += [(l,)] + [(l, s) for s in I(-1, n + 1)] + [(l, s, e) for s in I(-1, n + 1) for e in I(-1, n + 1)]
    proc('list->vector', l2v, lr)
    proc('reverse-list->vector', rl2v, lr)
    return SPEC

def items(tier):
    n = len(build(tier))
    return [(cfg, i) for cfg in ('compact', 'fatty') for i in range(n)] + [(cfg, 'self') for cfg in ('compact', 'fatty')] + [(cfg, 'history') for cfg in ('compact', 'fatty')]

def self_rows(tier):
    """copies within one vector"""
    rows = []
    N = 6 if tier == 'quick' else 8
    for n in range(0, N):
        for name, rev in (('vector-copy!', False), ('vector-reverse-copy!', True)):
            for ts in range(-1, n + 2):
                rs = [()] + [(s,) for s in range(-1, n + 2)] + [(s, e) for s in range(-1, n + 2) for e in range(-1, n + 2)]
                for r in rs:
                    v = Vec(range(n))
                    src = '(let ((v (vector %s))) (%s v %d v %s) v)' % (' '.join(map(str, v.v)), name, ts, ' '.join(map(str, r)))
                    try:
                        m_vcopy(rev)(v, ts, v, *r)
                        e = Exp(wr(v), '')
                    except Either:
                        e = Exp(wr(v), '', 'VE')
                    except SErr as x:
                        if str(x) == 'overlap':
                            # the reference implementation refuses what the property promises; accept
                            # a refusal or the read-first result
                            st, en, _ = rng(n, r)
                            s = list(v.v[st:en])[::-1]; v.v[ts:ts + en - st] = s
                            e = Exp(wr(v), '', 'VE')
                        else:
                            e = E(None)
                    rows.append((src, e))
    return rows

def hist_rows(tier):
    """all histories of mutations on two vectors, one of which holds the other's elements"""
    ops = [('(vector-set! a 0 x)', lambda a, b, x: vset(a, 0, x)), ('(vector-set! b 1 a)', lambda a, b, x: vset(b, 1, a)),
           ('(vector-fill! a b)', lambda a, b, x: m_fill(a, b)), ('(vector-fill! b x)', lambda a, b, x: m_fill(b, x)),
           ('(vector-set! a 1 (vector-ref b 0))', lambda a, b, x: vset(a, 1, vref(b, 0))),
           ('(vector-set! x 0 (vector-ref a 1))', lambda a, b, x: vset(x, 0, vref(a, 1))),
           ('(vector-set! a 2 x)', lambda a, b, x: vset(a, 2, x))]
    D = 4 if tier == 'quick' else 5
    rows = []
    for d in range(1, D + 1):
        for t in itertools.product(ops, repeat=d):
            a, b, x = Vec([1, 2]), Vec([3, 4, 5]), Vec([6])
            src = "(let* ((a (vector 1 2)) (b (vector 3 4 5)) (x (vector 6))) (let ((k (map (lambda (f) (guard (e (#t 'e)) (f) 'ok)) (list %s)))) (list k a b x)))" % ' '.join('(lambda () %s)' % o[0] for o in t)
            k = []
            for o in t:
                try:
                    o[1](a, b, x); k.append(Sym('ok'))
                except SErr: k.append(Sym('e'))
            rows.append((src, Exp(wr(ls(ls_(k), a, b, x), 's'), '')))
    return rows

def run_item(item, st, tier):
    cfg, n = item
    spec = dict(cfg=cfg, flavor='rel', files=['tr.scm', 'use43.scm'])
    if n == 'self':
        table.run(st, spec, self_rows(tier)); return
    if n == 'history':
        rows = hist_rows(tier)
        table.run(st, dict(cfg=cfg, flavor='rel', files=['tr.scm']), rows, mode='s')
        return
    sp = build(tier)[n]
    rows = [row(sp, a) for a in sp['args']]
    rows += [row(sp, a, 1) for a in sp['args'][::4]]
    table.run(st, spec, rows, mode=sp['mode'])
    if not sp['mods']:
        table.run(st, dict(cfg=cfg, flavor='rel', files=['tr.scm']), rows, mode=sp['mode'])
    st.add('procedures')
