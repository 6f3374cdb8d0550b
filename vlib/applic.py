"""Applications of one procedure to enumerated arguments: source text and the
expected observation according to a Python model."""
from .table import V, E, Exp
from .model import *

class Either(Exception):
    """the model allows an error or this value"""
    def __init__(self, v): self.v = v
class OneOf:
    """the model allows any of these values"""
    def __init__(self, vs): self.vs = vs

def finite_items(l):
    o = []
    while isinstance(l, Pair): o.append(l.car); l = l.cdr
    return o, l
class Ctx:
    def __init__(self): self.out = []
class Fn:
    """procedure argument: Scheme source and Python definition"""
    def __init__(self, src, f, traced=True):
        self.src = '(%%tr %s)' % src if traced else src
        self.f = f; self.traced = traced
    def bind(self, ctx):
        def g(*a):
            if self.traced: ctx.out.append(wr(ls(*a)))
            return self.f(*a)
        return g

class Arg:
    """An argument: Scheme source and a maker of its model value."""
    def __init__(self, src, make): self.src = src; self.make = make
def fresh(o):
    """what mk(o) builds: no sharing"""
    if isinstance(o, Pair):
        items, t = finite_items(o)
        return ls_([fresh(x) for x in items], fresh(t))
    if isinstance(o, Vec): return Vec([fresh(x) for x in o.v])
    if isinstance(o, Str): return Str(o.s)
    return o
def A(o): return Arg(mk(o), lambda: fresh(o))
def F(fn): return Arg(fn.src, lambda: fn)
def row(sp, args, style=0):
    ctx = Ctx()
    vals = [a.make() for a in args]
    before = vals
    call = [v.bind(ctx) if isinstance(v, Fn) else v for v in vals]
    names = ['a%d' % i for i in range(len(args))]
    binds = ''.join('(%s %s)' % (n, a.src) for n, a in zip(names, args))
    kinds = 'V'
    try:
        r = sp['model'](*call)
        good = True
    except Either as e:
        r = e.v
        good = True; kinds = 'VE'
    except SErr:
        good = False
    app = '(%s%s)' % (sp['name'], ''.join(' ' + n for n in names))
    if style == 1: app = '(apply %s (list %s))' % (sp['name'], ' '.join(names))
    rec = names if sp['after'] else []
    recs = [n for n, v in zip(names, vals) if n in rec and not isinstance(v, Fn)]
    recv = [v for n, v in zip(names, vals) if n in rec and not isinstance(v, Fn)]
    if good and isinstance(r, Values):
        src = '(let (%s) (call-with-values (lambda () %s) (lambda r (list r %s))))' % (binds, app, ' '.join(recs))
        rv = ls(*r.vs)
    else:
        src = '(let (%s) (let ((r %s)) (list r %s)))' % (binds, app, ' '.join(recs))
        rv = r if good else None
    if sp.get('sortset') and good:
        src = '(let (%s) (let ((r %s)) (list (filter (lambda (x) (member x r)) (iota 9)) (length r) %s)))' % (binds, app, ' '.join(recs))
        xs = sorted(pl(rv))
        recv = [len(xs)] + recv
        rv = ls_(xs)
    out = ''.join(ctx.out)
    if not good:
        return src, E(out=None)
    if isinstance(rv, OneOf):
        return src, Exp(None, out, kinds, vals=[wr(ls(v, *recv), sp['mode']) for v in rv.vs])
    if rv is UNDEF:
        # the value of for-each and the like is unspecified
        src = src.replace('(list r ', '(list ')
        res = ls(*recv)
    else:
        res = ls(rv, *recv)
    return src, Exp(wr(res, sp['mode']), out if sp['order'] is not None and kinds == 'V' else None, kinds, outset=not sp['order'])

