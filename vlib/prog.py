"""Programs judged by the reference evaluator."""
from . import rs, table, core
from .rs import M, Sym, tx, parse, Unj, MV, show, UNSPEC
from .table import Exp

def expect(m, r):
    """expectation from the outcome of M.run"""
    k, v = r
    out = None if m.loose else ''.join(m.out)
    if k == 'V':
        if m.loose: return None
        if type(v) is MV: return None
        s = show(v)
        return Exp(s, out)
    if k == 'E': return Exp(None, out, 'E')
    if k == 'R':
        s = show(v)
        return Exp(None, out, 'R')
    return None

class Suite:
    def __init__(self, prologue='', setup=None, maxstep=None):
        self.pro = parse(prologue); self.protx = prologue
        self.m = M()
        if maxstep: self.m.MAXSTEP = maxstep
        self.base = dict(self.m.glob)
    def row(self, forms, src=None):
        """-> (source, Exp) or None if not specified"""
        m = self.m
        m.glob = dict(self.base)
        r = m.run(self.pro + forms)
        e = expect(m, r)
        if e is None: return None
        return (self.protx + ' ' + (src or ' '.join([tx(f) for f in forms])), e)
    def rows(self, progs, st):
        o = []
        for p in progs:
            forms = p if isinstance(p, list) and p and isinstance(p[0], list) and False else [p]
            r = self.row(forms)
            if r is None: st.add('not_judged', 1)
            else: o.append(r)
        return o

def run(st, spec, suite, progs, chunk=20000, schedule=(0, 0), flags='', maxv=3):
    """progs: iterable of programs (a form each)"""
    buf = []
    for p in progs:
        r = suite.row([p])
        if r is None: st.add('not_judged', 1); continue
        buf.append(r)
        if len(buf) >= chunk:
            table.run(st, spec, buf, 'w', flags, maxv=maxv, schedule=schedule); buf = []
    if buf: table.run(st, spec, buf, 'w', flags, maxv=maxv, schedule=schedule)

def runs(st, spec, suite, progs, chunk=20000, schedule=(0, 0), flags='', maxv=3):
    """progs: iterable of lists of forms"""
    buf = []
    for p in progs:
        r = suite.row(p)
        if r is None: st.add('not_judged', 1); continue
        buf.append(r)
        if len(buf) >= chunk:
            table.run(st, spec, buf, 'w', flags, maxv=maxv, schedule=schedule); buf = []
    if buf: table.run(st, spec, buf, 'w', flags, maxv=maxv, schedule=schedule)
