"""Reference evaluator: R5RS core, SRFI-23/34, nested (escape-only) continuations.

Programs are Python data: int, bool, Sym, Str, Char, NIL-free lists for proper lists, Dot for improper ones.
Unj is raised when the program's behaviour is not specified; `loose` is set when the order of effects before an error
is not specified.
"""
from .model import Sym, Char, Pair, NIL, Str, Vec, UNDEF, wr, eqv, equal, ls_

class Dot(list):
    """improper list: elements + tail"""
    __slots__ = ('tail',)
    def __init__(self, xs, tail): list.__init__(self, xs); self.tail = tail
class Vlit(list):
    """vector literal"""
    __slots__ = ()

S = Sym
def tx(x):
    t = type(x)
    if t is Sym: return x.n
    if t is list: return '(' + ' '.join([tx(e) for e in x]) + ')'
    if t is Dot: return '(' + ' '.join([tx(e) for e in x]) + ' . ' + tx(x.tail) + ')'
    if t is Vlit: return '#(' + ' '.join([tx(e) for e in x]) + ')'
    return wr(x)

ALIAS = {}      # identifiers inserted by a syntax-rules template: alias -> (identifier, environment of the macro)
def alias(s, env):
    a = object.__new__(Sym); a.n = s.n
    ALIAS[a] = (s, env)
    return a
def base(s):
    while s in ALIAS: s = ALIAS[s][0]
    return s

def data(x):
    """datum of a piece of program"""
    t = type(x)
    if t is Sym: return base(x) if ALIAS else x
    if t is list: return ls_([data(e) for e in x])
    if t is Dot: return ls_([data(e) for e in x], data(x.tail))
    if t is Vlit: return Vec([data(e) for e in x], True)
    return x
def code(x):
    """program of a datum"""
    if isinstance(x, Pair):
        o = []
        while isinstance(x, Pair):
            o.append(code(x.car)); x = x.cdr
        return o if x is NIL else Dot(o, code(x))
    if x is NIL: return []
    if isinstance(x, Vec): return Vlit([code(e) for e in x.v])
    return x

class Unj(Exception): pass
class Throw(Exception):
    def __init__(self, k, val): self.k = k; self.val = val
class Escape(Exception):
    """guard caught: thunk giving the values"""
class Uncaught(Exception):
    def __init__(self, obj): self.obj = obj

class _Uns:
    def __repr__(self): return '#<unspecified>'
UNSPEC = _Uns()
UNBOUND = object()
LETREC = object()

class Env:
    __slots__ = ('d', 'up')
    def __init__(self, d, up): self.d = d; self.up = up

class Syntax:
    __slots__ = ('n', 'fn')
    def __init__(self, n, fn): self.n = n; self.fn = fn
class Macro:
    __slots__ = ('f',)
    def __init__(self, f): self.f = f
class SynMacro:
    """syntax-rules macro: checked rules and environment of the definition"""
    __slots__ = ('rules', 'env')
    def __init__(self, rules, env): self.rules = rules; self.env = env
class Prim:
    __slots__ = ('n', 'fn', 'lo', 'hi')
    def __init__(self, n, fn, lo, hi): self.n = n; self.fn = fn; self.lo = lo; self.hi = hi
    def __repr__(self): return '#<proc>'
class Closure:
    __slots__ = ('req', 'rest', 'body', 'env')
    def __init__(self, req, rest, body, env): self.req = req; self.rest = rest; self.body = body; self.env = env
    def __repr__(self): return '#<proc>'
class Cont:
    __slots__ = ('alive', 'dyn')
    def __init__(self, dyn): self.alive = True; self.dyn = dyn
    def __repr__(self): return '#<proc>'
class Promise:
    __slots__ = ('x', 'env', 'done', 'val')
    def __init__(self, x, env): self.x = x; self.env = env; self.done = False
    def __repr__(self): return '#<promise>'
class MV:
    __slots__ = ('vs',)
    def __init__(self, vs): self.vs = vs
class ErrObj:
    __slots__ = ('msg', 'irr', 'user')
    def __init__(self, msg, irr=(), user=False): self.msg = msg; self.irr = list(irr); self.user = user
    def __repr__(self): return '#<error>'

PROCS = (Prim, Closure, Cont)
KEYWORDS = (Syntax, Macro, SynMacro)
def is_proc(x):
    if x is UNSPEC: raise Unj("unspecified procedure")
    return isinstance(x, PROCS)
def true(x):
    if x is UNSPEC: raise Unj('truth of an unspecified value')
    return x is not False

q_define, q_begin, q_else, q_yields, q_quote, q_lambda = map(Sym, ('define', 'begin', 'else', '=>', 'quote', 'lambda'))
q_unquote, q_unqs, q_quasi = map(Sym, ('unquote', 'unquote-splicing', 'quasiquote'))

class M:
    """machine"""
    MAXSTEP = 20000
    def __init__(self, extra=None):
        self.glob = dict(GLOBALS)
        if extra: self.glob.update(extra)
        self.top = None
        self.reset()
    def reset(self):
        ALIAS.clear()
        self.out = []; self.handlers = (); self.dyn = None; self.ks = []; self.loose = False; self.steps = 0; self.lits = {}
    # --- errors
    def err(self, msg='error', *irr, loose=False):
        if loose: self.loose = True
        self.raise_(ErrObj(msg, irr))
    def raise_(self, obj):
        if not self.handlers: raise Uncaught(obj)
        h = self.handlers[0]; rest = self.handlers[1:]
        def th():
            self.apply(h, [obj])
            self.err('handler returned')
        return self.with_handlers(rest, th)
    def with_handlers(self, hs, th):
        prev = self.handlers
        def before(): self.handlers = hs
        def after(): self.handlers = prev
        return self.wind(before, th, after)
    def wind(self, before, th, after):
        before()
        self.dyn = (after, self.dyn)
        r = th()
        self.dyn = self.dyn[1]
        after()
        return r
    def callcc(self, f):
        """f: python function of the continuation"""
        k = Cont(self.dyn)
        self.ks.append(k)
        try:
            r = f(k)
        except Throw as t:
            if t.k is k: return t.val
            raise
        self.expire(k)
        return r
    def expire(self, k):
        while True:
            x = self.ks.pop()
            x.alive = False
            if x is k: break
    def throw(self, k, val):
        if not k.alive: self.err('expired continuation')
        self.expire(k)
        while self.dyn is not k.dyn and self.dyn is not None:
            after, self.dyn = self.dyn
            after()
        raise Throw(k, val)
    # --- environments
    def look(self, s, env):
        while env is not None:
            if s in env.d: return env.d[s]
            env = env.up
        if s in ALIAS: return self.look(*ALIAS[s])
        return self.glob.get(s, UNBOUND)
    def ref(self, s, env):
        v = self.look(s, env)
        if v is UNBOUND: self.err('unbound variable')
        if v is LETREC: raise Unj('letrec restriction')
        if type(v) in KEYWORDS:
            self.err('keyword as value')
        return v
    def assign(self, s, env, v):
        while env is not None:
            if s in env.d:
                if env.d[s] is LETREC: raise Unj('letrec restriction')
                env.d[s] = v; return
            env = env.up
        if s in ALIAS: return self.assign(*ALIAS[s], v)
        if s not in self.glob: self.err('unbound variable')
        if s in PROTECTED: raise Unj('global redefinition')
        self.glob[s] = v
    def is_kw(self, x, kw, env):
        """x is the keyword kw, not shadowed locally"""
        if x is not kw and (type(x) is not Sym or base(x) is not kw): return False
        while env is not None:
            if x in env.d: return False
            env = env.up
        return x is kw or self.is_kw(ALIAS[x][0], kw, ALIAS[x][1])
    def same(self, x, xenv, y, yenv):
        """the identifiers denote the same binding"""
        return self.where(x, xenv) == self.where(y, yenv)
    def where(self, s, env):
        while env is not None:
            if s in env.d: return id(env), s
            env = env.up
        if s in ALIAS: return self.where(*ALIAS[s])
        return None, s
    # --- evaluation
    def syn(self, what='syntax'):
        self.err(what, loose=True)
    def ev(self, x, env, top=False):
        t = type(x)
        if t is Sym: return self.ref(x, env)
        if t is list:
            if not x: raise Unj('() is accepted')
            h = x[0]
            if type(h) is Sym:
                f = self.look(h, env)
                if f is UNBOUND: self.err('unbound variable', loose=True)
                if f is LETREC: raise Unj('letrec restriction')
                if type(f) is Syntax: return f.fn(self, x, env, top)
                if type(f) is SynMacro:
                    self.steps += 1
                    if self.steps > self.MAXSTEP: raise Unj('too long')
                    return self.ev(synrules.expand(self, f, x, env), env, top)
                if type(f) is Macro:
                    self.steps += 1
                    if self.steps > self.MAXSTEP: raise Unj('too long')
                    e = self.apply(f.f, [data(a) for a in x[1:]])
                    if isinstance(e, MV): self.err('values')
                    return self.ev(code(e), env, top)
            else:
                f = self.ev1(h, env)
            if type(f) is Cont and len(x) == 2:
                v = self.ev(x[1], env)
                if type(v) is MV: raise Unj('values passed as one value to a continuation')
                return self.throw(f, v)
            if not isinstance(f, PROCS) and f is not UNSPEC:
                try: args = [self.ev1(a, env) for a in x[1:]]
                except Throw: raise Unj('escape from an operand of a call of a non-procedure')
            else: args = [self.ev1(a, env) for a in x[1:]]
            return self.apply(f, args)
        if t is Dot:
            if type(x[0]) is Sym:
                f = self.look(x[0], env)
                if type(f) is Syntax: return f.fn(self, x, env, top)
                if type(f) is SynMacro: return self.ev(synrules.expand(self, f, x, env), env, top)
            self.syn()
        if t is Vlit: raise Unj('vector form')
        if t is Str or t is Vec or x is NIL or t is Pair:
            if t is Str: return x
            if t is Pair or x is NIL: return self.ev(code(x), env, top)
            self.syn()
        return x
    def ev1(self, x, env):
        v = self.ev(x, env)
        if type(v) is MV: self.err('values not allowed')
        return v
    def apply(self, f, args):
        self.steps += 1
        if self.steps > self.MAXSTEP: raise Unj('too long')
        t = type(f)
        if t is Closure:
            n = len(f.req)
            if len(args) < n or (f.rest is None and len(args) > n): self.err('arity', loose=True)
            d = dict(zip(f.req, args))
            if f.rest is not None: d[f.rest] = ls_(args[n:])
            return self.body(f.body, Env(d, f.env))
        if t is Prim:
            if len(args) < f.lo or (f.hi is not None and len(args) > f.hi): self.err('arity', loose=True)
            return f.fn(self, *args)
        if t is Cont:
            return self.throw(f, args[0] if len(args) == 1 else MV(args))
        if f is UNSPEC: raise Unj('call of an unspecified value')
        self.err('not a procedure', loose=True)
    def seq(self, xs, env, top=False):
        """command* expression"""
        if type(xs) is Dot: self.syn()
        if not xs: self.syn()
        for x in xs[:-1]:
            v = self.ev(x, env, top)
            if type(v) is MV: self.err('values not allowed')
        return self.ev(xs[-1], env, top)
    def scan(self, body, env, defs):
        """split definitions off; -> rest"""
        i = 0
        while i < len(body):
            x = body[i]
            if type(x) is not list and type(x) is not Dot or not x: break
            h = x[0]
            if self.is_kw(h, q_begin, env):
                n = len(defs)
                if type(x) is Dot: self.syn()
                rest = self.scan(x[1:], env, defs)
                if rest:
                    if len(rest) == len(x) - 1: return body[i:]
                    self.syn('intermixed')
            elif self.is_kw(h, q_define, env):
                if len(x) < 2: self.syn()
                v = x[1]
                if type(v) is Sym:
                    if len(x) != 3 or type(x) is Dot: self.syn()
                    defs.append((v, x[2]))
                elif type(v) in (list, Dot) and v:
                    if type(v[0]) is not Sym: self.syn()
                    f = v[1:]
                    if type(x) is Dot and len(x) > 2: raise Unj('improper body')
                    if type(v) is Dot: f = Dot(f, v.tail) if f else v.tail
                    defs.append((v[0], LAM(f, x[2:])))
                else: self.syn()
            else: break
            i += 1
        return body[i:]
    def body(self, body, env):
        if type(body) is Dot: self.syn()
        defs = []
        rest = self.scan(body, env, defs)
        if defs:
            names = [d[0] for d in defs]
            if len(set(names)) < len(names): raise Unj('duplicate definition')
            if any(base(n) in (q_define, q_begin) for n in names): raise Unj('definition of define')
            env = Env({n: UNBOUND for n in names}, env)
            vals = []
            for n, x in defs:
                v = x.ev(self, env) if type(x) is LAM else self.ev1(x, env)
                vals.append(v)
            for n, v in zip(names, vals): env.d[n] = v
        if not rest: self.syn()
        return self.seq(rest, env)
    def run(self, forms):
        """-> ('V', value) | ('E', None) | ('R', obj) | ('U', why)"""
        self.reset()
        res = []
        def handler(m, c):
            if res: raise Unj('error while unwinding to the toplevel')
            res.append(c)
            def hb(hk):
                return self.throw(topk[0], None)
            return self.callcc(hb)
        topk = []
        def all_(k):
            topk.append(k)
            def th():
                v = UNDEF
                for i, x in enumerate(forms):
                    v = self.ev(x, None, True)
                    if type(v) is MV and i < len(forms) - 1: raise Unj('values of a form that is not the last')
                return v
            return self.with_handlers((Prim('top', handler, 1, 1),), th)
        try:
            v = self.callcc(all_)
            if res: return ('E', res[0]) if isinstance(res[0], ErrObj) else ('R', res[0])
            return 'V', v
        except Uncaught as u:
            return 'U', 'raised past the toplevel'
        except Unj as u:
            return 'U', str(u)
        except RecursionError:
            return 'U', 'deep'
        except Throw:
            return 'U', 'throw'

class LAM:
    __slots__ = ('f', 'b')
    def __init__(self, f, b): self.f = f; self.b = b
    def ev(self, m, env): return mklambda(m, self.f, self.b, env)

def mklambda(m, formals, body, env):
    if type(formals) is Sym: req, rest = [], formals
    elif type(formals) is Dot: req, rest = list(formals), formals.tail
    elif type(formals) is list: req, rest = formals, None
    else: m.syn()
    for s in req + ([rest] if rest is not None else []):
        if type(s) is not Sym: m.syn()
    if len(set(req + ([rest] if rest else []))) < len(req) + (rest is not None): raise Unj('duplicate formals')
    if type(body) is Dot: raise Unj('improper body')
    if not body: m.syn()
    return Closure(req, rest, body, env)

# --- syntaxes: fn(m, form, env, top)
def proper(m, x, lo, hi=None):
    if type(x) is Dot or len(x) - 1 < lo or (hi is not None and len(x) - 1 > hi): m.syn()
def s_quote(m, x, env, top):
    proper(m, x, 1, 1)
    y = x[1]
    if type(y) is Sym: return base(y)
    if type(y) in (list, Dot, Vlit):
        k = id(y)
        if k not in m.lits: m.lits[k] = (y, data(y))
        return m.lits[k][1]
    return y
def s_lambda(m, x, env, top):
    if type(x) is Dot and len(x) > 2: raise Unj('improper body')
    proper(m, x, 2)
    return mklambda(m, x[1], x[2:], env)
def s_if(m, x, env, top):
    proper(m, x, 2, 3)
    if true(m.ev1(x[1], env)): return m.ev(x[2], env)
    if len(x) == 4: return m.ev(x[3], env)
    return UNSPEC
def s_set(m, x, env, top):
    proper(m, x, 2, 2)
    if type(x[1]) is not Sym: m.syn()
    v = m.ev1(x[2], env)
    m.assign(x[1], env, v)
    return UNSPEC
def s_define(m, x, env, top):
    if type(x) is Dot and len(x) > 2: raise Unj('improper body')
    if env is None and not top: raise Unj('definition in a toplevel expression')
    if env is not None: m.syn()
    proper(m, x, 2)
    v = x[1]
    if (v[0] if type(v) in (list, Dot) and v and type(v[0]) is Sym else v if type(v) is Sym else None) in PROTECTED: raise Unj('global redefinition')
    if type(v) is Sym:
        proper(m, x, 2, 2)
        m.glob[base(v)] = m.ev1(x[2], env)
    elif type(v) in (list, Dot) and v and type(v[0]) is Sym:
        f = v[1:]
        if type(v) is Dot: f = Dot(f, v.tail) if f else v.tail
        m.glob[base(v[0])] = mklambda(m, f, x[2:], env)
    else: m.syn()
    return UNSPEC
def s_begin(m, x, env, top):
    if type(x) is Dot: m.syn()
    if len(x) == 1:
        if top and env is None: return UNSPEC
        if env is None: raise Unj('(begin) in a toplevel expression')
        m.syn()
    return m.seq(x[1:], env, top)
def s_cond(m, x, env, top):
    if type(x) is list: proper(m, x, 1)
    r = cond(m, x[1:], env, type(x) is Dot)
    if r is None and type(x) is Dot: m.syn()
    return UNSPEC if r is None else r
def cond(m, clauses, env, dot=False):
    """None if no clause matches"""
    for i, c in enumerate(clauses):
        if type(c) not in (list, Dot) or not c: m.syn()
        if m.is_kw(c[0], q_else, env):
            if i < len(clauses) - 1 or dot: m.syn()
            if type(c) is Dot: m.syn()
            return m.seq(c[1:], env)
        v = m.ev1(c[0], env)
        if true(v):
            if dot: raise Unj('improper clauses')
            if type(c) is Dot: m.syn()
            if len(c) == 1: return v
            if len(c) == 3 and m.is_kw(c[1], q_yields, env):
                f = m.ev1(c[2], env)
                if not is_proc(f): m.err('=> not a procedure', loose=True)
                return m.apply(f, [v])
            return m.seq(c[1:], env)
    return None
def s_case(m, x, env, top):
    dot = type(x) is Dot
    if len(x) < 2 or (len(x) < 3 and not dot): m.syn()
    k = m.ev1(x[1], env)
    if k is UNSPEC: raise Unj('unspecified key')
    if isinstance(k, (Str, Vec)): raise Unj('identity of literals')
    for i, c in enumerate(x[2:]):
        if type(c) not in (list, Dot) or not c: m.syn()
        if m.is_kw(c[0], q_else, env):
            if i < len(x) - 3 or type(c) is Dot or dot: m.syn()
            return m.seq(c[1:], env)
        if type(c[0]) is Dot and any(eqv(k, d) for d in c[0]): raise Unj('improper data')
        if type(c[0]) is not list: m.syn()
        if any(eqv(k, d) if type(d) is not list or d else k is NIL for d in c[0]):
            if type(c) is Dot: m.syn()
            if dot: raise Unj('improper clauses')
            return m.seq(c[1:], env)
    if dot: m.syn()
    return UNSPEC
def s_and(m, x, env, top):
    if type(x) is Dot: m.syn()
    if len(x) == 1: return True
    for y in x[1:-1]:
        if not true(m.ev1(y, env)): return False
    return m.ev(x[-1], env)
def s_or(m, x, env, top):
    if type(x) is Dot: m.syn()
    if len(x) == 1: return False
    for y in x[1:-1]:
        v = m.ev1(y, env)
        if true(v): return v
    return m.ev(x[-1], env)
def bindings(m, b):
    if type(b) is not list: m.syn()
    for p in b:
        if type(p) is not list or len(p) != 2 or type(p[0]) is not Sym: m.syn()
    return b
def s_let(m, x, env, top):
    proper(m, x, 2)
    name = None
    b, body = x[1], x[2:]
    if type(b) is Sym:
        proper(m, x, 3)
        name, b, body = b, x[2], x[3:]
    bindings(m, b)
    d = {}
    vals = [m.ev1(p[1], env) for p in b]
    names = [p[0] for p in b]
    if len(set(names)) < len(names): raise Unj('duplicate')
    if name is not None:
        env = Env({}, env)
        env.d[name] = Closure(names, None, body, env)
    return m.body(body, Env(dict(zip(names, vals)), env))
def s_letstar(m, x, env, top):
    proper(m, x, 2)
    for p in bindings(m, x[1]):
        env = Env({p[0]: m.ev1(p[1], env)}, env)
    if env is None: env = Env({}, None)
    return m.body(x[2:], env)
def s_letrec(m, x, env, top):
    proper(m, x, 2)
    b = bindings(m, x[1])
    names = [p[0] for p in b]
    if len(set(names)) < len(names): raise Unj('duplicate')
    env = Env({n: LETREC for n in names}, env)
    vals = [m.ev1(p[1], env) for p in b]
    env.d.update(zip(names, vals))
    return m.body(x[2:], Env({}, env))
def s_do(m, x, env, top):
    proper(m, x, 2)
    if type(x[1]) is not list or type(x[2]) is not list or not x[2]: m.syn()
    names = []
    for p in x[1]:
        if type(p) is not list or len(p) not in (2, 3) or type(p[0]) is not Sym: m.syn()
        names.append(p[0])
    if len(set(names)) < len(names): raise Unj('duplicate')
    vals = [m.ev1(p[1], env) for p in x[1]]
    while True:
        m.steps += 1
        if m.steps > m.MAXSTEP: raise Unj('too long')
        e = Env(dict(zip(names, vals)), env)
        if type(x[2][0]) is Sym and type(m.look(x[2][0], e)) in KEYWORDS: raise Unj('keyword as the test of do')
        if true(m.ev1(x[2][0], e)):
            return m.seq(x[2][1:], e) if len(x[2]) > 1 else UNSPEC
        for c in x[3:]:
            v = m.ev(c, e)
            if type(v) is MV: m.err('values not allowed')
        vals = [m.ev1(p[2], e) if len(p) == 3 else e.d[p[0]] for p in x[1]]
def s_delay(m, x, env, top):
    proper(m, x, 1, 1)
    return Promise(x[1], env)
def s_defmacro(m, x, env, top):
    if type(x) is Dot and len(x) > 2: raise Unj('improper body')
    proper(m, x, 2)
    if env is None and not top: raise Unj('definition in a toplevel expression')
    if env is not None: m.syn()
    v = x[1]
    if type(v) is Sym:
        proper(m, x, 2, 2)
        f = m.ev1(x[2], env)
        if not isinstance(f, Closure): m.syn()
        if f.env is not None: m.err('transformer with a local environment')
        m.glob[v] = Macro(f)
    elif type(v) in (list, Dot) and v and type(v[0]) is Sym:
        f = v[1:]
        if type(v) is Dot: f = Dot(f, v.tail) if f else v.tail
        m.glob[v[0]] = Macro(mklambda(m, f, x[2:], env))
    else: m.syn()
    return UNSPEC
def s_guard(m, x, env, top):
    """(guard (var clause ...) body ...): clauses run in the dynamic extent of the raise, as documented in DESIGN.md"""
    if type(x) is Dot and len(x) > 1: raise Unj('improper body')
    proper(m, x, 2)
    cc = x[1]
    if type(cc) is Dot: raise Unj('improper clauses')
    if type(cc) is not list or not cc: m.syn()
    var, clauses = cc[0], cc[1:]
    def run(guard_k):
        def handler(mm, cond_):
            def hb(handler_k):
                if type(var) is not Sym: m.syn()
                e = Env({var: cond_}, env)
                if not clauses: m.syn()
                v = cond(m, clauses, e)
                if v is not None:
                    m.throw(guard_k, lambda: v)
                m.throw(handler_k, lambda: m.raise_(cond_))
            return m.callcc(hb)()
        def th():
            e = env if env is not None else Env({}, None)
            v = m.body(x[2:], e)
            m.throw(guard_k, lambda: v)
        return m.with_handlers((Prim('handler', handler, 1, 1),) + m.handlers, th)
    return m.callcc(run)()
def s_receive(m, x, env, top):
    proper(m, x, 3)
    v = m.ev(x[2], env)
    vs = v.vs if type(v) is MV else [v]
    f = mklambda(m, x[1], x[3:], env)
    return m.apply(f, vs)

def s_qq(m, x, env, top):
    proper(m, x, 1, 1)
    return qq(m, qkeys(x[1]) if ALIAS else x[1], env, 1)
def qkeys(x):
    """the keywords of quasiquotation inserted by a template"""
    t = type(x)
    if t is Sym:
        b = base(x)
        return b if b in (q_unquote, q_quasi, q_unqs) else x
    if t is Dot: return Dot([qkeys(e) for e in x], qkeys(x.tail))
    if t is list or t is Vlit: return t([qkeys(e) for e in x])
    return x
def is_form(x, kw): return type(x) is list and len(x) == 2 and x[0] is kw
def qq(m, x, env, d):
    t = type(x)
    if t is Vlit:
        return Vec(_qqseq(m, list(x), env, d)[0])
    if t is not list and t is not Dot: return data(x)
    if not x: return NIL
    if t is list:
        if x[0] in (q_unquote, q_quasi, q_unqs) and len(x) != 2: raise Unj('malformed unquote')
        if is_form(x, q_unquote):
            if d == 1: return m.ev1(x[1], env)
            return ls_([q_unquote, qq(m, x[1], env, d - 1)])
        if is_form(x, q_quasi): return ls_([q_quasi, qq(m, x[1], env, d + 1)])
        if is_form(x, q_unqs):
            if d == 1: raise Unj('unquote-splicing outside of a list')
            return ls_([q_unqs, qq(m, x[1], env, d - 1)])
        if len(x) > 2 and x[-2] in (q_unquote, q_quasi, q_unqs):   # (a . ,b)
            if x[-2] is q_unqs and d == 1: raise Unj('unquote-splicing in tail position')
            els, last = _qqseq(m, x[:-2], env, d, False)
            return ls_(els, qq(m, x[-2:], env, d))
        if any(e in (q_unquote, q_quasi, q_unqs) for e in x if type(e) is Sym): raise Unj('malformed unquote')
        els, last = _qqseq(m, x, env, d, True)
        return ls_(els, last)
    if any(e in (q_unquote, q_quasi, q_unqs) for e in x if type(e) is Sym): raise Unj('malformed unquote')
    els, last = _qqseq(m, list(x), env, d, False)
    return ls_(els, qq(m, x.tail, env, d))
def _qqseq(m, xs, env, d, lastok=False):
    o = []
    for i, e in enumerate(xs):
        if is_form(e, q_unqs) and d == 1:
            v = m.ev1(e[1], env)
            if lastok and i == len(xs) - 1:
                if v is UNSPEC: raise Unj('splice')
                if not (isinstance(v, Pair) or v is NIL): m.err('splice')
                y = v
                while isinstance(y, Pair): y = y.cdr
                if y is not NIL: m.err('splice')
                return o, v
            y = v; k = []
            if v is UNSPEC: raise Unj('splice')
            while isinstance(y, Pair): k.append(y.car); y = y.cdr
            if y is not NIL: m.err('splice')
            o += k
        else: o.append(qq(m, e, env, d))
    return o, NIL

GLOBALS = {}
for _n, _f in dict(quote=s_quote, define=s_define, begin=s_begin, cond=s_cond, case=s_case, let=s_let, letrec=s_letrec, do=s_do,
                   delay=s_delay, guard=s_guard, receive=s_receive, quasiquote=s_qq).items():
    GLOBALS[Sym(_n)] = Syntax(_n, _f)
GLOBALS.update({Sym('lambda'): Syntax('lambda', s_lambda), Sym('if'): Syntax('if', s_if), Sym('set!'): Syntax('set!', s_set),
                Sym('and'): Syntax('and', s_and), Sym('or'): Syntax('or', s_or), Sym('let*'): Syntax('let*', s_letstar),
                Sym('define-macro'): Syntax('define-macro', s_defmacro)})

for _n in (q_unquote, q_unqs): GLOBALS[_n] = Syntax(_n.n, lambda m, x, env, top: m.syn())

# --- procedures
def nospec(x):
    if x is UNSPEC: raise Unj('unspecified operand')
    return x
def prim(n, lo, hi=-1):
    def deco(f):
        GLOBALS[Sym(n)] = Prim(n, f, lo, lo if hi == -1 else hi)
        return f
    return deco
def typ(m, x, t):
    nospec(x)
    if isinstance(x, ErrObj): raise Unj('representation of error objects')
    if not isinstance(x, t) or (t is int and isinstance(x, bool)): m.err('type')
    return x
@prim('cons', 2)
def _(m, a, b): return Pair(a, b)
@prim('list', 0, None)
def _(m, *a): return ls_(a)
@prim('vector', 0, None)
def _(m, *a): return Vec(a)
@prim('vector-ref', 2)
def _(m, v, i):
    typ(m, v, Vec); typ(m, i, int)
    if not 0 <= i < len(v.v): m.err('range')
    return v.v[i]
@prim('car', 1)
def _(m, a): return typ(m, a, Pair).car
@prim('cdr', 1)
def _(m, a): return typ(m, a, Pair).cdr
@prim('cadr', 1)
def _(m, a): return typ(m, typ(m, a, Pair).cdr, Pair).car
@prim('set-car!', 2)
def _(m, a, b): typ(m, a, Pair).car = b; return UNSPEC
@prim('set-cdr!', 2)
def _(m, a, b): typ(m, a, Pair).cdr = b; return UNSPEC
@prim('null?', 1)
def _(m, a): nospec(a); return a is NIL
@prim('pair?', 1)
def _(m, a):
    nospec(a)
    if isinstance(a, ErrObj): raise Unj('representation of error objects')
    return isinstance(a, Pair)
@prim('not', 1)
def _(m, a): return not true(a)
@prim('eqv?', 2)
def _(m, a, b):
    if isinstance(nospec(a), (Str, Vec)) and a is b: raise Unj('identity of literals')
    return eqv(nospec(a), nospec(b))
@prim('eq?', 2)
def _(m, a, b):
    nospec(a); nospec(b)
    if isinstance(a, (int, Char, Str, Vec)) and not isinstance(a, bool): raise Unj('eq? of numbers')
    return eqv(a, b)
@prim('equal?', 2)
def _(m, a, b): return equal(nospec(a), nospec(b))
@prim('procedure?', 1)
def _(m, a): nospec(a); return is_proc(a)
@prim('symbol?', 1)
def _(m, a): nospec(a); return isinstance(a, Sym)
@prim('number?', 1)
def _(m, a): nospec(a); return type(a) is int
def ints(m, a):
    for x in a:
        nospec(x)
        if type(x) is not int: m.err('type', loose=True)
@prim('+', 0, None)
def _(m, *a): ints(m, a); return sum(a)
@prim('*', 0, None)
def _(m, *a):
    ints(m, a); r = 1
    for x in a: r *= x
    return r
@prim('-', 1, None)
def _(m, *a):
    ints(m, a)
    return -a[0] if len(a) == 1 else a[0] - sum(a[1:])
def cmp(n, f):
    @prim(n, 1, None)
    def _(m, *a):
        if len(a) < 2: raise Unj('one operand')
        for i in range(len(a) - 1):
            ints(m, a[i:i + 2])
            if not f(a[i], a[i + 1]):
                if not all(type(x) is int for x in a[i:]): raise Unj('operands that are not compared')
                return False
        return True
cmp('<', lambda x, y: x < y); cmp('>', lambda x, y: x > y); cmp('=', lambda x, y: x == y)
cmp('<=', lambda x, y: x <= y); cmp('>=', lambda x, y: x >= y)
def tolist(m, l, loose=False):
    nospec(l)
    o = []
    while isinstance(l, Pair): o.append(l.car); l = l.cdr
    if l is not NIL: m.err('improper', loose=loose)
    return o
@prim('length', 1)
def _(m, l): return len(tolist(m, l))
@prim('reverse', 1)
def _(m, l): return ls_(tolist(m, l)[::-1])
@prim('append', 0, None)
def _(m, *a):
    if not a: return NIL
    o = []
    for l in a[:-1]: o += tolist(m, l)
    return ls_(o, a[-1])
@prim('memv', 2)
def _(m, x, l):
    nospec(x); y = l
    while isinstance(y, Pair):
        if eqv(x, y.car):
            while isinstance(y, Pair): y0 = y; y = y.cdr
            if y is not NIL: raise Unj('improper')
            y = l
            while not eqv(x, y.car): y = y.cdr
            return y
        y = y.cdr
    if y is not NIL: m.err('improper')
    return False
@prim('apply', 2, None)
def _(m, f, *a):
    if not is_proc(f): m.err('not a procedure', loose=True)
    return m.apply(f, list(a[:-1]) + tolist(m, a[-1], True))
@prim('map', 2, 2)
def _(m, f, l):
    if not is_proc(f): m.err('not a procedure', loose=True)
    o = []
    for x in tolist(m, l, True):
        v = m.apply(f, [x])
        if type(v) is MV: raise Unj('values in map')
        o.append(v)
    return ls_(o)
@prim('for-each', 2, 2)
def _(m, f, l):
    if not is_proc(f): m.err('not a procedure', loose=True)
    for x in tolist(m, l, True):
        m.apply(f, [x])
    return UNSPEC
@prim('values', 0, None)
def _(m, *a): return a[0] if len(a) == 1 else MV(list(a))
@prim('call-with-values', 2)
def _(m, p, c):
    if not is_proc(p): m.err('type', loose=True)
    v = m.apply(p, [])
    return m.apply(c, v.vs if type(v) is MV else [v])
def _callcc(m, f):
    if not is_proc(f): m.err('type')
    return m.callcc(lambda k: m.apply(f, [k]))
prim('call/cc', 1)(_callcc)
prim('call-with-current-continuation', 1)(_callcc)
@prim('dynamic-wind', 3)
def _(m, b, t, a):
    for f in (b, t, a):
        if not is_proc(f): m.err('type')
    return m.wind(lambda: m.apply(b, []), lambda: m.apply(t, []), lambda: m.apply(a, []))
@prim('raise', 1)
def _(m, o): return m.raise_(o)
@prim('error', 1, None)
def _(m, msg, *irr): return m.raise_(ErrObj(msg, irr, True))
@prim('with-exception-handler', 2)
def _(m, h, t):
    if not is_proc(h) or not is_proc(t): m.err('type')
    return m.with_handlers((h,) + m.handlers, lambda: m.apply(t, []))
@prim('%%error-object?', 1)
def _(m, a): nospec(a); return isinstance(a, ErrObj)
@prim('force', 1)
def _(m, p):
    if type(p) is not Promise: raise Unj('force of a non-promise')
    if p.done: return p.val
    v = m.ev(p.x, p.env)
    if type(v) is MV: raise Unj('values of a promise')
    if not p.done: p.done = True; p.val = v
    return p.val
@prim('eval', 2)
def _(m, x, e): return m.ev(code(x), None, True)
@prim('interaction-environment', 0)
def _(m): return NIL
@prim('t', 1, 2)
def _(m, n, v=UNSPEC):
    nospec(n)
    if show(n) is None: raise Unj('display')
    m.out.append(wr(n, 'd') + ' ')
    return v
@prim('%%fail', 0)
def _(m): m.err('anything')
@prim('display', 1)
def _(m, n):
    if isinstance(n, ErrObj) and n.user:
        if any(show(x) is None for x in [n.msg] + n.irr): raise Unj('display')
        m.out.append(wr(n.msg, 'd') + ''.join([' ' + wr(x) for x in n.irr]))
        return UNSPEC
    s = show(n)
    if s is None: raise Unj('display')
    m.out.append(wr(n, 'd'))
    return UNSPEC
PROTECTED = set(GLOBALS) | {q_else, q_yields, q_unquote, q_unqs}

def show(v, depth=0):
    """written form, None if it cannot be told"""
    if type(v) is MV: return None
    st = [v]; seen = 0
    while st:
        x = st.pop(); seen += 1
        if seen > 3000: return None
        if isinstance(x, Pair): st += [x.car, x.cdr]
        elif isinstance(x, Vec): st += x.v
        elif isinstance(x, (Prim, Closure, Cont, Promise, ErrObj)) or x is UNSPEC: return None
    return wr(v)

def parse(s):
    """forms of a source text; symbols $X become grammar holes"""
    from . import reader, model, gram
    reader.UNICODE = True
    o = []; i = 0
    def h(x):
        if type(x) is Sym and x.n[0] == '$': return gram.N(x.n[1:])
        if type(x) is list: return [h(e) for e in x]
        if type(x) is Dot: return Dot([h(e) for e in x], h(x.tail))
        if type(x) is Vlit: return Vlit([h(e) for e in x])
        return x
    while True:
        x, i = reader.read(s, i, (-(1 << 59), (1 << 59) - 1))
        if x is model.EOF: return o
        o.append(h(code(x)))
def rules(d):
    """{nt: [(cost, text)] or texts (cost 1)}"""
    return {nt: [(p[0], parse(p[1])[0]) if isinstance(p, tuple) else (1, parse(p)[0]) for p in ps] for nt, ps in d.items()}

from . import synrules
