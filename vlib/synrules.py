"""Reference model of syntax-rules (R5RS 4.3), on programs of rs: matching, instantiation, renaming by aliases."""
from . import rs
from .rs import Sym, Dot, Vlit, Unj, data
from .model import equal

q_dots = Sym('...')
class Bad(Exception): pass
VEC = object()

def compile_rules(lits, rules):
    """rules: list of (pattern without the keyword, template); -> checked rules. Bad if malformed"""
    out = []
    for p, t in rules:
        lv = {}
        pattern(p, lits, 0, lv, True)
        template(t, lv, 0)
        out.append((p, t, frozenset(lv), lits))
    return out

def split(x):
    """-> elements, tail (None: proper, VEC: vector)"""
    if type(x) is Dot: return list(x), x.tail
    return list(x), (VEC if type(x) is Vlit else None)

def pattern(p, lits, level, lv, top=False):
    if type(p) is Sym:
        if p is q_dots: raise Bad('misplaced ellipsis')
        if p in lits: return
        if p in lv: raise Bad('duplicate')
        lv[p] = level
    elif type(p) in (list, Dot, Vlit):
        els, tail = split(p)
        for i, e in enumerate(els):
            if e is q_dots:
                # only as the last element, after a pattern
                if i == 0 or els[i - 1] is q_dots or i < len(els) - 1 or (tail is not None and tail is not VEC): raise Bad('misplaced ellipsis')
                continue
            pattern(e, lits, level + (i + 1 < len(els) and els[i + 1] is q_dots), lv)
        if tail is not None and tail is not VEC: pattern(tail, lits, level, lv)

def template(t, lv, level):
    """-> number of pattern variables in it"""
    if type(t) is Sym:
        if t is q_dots: raise Bad('misplaced ellipsis')
        if t not in lv: return 0
        if lv[t] != level: raise Bad('wrong level')
        return 1
    if type(t) in (list, Dot, Vlit):
        els, tail = split(t)
        n = 0
        for i, e in enumerate(els):
            if e is q_dots:
                if i == 0 or els[i - 1] is q_dots: raise Bad('misplaced ellipsis')
                continue
            rep = i + 1 < len(els) and els[i + 1] is q_dots
            k = template(e, lv, level + rep)
            if rep and not k: raise Bad('constant repeatable subtemplate')
            n += k
        if tail is not None and tail is not VEC: n += template(tail, lv, level)
        return n
    return 0

def match(p, f, lits, eqid, sub):
    """sub: pattern variable -> form, or list of them for each level"""
    if type(p) is Sym:
        if p in lits: return type(f) is Sym and eqid(p, f)
        sub[p] = f
        return True
    if type(p) is Vlit:
        if type(f) is not Vlit: return False
        return matchseq(list(p), [], list(f), [], lits, eqid, sub)
    if type(p) in (list, Dot):
        if not p and type(p) is list: return type(f) is list and not f
        els, tail = split(p)
        if type(f) in (list, Dot): fe, ft = list(f), (f.tail if type(f) is Dot else [])
        else: fe, ft = [], f
        return matchseq(els, [] if tail is None else tail, fe, ft, lits, eqid, sub)
    if type(f) in (list, Dot, Vlit, Sym): return False
    return equal(p, f)
def mk(els, tail):
    if not els: return tail
    if type(tail) is list: return list(els) + tail
    if type(tail) is Dot: return Dot(list(els) + list(tail), tail.tail)
    return Dot(els, tail)
def matchseq(els, tail, fe, ft, lits, eqid, sub):
    """elements and tail of the pattern against those of the form"""
    if len(els) >= 2 and els[-1] is q_dots:
        rep = els[-2]; k = len(els) - 2
        if len(fe) < k: return False
        if ft != [] or type(ft) is not list: return False
        for a, b in zip(els[:k], fe):
            if not match(a, b, lits, eqid, sub): return False
        rows = []
        for b in fe[k:]:
            d = {}
            if not match(rep, b, lits, eqid, d): return False
            rows.append(d)
        for v in pvars(rep, lits): sub[v] = Rep([d[v] for d in rows])
        return True
    if len(fe) < len(els): return False
    for a, b in zip(els, fe):
        if not match(a, b, lits, eqid, sub): return False
    return match(tail, mk(fe[len(els):], ft), lits, eqid, sub)
class Rep(list): __slots__ = ()
def pvars(p, lits):
    if type(p) is Sym: return [] if p in lits or p is q_dots else [p]
    if type(p) in (list, Dot, Vlit):
        o = [v for e in p for v in pvars(e, lits)]
        if type(p) is Dot: o += pvars(p.tail, lits)
        return o
    return []

def inst(t, sub, ren):
    if type(t) is Sym: return sub[t] if t in sub else ren(t)
    if type(t) in (list, Dot, Vlit):
        els, tail = split(t)
        out = []
        i = 0
        while i < len(els):
            e = els[i]
            if i + 1 < len(els) and els[i + 1] is q_dots:
                vs = [v for v in tvars(e) if v in sub and type(sub[v]) is Rep]
                n = {len(sub[v]) for v in vs}
                if len(n) > 1: raise Unj('repeated variables of different lengths')
                if not n: raise Unj('no repeated variable at this level')
                for k in range(n.pop()):
                    s = dict(sub)
                    for v in vs: s[v] = sub[v][k]
                    out.append(inst(e, s, ren))
                i += 2
            else:
                out.append(inst(e, sub, ren)); i += 1
        if type(t) is Vlit: return Vlit(out)
        if type(t) is Dot: return mk(out, inst(tail, sub, ren)) if out else inst(tail, sub, ren)
        return out
    return t
def tvars(t):
    if type(t) is Sym: return [t]
    if type(t) in (list, Dot, Vlit):
        o = [v for e in t for v in tvars(e)]
        if type(t) is Dot: o += tvars(t.tail)
        return o
    return []

def expand(m, mac, x, env):
    form = x[1:] if type(x) is list else (Dot(x[1:], x.tail) if len(x) > 1 else x.tail)
    for p, t, vs, lits in mac.rules:
        sub = {}
        if match(p, form, lits, lambda l, f: m.same(l, mac.env, f, env), sub):
            names = {}
            def ren(s):
                if s not in names: names[s] = rs.alias(s, mac.env)
                return names[s]
            return inst(t, sub, ren)
    m.err('no match', loose=True)

# --- definitions
def spec(m, x, env):
    """value of a <transformer spec>"""
    if type(x) is Sym:
        v = m.look(x, env)
        if type(v) in (rs.Syntax, rs.SynMacro): raise Unj('keyword as a transformer')
        m.syn()
    if type(x) not in (list, Dot) or not x or not m.is_kw(x[0], Sym('syntax-rules'), env): raise Unj('not a transformer')
    if type(x) is Dot: raise Unj('improper rules')
    if len(x) < 3: m.syn()
    lits = x[1]
    if type(lits) is not list or any(type(l) is not Sym for l in lits): m.syn()
    if q_dots in lits: raise Unj('... as a literal')
    rules = []
    for r in x[2:]:
        if type(r) is not list or len(r) != 2 or type(r[0]) not in (list, Dot) or not r[0] or type(r[0][0]) is not Sym: m.syn()
        p = r[0]
        rules.append((p[1:] if type(p) is list else (Dot(p[1:], p.tail) if len(p) > 1 else p.tail), r[1]))
    try: return rs.SynMacro(compile_rules(lits, rules), env)
    except Bad: m.syn()
def s_defsyntax(m, x, env, top):
    rs.proper(m, x, 2, 2)
    if type(x[1]) is not Sym: m.syn()
    if env is not None: raise Unj('internal define-syntax')
    v = spec(m, x[2], env)
    if x[1] in rs.PROTECTED: raise Unj('redefinition of a keyword')
    m.glob[rs.base(x[1])] = v
    return rs.UNSPEC
def letsyn(rec):
    def f(m, x, env, top):
        rs.proper(m, x, 2)
        b = rs.bindings(m, x[1])
        names = [p[0] for p in b]
        if len(set(names)) < len(names): raise Unj('duplicate')
        if not rec:
            vals = [spec(m, p[1], env) for p in b]
            return m.body(x[2:], rs.Env(dict(zip(names, vals)), env))
        env = rs.Env({n: rs.LETREC for n in names}, env)
        vals = [spec(m, p[1], env) for p in b]
        env.d.update(zip(names, vals))
        return m.body(x[2:], rs.Env({}, env))
    return f
SYN = {Sym('define-syntax'): rs.Syntax('define-syntax', s_defsyntax), Sym('let-syntax'): rs.Syntax('let-syntax', letsyn(False)), Sym('letrec-syntax'): rs.Syntax('letrec-syntax', letsyn(True)),
       Sym('syntax-rules'): rs.Syntax('syntax-rules', lambda m, x, env, top: m.syn())}
