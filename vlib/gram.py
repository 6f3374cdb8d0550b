"""Exhaustive, random-access enumeration of the trees of a sized grammar."""
import itertools
class N:
    """nonterminal marker"""
    __slots__ = ('n',)
    def __init__(self, n): self.n = n
def holes(t, o):
    if type(t) is N: o.append(t.n)
    elif isinstance(t, list):
        for e in t: holes(e, o)
        if hasattr(t, 'tail'): holes(t.tail, o)
    return o
def fill(t, it):
    if type(t) is N: return next(it)
    if isinstance(t, list):
        if hasattr(t, 'tail'):
            xs = [fill(e, it) for e in t]
            tl = fill(t.tail, it)
            if type(tl) is list: return xs + tl
            if type(tl) is type(t): return type(t)(xs + list(tl), tl.tail)
            return type(t)(xs, tl)
        if type(t) is list: return [fill(e, it) for e in t]
        return type(t)([fill(e, it) for e in t])
    return t
def comps(n, k):
    """compositions of n into k parts"""
    if k == 0:
        if n == 0: yield ()
        return
    if k == 1:
        if n >= 0: yield (n,)
        return
    for i in range(0, n + 1):
        for r in comps(n - i, k - 1): yield (i,) + r
class G:
    """rules: {nt: [(cost, template)]}"""
    def __init__(self, rules):
        self.rules = {nt: [(c, t, holes(t, [])) for c, t in ps] for nt, ps in rules.items()}
        self.cnt = {}; self.lst = {}
    def count(self, nt, n):
        if n < 0: return 0
        k = (nt, n)
        if k not in self.cnt:
            s = 0
            self.cnt[k] = 0
            for c, t, hs in self.rules[nt]:
                s += sum(self.block(hs, p) for p in comps(n - c, len(hs)))
            self.cnt[k] = s
        return self.cnt[k]
    def block(self, hs, p):
        s = 1
        for h, i in zip(hs, p):
            s *= self.count(h, i)
            if not s: return 0
        return s
    def all(self, nt, n):
        k = (nt, n)
        if k not in self.lst:
            self.lst[k] = list(self.iter(nt, n, 0, self.count(nt, n)))
        return self.lst[k]
    def iter(self, nt, n, lo, hi):
        """trees of size n with index in [lo, hi)"""
        pos = 0
        for c, t, hs in self.rules[nt]:
            for p in comps(n - c, len(hs)):
                b = self.block(hs, p)
                if pos + b > lo and pos < hi:
                    lists = [self.all(h, i) for h, i in zip(hs, p)]
                    for kids in itertools.islice(itertools.product(*lists), max(0, lo - pos), min(b, hi - pos)):
                        yield fill(t, iter(kids))
                pos += b
                if pos >= hi: return
