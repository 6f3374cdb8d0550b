"""Tables of (source, expected observation) evaluated and compared."""
from .core import case, compare, txt

ERR = ('E',)
class Exp:
    """Expected observation: kind V/E/R, written value (None: any), output (None: any)."""
    __slots__ = ('kinds', 'val', 'out', 'vals', 'outset')
    def __init__(self, val=None, out='', kinds='V', vals=None, outset=False):
        # outset: the pieces ')('-separated of the output may come in any order
        self.val = val; self.out = out; self.kinds = kinds; self.vals = vals; self.outset = outset
    def why(self, r):
        if r.kind not in self.kinds:
            return 'should be %s' % self.show()
        o = r.out.decode('utf-8', 'backslashreplace')
        if self.outset and self.out is not None:
            if sorted(o.replace(')(', ')\n(').split('\n')) != sorted(self.out.replace(')(', ')\n(').split('\n')):
                return 'output should be (in any order) %r, value %s' % (self.out, self.show())
        elif self.out is not None and o != self.out:
            return 'output should be %r, value %s' % (self.out, self.show())
        if r.kind == 'V' and self.val is not None and r.val.decode('utf-8', 'backslashreplace') != self.val:
            return 'should be %s' % self.show()
        if self.vals is not None and r.val.decode('utf-8', 'backslashreplace') not in self.vals:
            return 'should be one of %s' % (self.vals,)
        return None
    def show(self):
        k = {'V': 'value', 'E': 'an error', 'R': 'raise'}
        s = ' or '.join(k.get(c, c) for c in self.kinds)
        if self.val is not None and 'V' in self.kinds: s += ' ' + self.val
        if self.vals is not None: s += ' %s' % (self.vals,)
        if self.out: s += ' with output %r' % self.out
        return s
def V(val, out=''): return Exp(val, out)
def E(out=None): return Exp(None, out, 'E')

def run(st, spec, rows, mode='w', flags='', maxv=3, schedule=(0, 0), keyf=None):
    """rows: list of (source, Exp)."""
    fl = mode + flags
    cases = [case(src, fl, *schedule) for src, e in rows]
    def judge(i, r):
        return rows[i][1].why(r)
    rs = compare(st, spec, cases, judge, maxv=maxv, keyf=keyf)
    st.add('states', len(rows))
    st.add('transitions', len(rows))
    st.add('error_cases', sum(1 for _, e in rows if 'E' in e.kinds))
    if rows:
        st.sample('%s => %s' % (rows[len(rows) // 2][0][:200], rows[len(rows) // 2][1].show()[:200]), 1)
    return rs
