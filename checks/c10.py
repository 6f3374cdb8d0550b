"""C10: write is the inverse of read; write/ss shows sharing."""
import itertools
from vlib import core, table, rs
from vlib.core import case, compare
from vlib.table import Exp
from vlib.model import *
from vlib.gram import G
from vlib.rs import rules, data

ID = 'C10'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of data (all trees of a grammar up to a size, every character of Unicode, all short strings and symbols over alphabets of special characters, integers in every radix) checked by writing and reading on the real code and against a reference writer; all object graphs of up to 4 nodes written by write/ss and parsed back into a graph that must be isomorphic (sharing and cycles included) to the one built'
NOTE = 'Bounded: trees up to the listed size, graphs of up to 4 nodes of out-degree 2 plus long structures with sharing at every pair of positions. Symbols are those the reader can produce (names with spaces or such have no external representation here).'
BUILDS = [('compact', 'rel'), ('fatty', 'rel'), ('compact', 'asan')]
BOUNDS = {'quick': 'trees of size 6, all 1 112 064 characters, strings of length <= 3 over 26 special characters, symbols of length <= 3 over 20 characters, graphs of 3 nodes of 5 kinds and of 4 pairs, histories of 2 writes with failing ones',
          'thorough': 'strings of length 4, graphs of 4 nodes of pairs and vectors, both layouts, AddressSanitizer'}
NONVACUOUS = {'states': 100000}

def spec_(cfg, fl): return dict(cfg=cfg, flavor=fl, files=['c10.scm'])

# ---------------------------------------------------------------- trees
LEAF = ['1', '-5', 'a', '"s"', '#\\a', '()', '#t']
LEAF2 = ['"a\\"\\\\b"', '#\\space', '#()', '#f', '""', 'quote', '...', '+', '#\\(', '-', 'x.y', '576460752303423487', '#\\newline', '"\\n"', '=>']
TREES = G(rules({'T': LEAF + ['($T)', '($T . $T)', '($T $T)', '($T $T . $T)', '($T $T $T)', '#($T)', '#($T $T)', '(quote $T)', '(quasiquote ((unquote $T) (unquote-splicing $T)))']}))
TREES2 = G(rules({'T': LEAF + LEAF2 + ['($T)', '($T . $T)', '($T $T $T)', '#($T)', '#($T $T)', '(quote $T)', '(unquote $T)']}))
def tree_rows(g, n, lo, hi):
    for p in g.iter('T', n, lo, hi):
        x = data(p)
        w, d = wr(x), wr(x, 'd')
        src = "(let* ((x '%s) (s (%%txt write x)) (y (%%rd2 s))) (list (equal? x y) (equal? s (%%txt write y)) (equal? s (%%txt write/ss x)) s (%%txt display x)))" % w
        yield src, Exp('(#t #t #t %s %s)' % (wr_str(w), wr_str(d)), '')

# ---------------------------------------------------------------- strings, symbols
SCH = ['"', '\\', '\n', '\t', '\r', '\x07', '\x08', '\x0b', '\x0c', '\x1b', '\x7f', ' ', 'a', 'n', 'x', '1', ';', '|', '#', "'", '\u00e9', '\u3042', '\U00020000', '\x01', '(', '\u0085']
def str_rows(n, part, parts):
    for i, cs in enumerate(itertools.product(SCH, repeat=n)):
        if i % parts != part: continue
        mk_ = '(list->string (map integer->char \'(%s)))' % ' '.join(str(ord(c)) for c in cs)
        disp = ''.join(cs)
        # read back equal, displayed raw, second datum untouched
        yield '(let* ((x %s) (s (%%txt write x)) (y (%%rd2 s))) (list (equal? x y) (equal? (%%txt display x) x) (equal? (%%rd (string-append s "z")) x) (equal? (%%txt write (list x x)) (string-append "(" s " " s ")"))))' % mk_, Exp('(#t #t #t #t)', '')
SYMC = ['a', 'Z', '1', '+', '-', '.', '!', '?', '*', '/', '<', '=', '>', ':', '$', '%', '^', '&', '_', '~', '@', '\u3042']
def sym_rows(n, part, parts):
    from vlib import reader
    reader.UNICODE = True
    for i, cs in enumerate(itertools.product(SYMC, repeat=n)):
        if i % parts != part: continue
        s = ''.join(cs)
        try: x, j = reader.read(s, 0, (-(1 << 59), (1 << 59) - 1))
        except Exception: continue
        if j != len(s) or not isinstance(x, Sym): continue
        yield "(let* ((x (string->symbol \"%s\")) (s (%%txt write x)) (y (%%rd2 s))) (list (eq? x y) (equal? (%%txt display x) s) s (equal? (%%txt write (list x x)) (string-append \"(\" s \" \" s \")\")) (eq? x '%s)))" % (s, s), Exp('(#t #t %s #t #t)' % wr_str(s), '')
# ---------------------------------------------------------------- numbers
def num_rows(cfg):
    bits = 59 if cfg == 'compact' else 63
    vs = set(range(-300, 301))
    for k in range(2, bits + 1):
        for d in (-2, -1, 0, 1, 2):
            for v in ((1 << k) + d, -(1 << k) + d):
                if -(1 << bits) <= v < (1 << bits): vs.add(v)
    for b in (3, 7, 10, 36):
        v = 1
        while v < (1 << bits): vs |= {v, -v, v - 1}; v *= b
    for v in sorted(vs):
        o = []
        def dig(v, b):
            s = ''; n = abs(v)
            while True:
                s = '0123456789abcdefghijklmnopqrstuvwxyz'[n % b] + s; n //= b
                if not n: break
            return '-' + s if v < 0 else s
        for b, p in [(2, '#b'), (8, '#o'), (10, '#d'), (16, '#x')]:
            t = dig(v, b)
            o.append('(let ((s (number->string x %d))) (list (string=? s "%s") (eqv? x (string->number s %d)) (eqv? x (%%rd2 (string-append "%s" s)))))' % (b, t, b, p))
        o.append('(list (string=? (%%txt write x) "%d") (eqv? x (%%rd2 (%%txt write x))) (equal? (%%txt display x) (%%txt write x)))' % v)
        yield '(let ((x %d)) (list %s))' % (v, ' '.join(o)), Exp('((#t #t #t) (#t #t #t) (#t #t #t) (#t #t #t) (#t #t #t))', '')

# ---------------------------------------------------------------- graphs
class Node:
    __slots__ = ('t', 'k')
    def __init__(self, t, k): self.t = t; self.k = k
def build(types, slots):
    ns = [Node(t, []) for t in types]
    i = 0
    for n in ns:
        k = dict(p=2, v=2, w=1, e=0, s=0)[n.t]
        n.k = [ns[x] if isinstance(x, int) and x < 100 else x for x in slots[i:i + k]]
        i += k
    return ns[0]
def parse_ss(s):
    """graph denoted by a text with labels"""
    lab = {}
    pos = 0
    def skip():
        nonlocal pos
        while pos < len(s) and s[pos] == ' ': pos += 1
    def rd():
        nonlocal pos
        skip()
        if pos >= len(s): raise ValueError('end')
        c = s[pos]
        if c == '#' and pos + 1 < len(s) and s[pos + 1].isdigit():
            j = pos + 1
            while s[j].isdigit(): j += 1
            n = int(s[pos + 1:j])
            if s[j] == '#':
                pos = j + 1
                if n not in lab: raise ValueError('label used before its definition')
                return lab[n]
            if s[j] != '=': raise ValueError('label')
            if n in lab: raise ValueError('label defined twice')
            pos = j + 1
            node = Node(None, []); lab[n] = node
            r = rd()
            if not isinstance(r, Node): raise ValueError('label of an atom')
            node.t = r.t; node.k = r.k
            return node
        if s.startswith('#(', pos):
            pos += 2
            n = Node('vec', [])
            while True:
                skip()
                if s[pos] == ')': pos += 1; return n
                n.k.append(rd())
        if c == '(':
            pos += 1
            skip()
            if s[pos] == ')': pos += 1; return '()'
            n = head = Node('p', [])
            n.k = [rd(), None]
            while True:
                skip()
                if s[pos] == ')': pos += 1; n.k[1] = '()'; return head
                if s[pos] == '.' and s[pos + 1] == ' ':
                    pos += 2
                    n.k[1] = rd(); skip()
                    if s[pos] != ')': raise ValueError('dot')
                    pos += 1
                    return head
                m = Node('p', [None, None])
                n.k[1] = m; n = m
                n.k[0] = rd()
        if c == '"':
            j = s.index('"', pos + 1)
            x = s[pos:j + 1]; pos = j + 1
            return Node('s', [])
        j = pos
        while j < len(s) and s[j] not in ' ()': j += 1
        if j == pos: raise ValueError('text')
        x = s[pos:j]; pos = j
        return x
    x = rd(); skip()
    if pos != len(s): raise ValueError('rest')
    return x
def iso(a, b):
    """isomorphism of graphs; empty vectors and strings are compared as values"""
    m, r = {}, {}
    st = [(a, b)]
    while st:
        x, y = st.pop()
        if not isinstance(x, Node) or not isinstance(y, Node):
            if isinstance(x, Node) or isinstance(y, Node) or str(x) != str(y): return False
            continue
        tx = 'vec' if x.t in 'vwe' else x.t
        if tx != y.t or len(x.k) != len(y.k): return False
        if tx == 'vec' and not x.k: continue
        if id(x) in m or id(y) in r:
            if m.get(id(x)) is not y or r.get(id(y)) is not x: return False
            continue
        m[id(x)] = y; r[id(y)] = x
        st += list(zip(x.k, y.k))
    return True
def graphs(kinds, n, leaves, part, parts):
    """graphs whose nodes are numbered in order of first visit from node 0"""
    deg = dict(p=2, v=2, w=1, e=0, s=0)
    i = 0
    def rec(types, slots, todo, used):
        # todo: list of slots to be filled (count), breadth first
        pass
    for types in itertools.product(kinds, repeat=n):
        ks = [deg[t] for t in types]
        tot = sum(ks)
        owner = [j for j in range(n) for _ in range(ks[j])]
        def fill(idx, slots, nxt):
            if idx == tot:
                if nxt == n: yield slots
                return
            if owner[idx] >= nxt: return
            for x in range(min(nxt + 1, n)):
                yield from fill(idx + 1, slots + [x], max(nxt, x + 1))
            for l in leaves: yield from fill(idx + 1, slots + [l], nxt)
        for slots in fill(0, [], 1):
            i += 1
            if i % parts == part: yield types, slots
def run_graphs(st, spec, it):
    buf = []
    def flush():
        exp = [build(t, s) for t, s in buf]
        cases = [case("(%%graph '(%s) '(%s))" % (' '.join(t), ' '.join(map(str, s))), 's') for t, s in buf]
        def judge(i, r):
            if r.kind != 'V': return 'should be a graph'
            v = r.val.decode() if isinstance(r.val, bytes) else r.val
            try: g = parse_ss(v)
            except (ValueError, IndexError) as e: return 'not the text of a graph: %s' % e
            if not iso(exp[i], g): return 'does not denote the graph %s %s' % buf[i]
            # no superfluous labels: a label that is never referred to
            import re
            defs = re.findall(r'#(\d+)=', v); refs = set(re.findall(r'#(\d+)#', v))
            if set(defs) != refs: return 'label that is not referred to'
            return None
        compare(st, spec, cases, judge)
        st.add('states', len(cases)); st.add('transitions', len(cases)); st.add('graphs', len(cases))
        buf.clear()
    for g in it:
        buf.append(g)
        if len(buf) >= 20000: flush()
    if buf: flush()

# ---------------------------------------------------------------- long structures with sharing at chosen positions (the hash table grows)
def long_rows(sizes):
    for n in sizes:
        for a in sorted({0, 1, n // 2, n - 2}):
            for b in sorted({0, 1, n // 3, n - 1}):
                # element b is the tail starting at a: the text is checked by counting and by structure
                src = "(let* ((l (iota0 %d)) (_ (set-car! (list-tail l %d) (list-tail l %d))) (s (%%txt write/ss l))) (list (string-length s) s))" % (n, b, a)
                l = [Pair(i, NIL) for i in range(n)]
                for i in range(n - 1): l[i].cdr = l[i + 1]
                l[b].car = l[a]
                t = wr(l[0], 's')
                yield '(define (iota0 n) (let lp ((i (- n 1)) (l (list))) (if (< i 0) l (lp (- i 1) (cons i l))))) ' + src, Exp('(%d %s)' % (len(t), wr_str(t)), '')
        # many shared strings
        k = max(2, n // 2)
        src = '(let* ((s (string #\\q)) (l (iota1 %d s))) (%%txt write/ss l))' % k
        yield '(define (iota1 n s) (if (= n 0) (list) (cons s (cons (string #\\r) (iota1 (- n 1) s))))) ' + src, Exp(wr_str('(#1="q" "r"' + ' #1# "r"' * (k - 1) + ')'), '')
        # nested vectors shared twice each: DAG
        src = '(define (dag n) (if (= n 0) (vector 1) (let ((d (dag (- n 1)))) (vector d d)))) (%%txt write/ss (dag %d))' % min(n, 60)
        m = min(n, 60)
        t = '#(1)'
        # outermost is not shared; labels number from outside in
        def dag(i, lab):
            if i == 0: return '#%d=#(1)' % lab if lab else '#(1)'
            return ('#%d=' % lab if lab else '') + '#(' + dag(i - 1, lab + 1) + ' #%d#)' % (lab + 1)
        yield src, Exp(wr_str(dag(m, 0)), '')

# ---------------------------------------------------------------- histories of writes with failing ones in between
GOOD = ['(%txt write/ss (let ((x (list 1))) (list x x)))', '(%txt write (let ((x (list 1))) (list x x)))', '(%txt display (let ((x (list "a"))) (list x x)))', '(%txt write/ss (let ((x (list 1 2))) (set-cdr! (cdr x) x) x))', '(%txt write/ss (list 1 "a" #\\a))', '(%txt write-with-shared-structure (vector (string #\\a) 2))', '(let ((x (string #\\b))) (%txt write/ss (vector x x)))', '(%txt write (list 1 2 3))', "(guard (e (#t (%txt display e))) (error \"msg\" '(1 2) \"s\"))"]
GOODR = ['"(#1=(1) #1#)"', '"((1) (1))"', '"((a) (a))"', '"#1=(1 2 . #1#)"', '"(1 \\"a\\" #\\\\a)"', '"#(\\"a\\" 2)"', '"#(#1=\\"b\\" #1#)"', '"(1 2 3)"', '"msg (1 2) \\"s\\""']
FAILS = ['(write/ss (let ((x (list 1))) (list x x)) (current-input-port))', '(write/ss (let ((x (list 1))) (list x x)) 5)', '(let ((p (open-output-string))) (close-output-port p) (write/ss (let ((x (list 1))) (list x x)) p))', '(write (list 1 2) (open-input-string ""))', '(display (list 1 2) (let ((p (open-output-string))) (close-output-port p) p))', '(write/ss)', '(write/ss 1 2 3)', '(write-with-shared-structure (let ((x (list 1))) (list x x)) (open-input-string "a"))']
def hist_rows():
    for f in FAILS:
        for (a, ra), (b, rb) in itertools.product(zip(GOOD, GOODR), repeat=2):
            yield '(list %s (guard (e (#t 0)) %s 1) %s %s)' % (a, f, b, a), Exp('(%s 0 %s %s)' % (ra, rb, ra), '')
        for g in FAILS:
            for a, ra in zip(GOOD, GOODR):
                yield '(list (guard (e (#t 0)) %s 1) (guard (e (#t 0)) %s 1) %s)' % (f, g, a), Exp('(0 0 %s)' % ra, '')

def items(tier):
    th = tier == 'thorough'
    o = []
    for cfg, fl in [('compact', 'rel'), ('fatty', 'rel'), ('compact', 'asan')]:
        for gi, sizes in ((0, [1, 2, 3, 4] + ([5] if fl == 'rel' or th else []) + ([6] if cfg == 'compact' and fl == 'rel' else []) + ([7] if th and cfg == 'compact' and fl == 'rel' else [])), (1, [1, 2, 3] + ([4] if fl == 'rel' or th else []))):
            g = (TREES, TREES2)[gi]
            for n in sizes:
                c = g.count('T', n); k = max(1, (c + 19999) // 20000)
                o += [('tree', cfg, fl, gi, n, i, k) for i in range(k)]
    for cfg, fl in [('compact', 'rel'), ('fatty', 'rel'), ('compact', 'asan')]:
        o += [('num', cfg, fl), ('long', cfg, fl), ('hist', cfg, fl), ('wchars', cfg, fl)]
        o += [('str', cfg, fl, n, 0, 1) for n in (0, 1, 2)] + [('sym', cfg, fl, n, 0, 1) for n in (1, 2)]
        o += [('graph', cfg, fl, 'pvwes', 1, 0, 1), ('graph', cfg, fl, 'pvwes', 2, 0, 1)]
        if fl == 'rel' or th:
            o += [('chars', cfg, fl, i) for i in range(16)] if cfg == 'compact' or th else []
            o += [('str', cfg, fl, 3, i, 4) for i in range(4)] + [('sym', cfg, fl, 3, i, 4) for i in range(4)]
            o += [('graph', cfg, fl, 'pvs' if cfg == 'compact' else 'pv', 3, i, 8) for i in range(8)]
            if th or cfg == 'compact': o += [('graph', cfg, fl, 'p', 4, i, 16) for i in range(16)]
    if th: o += [('graph', 'compact', 'rel', 'pv', 4, i, 64) for i in range(64)] + [('str', 'compact', 'rel', 4, i, 16) for i in range(16)] + [('graph', 'compact', 'rel', 'pvwes', 3, i, 8) for i in range(8)]
    return o

def batched(st, spec, rows):
    buf = []
    for r in rows:
        buf.append(r)
        if len(buf) >= 20000: table.run(st, spec, buf, 'w', ''); buf = []
    if buf: table.run(st, spec, buf, 'w', '')
def run_item(item, st, tier):
    kind, cfg, fl = item[:3]
    spec = spec_(cfg, fl)
    if kind == 'tree':
        gi, n, i, k = item[3:]
        g = (TREES, TREES2)[gi]; c = g.count('T', n)
        batched(st, spec, tree_rows(g, n, c * i // k, c * (i + 1) // k))
    elif kind == 'num': batched(st, spec, num_rows(cfg))
    elif kind == 'str': batched(st, spec, str_rows(*item[3:]))
    elif kind == 'sym': batched(st, spec, sym_rows(*item[3:]))
    elif kind == 'long': batched(st, spec, long_rows([2, 3, 10, 100, 170, 171, 172, 341, 342, 343, 683, 1000] if fl == 'rel' else [3, 171, 342]))
    elif kind == 'hist': batched(st, spec, hist_rows())
    elif kind == 'graph':
        kinds, n, i, k = item[3:]
        run_graphs(st, spec, graphs(kinds, n, ['a', '()'], i, k))
    elif kind == 'chars':
        i = item[3]
        lo, hi = 0x110000 * i // 16, 0x110000 * (i + 1) // 16
        rows = [('(%%chars %d %d)' % (a, min(a + 512, hi)), Exp('()', '')) for a in range(lo, hi, 512)]
        table.run(st, dict(spec, limit=60000), rows, 'w', 'L')
        st.add('states', hi - lo); st.add('characters', hi - lo)
    elif kind == 'wchars':
        rows = []
        for a in list(range(0, 0x300, 64)) + [0x3000, 0xff00, 0x20000]:
            t = [wr_str(wr_char(c)) for c in range(a, a + 64)]
            rows.append(('(%%wchars %d %d)' % (a, a + 64), Exp('(' + ' '.join(t) + ')', '')))
        table.run(st, spec, rows, 'w', '')
