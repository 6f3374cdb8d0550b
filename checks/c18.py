"""C18: quasiquotation, against the reference evaluator (vlib/rs.py)."""
from vlib import core, table, prog, rs
from vlib.rs import parse, rules, tx, Sym, Dot, Vlit
from vlib.gram import G

ID = 'C18'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of quasiquote templates over grammars of lists, dotted lists, vectors, unquote, unquote-splicing and nested quasiquotes, each evaluated (once, repeatedly, with other variable values, after mutation of a previous result) by the real code and by a reference evaluator; value, evaluation order and error-or-not compared'
NOTE = 'Bounded: all templates of the listed grammars up to the listed sizes. Templates R5RS leaves unpredictable (unquote and the like in other positions) are counted as not_judged.'
BUILDS = [('compact', 'rel'), ('fatty', 'rel'), ('compact', 'asan')]
BOUNDS = {'quick': 'list templates of size 5, nested templates of size 6 (depth 3), vector templates of size 5, each in 8 contexts (size -1 for all of them)',
          'thorough': 'one size more, both layouts, AddressSanitizer'}
NONVACUOUS = {'states': 100000, 'error_cases': 1000}

FAMS = {}
def fam(name, pro, rl, start, quick, thorough):
    FAMS[name] = (pro, G(rules(rl)), start, quick, thorough)
PRO = "(define x 5) (define l (list 6 7)) (define n (list))"
U = lambda e: '(unquote %s)' % e
S = lambda e: '(unquote-splicing %s)' % e
fam('list', PRO, {'Q': [(0, '(quasiquote $T)')],
    'T': ['a', '()', U('(t 1 x)'), U('l'), U('(list 1 (t 2 2))'), '($T)', '($S)', '($S $S)', '($S $S $S)', '($T . $T)', '($S $S . $T)', '($S $T . b)', '(unquote (list (quasiquote $T)))', '(quote $T)', '("s" $S)'],
    'S': [(0, '$T'), S('l'), S('n'), S('(t 3 (list 8))'), S('x'), S('(quote (c d))'), S('(cons 1 2)'), S('(list (quasiquote $T))'), S('(map (lambda (y) (t y y)) l)'), S('(list #t . (1 2))')]}, 'Q', [1, 2, 3, 4], [5])
fam('nest', PRO, {'Q': [(0, '(quasiquote $T)')],
    'T': ['a', 'x', U('x'), U('(t 1 2)'), '(unquote $N)', '(quasiquote $T)', '(unquote $T)', '(1 $S)', '($S $S)', '($T . $T)', '#($S)', '(quote $T)', '(1 unquote $T)', '(1 quasiquote $T)', '(1 . #($S))', '($S . #($S $S))', '((quasiquote $T) . $T)', '#((quasiquote $T) $T)'],
    'N': ['x', '(t 4 x)', '(list x $N)', '(quasiquote $T)', '(unquote x)', '(unquote $N)'],
    'S': [(0, '$T'), S('l'), S('$N'), S('$T'), '(unquote (unquote-splicing l))', '(unquote-splicing (unquote l))', '(unquote-splicing (unquote-splicing l))']}, 'Q', [1, 2, 3, 4], [5])
fam('vec', PRO, {'Q': [(0, '(quasiquote $V)')],
    'V': [(0, '#()'), '#($S)', '#($S $S)', '#($S $S $S)', '#($S $S $S $S)', '($V)', '(1 $V)', '($S . $V)'],
    'T': [(0, 'a'), U('(t 1 x)'), U('l'), '$V', '(unquote (quasiquote $V))', '(1 $S)', '(unquote #t)'],
    'S': [(0, '$T'), S('l'), S('n'), S('(t 2 (list 8 9 0))'), S('x'), S('(cons 1 2)'), S('(list (quasiquote $V))'), S('(quote (b))')]}, 'Q', [1, 2, 3, 4, 5], [6])

CTX = ['(let ((f (lambda () $X))) (list (f) (f)))', '(let ((f (lambda (x l n) $X))) (list (f 1 (list) (list)) (f 2 (list 8 9) (list 4)) (f 3 (list 7) n)))', '(let ((r $X)) (list r l n x))', '(let ((f (lambda () $X))) (let* ((r (f)) (s (f))) (list r (equal? r s) l)))',
       '(map (lambda (x) $X) (list 1 2))', '(let loop ((i 0)) (if (< i 3) (begin (t i) $X (set! x (list x)) (loop (+ i 1))) $X))', '(let ((quasiquote list) (y 1)) y)', '(guard (e (#t (t "err") (list l n x))) $X)',
       '(let ((r $X)) (set! l (list 1 2 3)) (set! x "y") (list r $X))', '(eval $X (interaction-environment))', '(let ((unquote list) (unquote-splicing vector)) $X)']
def subst(t, v):
    from vlib.gram import N
    if isinstance(t, N): return v
    if isinstance(t, list):
        o = [subst(e, v) for e in t]
        return Dot(o, subst(t.tail, v)) if type(t) is Dot else Vlit(o) if type(t) is Vlit else o
    return t
CTXF = [parse(c)[0] for c in CTX]

# mutation of a result must not show in the template, the spliced lists (but for the last one) or another result
MUT = ['(let* ((l (list 1 2)) (r (quasiquote ((unquote-splicing l) 3)))) (set-car! r 9) (set-car! (cdr r) 8) (list l r))',
       '(let* ((l (list 1 2)) (m (list 4 5)) (r (quasiquote (0 (unquote-splicing l) (unquote-splicing m) 3)))) (set-car! (cdr r) 9) (set-car! (cdr (cdr r)) 8) (set-car! (cdr (cdr (cdr r))) 7) (list l m r))',
       '(let ((f (lambda (x) (quasiquote ((unquote x) (unquote x) b))))) (let ((r (f 1))) (set-car! r 9) (set-car! (cdr r) 8) (list r (f 2) (f 3))))',
       '(let ((f (lambda (l) (quasiquote (a (unquote-splicing l) b))))) (let ((r (f (list 1)))) (set-car! (cdr r) 8) (list r (f (list 2 3)) (f (list)) (f (list 4)))))',
       '(let* ((l (list 1)) (f (lambda () (quasiquote ((unquote-splicing l) (unquote-splicing l) (unquote-splicing l) 0))))) (let ((r (f))) (set-cdr! r 5) (list r l (f))))']

def famitems(name, cfg, fl, sizes, per=30000, ctx=0):
    pro, g, start, q, t = FAMS[name]
    o = []
    for n in sizes:
        c = g.count(start, n)
        k = max(1, (c + per - 1) // per)
        o += [('fam', cfg, fl, name, n, i, k, ctx) for i in range(k)]
    return o
def items(tier):
    th = tier == 'thorough'
    o = [('mut', 'compact', 'rel'), ('mut', 'fatty', 'rel'), ('mut', 'compact', 'asan')]
    for name, (pro, g, start, q, t) in FAMS.items():
        o += famitems(name, 'compact', 'rel', q)
        o += famitems(name, 'compact', 'rel', q[:-1], 3000, 1)
        if th:
            o += famitems(name, 'compact', 'rel', t) + famitems(name, 'fatty', 'rel', q) + famitems(name, 'compact', 'asan', q) + famitems(name, 'compact', 'rel', q[-1:], 3000, 1) + famitems(name, 'compact', 'asan', q[:-1], 3000, 1)
        else:
            o += famitems(name, 'fatty', 'rel', q[:-1]) + famitems(name, 'compact', 'asan', q[:-1]) + famitems(name, 'compact', 'asan', q[:-2], 3000, 1)
    return o
def run_item(item, st, tier):
    kind, cfg, fl = item[:3]
    spec = dict(cfg=cfg, flavor=fl, files=['rows.scm', 't.scm'])
    if kind == 'mut':
        prog.runs(st, spec, prog.Suite(''), [parse(m) for m in MUT]); return
    name, n, i, k, ctx = item[3:]
    pro, g, start, q, t = FAMS[name]
    s = prog.Suite(pro)
    c = g.count(start, n)
    it = g.iter(start, n, c * i // k, c * (i + 1) // k)
    prog.run(st, spec, s, it if not ctx else (subst(f, p) for p in it for f in CTXF))
