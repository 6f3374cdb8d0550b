"""Signatures of the procedures, a pool of argument values with their types, and the enumeration of calls."""
import itertools

# value pool: name -> (expression making it, types)
POOL = {}
def v(name, expr, types): POOL[name] = (expr, frozenset(types.split()) | {'any'})
GF = {'compact': 2 ** 59 - 1, 'fatty': 2 ** 63 - 1}
v('0', '0', 'int idx'); v('1', '1', 'int idx'); v('-1', '-1', 'int'); v('2', '2', 'int idx radix'); v('5', '5', 'int idx r5'); v('16', '16', 'int idx radix')
v('60', '60', 'int idx'); v('GF', '(greatest-fixnum)', 'int idx huge'); v('LF', '(least-fixnum)', 'int')
v('t', '#t', 'bool'); v('f', '#f', 'bool'); v('nil', "'()", 'list null plist env'); v('l1', '(list 1)', 'list pair mpair plist'); v('l3', "(list 1 'a \"x\")", 'list pair mpair plist'); v('lc', '(list #\\a #\\b)', 'list clist pair mpair plist')
v('ql', "(q-list)", 'list pair plist qpair'); v('dot', '(cons 1 2)', 'pair mpair'); v('dot3', "(cons 1 (cons 2 'c))", 'pair mpair')
v('al', "(list (cons 1 2) (list 'a 3))", 'list pair mpair plist alist'); v('circ', '(circ)', 'pair mpair circ'); v('ll', '(list (list 1 2) (list 3 4))', 'list pair mpair plist alist'); v('deep', "(list (list (list (list (list 1) 2) 3) 4) 5)", 'list pair mpair plist')
v('s0', '""', 'str'); v('qs', '(q-str)', 'str'); v('ms', '(string-copy "ab1")', 'str mstr'); v('num', '"12"', 'str'); v('mb', '(string-copy "a\u3042\u03bb")', 'str mstr'); v('ms0', '(make-string 0)', 'str mstr')
v('a', "'a", 'sym'); v('ch', '#\\a', 'char'); v('chmb', '#\\\u3042', 'char'); v('v0', '(vector)', 'vec mvec'); v('v3', "(vector 1 'b \"c\")", 'vec mvec'); v('qv', '(q-vec)', 'vec')
v('car', 'car', 'proc'); v('lam0', '(lambda () 7)', 'proc'); v('lam1', '(lambda (x) x)', 'proc'); v('lam2', '(lambda (x y) (eq? x y))', 'proc'); v('lamr', '(lambda x x)', 'proc'); v('k', 'dead-k', 'proc'); v('apply', 'apply', 'proc'); v('err', '(lambda x (error "boom" x))', 'proc'); v('list', 'list', 'proc')
v('prom', '(delay 1)', 'prom pair mpair'); v('ip', '(open-input-string "(a . b) #\\\\x \\"s\\"")', 'port iport'); v('ip0', '(open-input-string "")', 'port iport'); v('op', '(open-output-string)', 'port oport sport'); v('cip', 'closed-ip', 'port closed'); v('cop', 'closed-op', 'port closed')
v('eof', 'the-eof', 'eof'); v('undef', '(if #f #f)', 'undef'); v('env', '(interaction-environment)', 'list null plist env'); v('eo', 'the-errobj', 'list pair mpair plist'); v('vp', 'nested-v', 'vec mvec')
v('code', "'(car (list 1))", 'list pair plist')

FULL = list(POOL)
P3 = ['0', '2', '-1', 'GF', 'f', 'nil', 'l3', 'dot', 'circ', 'qs', 'ms', 'a', 'ch', 'v3', 'qv', 'lam2', 'ip', 'op', 'al']
P4 = ['1', 'nil', 'l3', 'ms', 'lam1', 'v3', 'op']
P5 = ['2', 'l1', 'list', 'ms']

# name  argument types, [ optional, ... rest;  =V: a call in the domain has a value
SIGS = {}
def sigs(t):
    for l in t.strip().split('\n'):
        total = l.endswith('=V')
        if total: l = l[:-2]
        w = l.split()
        opt = None; rest = None; args = []
        for x in w[1:]:
            if x == '[': opt = len(args)
            elif x.endswith('...'): rest = x[:-3]
            else: args.append(x)
        SIGS[w[0]] = (args, len(args) if opt is None else opt, rest, total)
sigs('''
not any =V
eq? any any =V
eqv? any any =V
equal? any any
boolean? any =V
null? any =V
pair? any =V
list? any =V
symbol? any =V
string? any =V
char? any =V
number? any =V
integer? any =V
vector? any =V
procedure? any =V
eof-object? any =V
input-port? port =V
output-port? port =V
cons any any =V
car pair =V
cdr pair =V
set-car! pair any
set-cdr! pair any
list any... =V
length list =V
length* any =V
append any...
reverse list =V
list-tail any idx
list-ref pair idx
memq any any
memv any any
member any any
assq any any
assv any any
assoc any any
+ int...
- int int...
* int...
/ int int...
= int int any...
< int int any...
> int int any...
<= int int any...
>= int int any...
zero? int =V
positive? int =V
negative? int =V
odd? int =V
even? int =V
abs int
max int int... =V
min int int... =V
quotient int int
modulo int int
remainder int int
gcd int...
lcm int...
expt int int
number->string int [ int
string->number str [ int
symbol->string sym =V
string->symbol str =V
char=? char char =V
char<? char char =V
char>? char char =V
char<=? char char =V
char>=? char char =V
char-ci=? char char =V
char-ci<? char char =V
char-ci>? char char =V
char-ci<=? char char =V
char-ci>=? char char =V
char-alphabetic? char =V
char-numeric? char =V
char-whitespace? char =V
char-upper-case? char =V
char-lower-case? char =V
char-upcase char =V
char-downcase char =V
char->integer char =V
integer->char idx
make-string idx [ any any...
string char... =V
string-length str =V
string-ref str idx
string-set! mstr idx char
string=? str str =V
string<? str str =V
string>? str str =V
string<=? str str =V
string>=? str str =V
string-ci=? str str =V
string-ci<? str str =V
string-ci>? str str =V
string-ci<=? str str =V
string-ci>=? str str =V
substring str idx idx
string-append str... =V
string->list str =V
list->string list
string-copy str =V
string-fill! mstr char =V
make-vector idx [ any
vector any... =V
vector-length vec =V
vector-ref vec idx
vector-set! mvec idx any
vector->list vec =V
list->vector list =V
vector-fill! mvec any =V
apply any any any...
map any any any...
for-each any any any...
force prom
call-with-current-continuation proc
call/cc proc
values any...
call-with-values proc proc
dynamic-wind proc proc proc
eval any any
scheme-report-environment int
null-environment int
interaction-environment =V
call-with-input-file str proc
call-with-output-file str proc
current-input-port =V
current-output-port =V
with-input-from-file str any
with-output-to-file str any
open-input-file str
open-output-file str
close-input-port port
close-output-port port
read [ port
read-char [ port
peek-char [ port
char-ready? [ port
write any [ port
display any [ port
newline [ port
write-char char [ port
write/ss any [ port any...
write-with-shared-structure any [ port any...
load str
open-input-string str =V
open-output-string =V
get-output-string sport =V
raise any
error any any...
with-exception-handler proc proc
sscm-version =V
load-path =V
symbol-bound? sym [ env
provide str =V
provided? str =V
fixnum-width =V
greatest-fixnum =V
least-fixnum =V
require str
%%current-char-codec =V
%%set-current-char-codec! str
%%pair-mutable? pair =V
%%string-mutable? str =V
%%vector-mutable? vec =V
%%current-environment =V
%%error-object? any =V
%%current-error-port =V
%%inspect-error any
%%backtrace
%%string-reconstruct! mstr
%%load str
%%require-module str
%%set-current-error-port! port
%%set-current-input-port! port
%%set-current-output-port! port
%%system-load-path =V
with-char-codec str proc
''')
for n in (2, 3, 4):
    for w in itertools.product('ad', repeat=n): sigs('c%sr pair' % ''.join(w))
for n in 'assoc member map for-each eval vector?'.split(): SIGS['r5rs:' + n] = SIGS[n]
# procedures called in a forked copy of the driver: they change the state of the interpreter, or files
FORK = set('''%%set-current-char-codec! %%set-current-error-port! %%set-current-input-port! %%set-current-output-port! load %%load provide require %%require-module
open-output-file call-with-output-file with-output-to-file raise dynamic-wind call/cc call-with-current-continuation with-exception-handler eval r5rs:eval apply map for-each r5rs:map r5rs:for-each with-char-codec call-with-values read %%string-reconstruct! set-car! set-cdr!'''.split())
NOTCALLED = set('''exit %%fatal-error %%prealloc-heaps'''.split())

MODS = {'srfi-1': '(use srfi-1)', 'srfi-43': '(use srfi-43)', 'srfi-60': '(use srfi-60)', 'srfi-69': '(require-extension (srfi 69))', 'srfi-95': '(require-extension (srfi 95))', 'srfi-48': '(use srfi-48)', 'srfi-28': '(use srfi-28)', 'srfi-9': '(use srfi-9)'}

def domain(name, types):
    """'A' wrong number of arguments, 'T' an argument of a wrong type, 'D' in the domain"""
    args, nreq, rest, total = SIGS[name]
    n = len(types)
    if n < nreq or (n > len(args) and rest is None): return 'A'
    for i, t in enumerate(types):
        want = args[i] if i < len(args) else rest
        if want not in t: return 'T'
    return 'D'

def tuples(name, sizes):
    """sizes: {arity: pool of names}"""
    for n in sorted(sizes):
        for t in itertools.product(sizes[n], repeat=n): yield t

CIRC = {'circ', 'vp'}
# R5RS defines these for finite lists and structures only: they may go on without end (or without bound) for a circular one
FINITE = set("append reverse map for-each r5rs:map r5rs:for-each memq memv member r5rs:member assoc assq assv r5rs:assoc write display equal? apply".split())
def excluded(name, t):
    if name in FINITE and CIRC & set(t): return True
    if name in ('list-ref', 'list-tail') and 'circ' in t and 'GF' in t: return True
    return False
MODPROCS = {
 'srfi-1': "alist-cons alist-copy alist-delete alist-delete! any append! append-map append-map! append-reverse append-reverse! break break! car+cdr circular-list circular-list? concatenate concatenate! cons* count delete delete! delete-duplicates delete-duplicates! dotted-list? drop drop-right drop-right! drop-while eighth every fifth filter filter! filter-map find find-tail first fold fold-right fourth iota last last-pair length+ list-copy list-index list-tabulate list= lset-adjoin lset-diff+intersection lset-diff+intersection! lset-difference lset-difference! lset-intersection lset-intersection! lset-union lset-union! lset-xor lset-xor! lset<= lset= make-list map! map-in-order ninth not-pair? null-list? pair-fold pair-fold-right pair-for-each partition partition! proper-list? reduce reduce-right remove remove! reverse! second seventh sixth span span! split-at split-at! take take! take-right take-while take-while! tenth third unfold unfold-right unzip1 unzip2 unzip3 unzip4 unzip5 xcons zip map for-each member assoc".split(),
 'srfi-43': "reverse-list->vector reverse-vector->list vector-any vector-append vector-binary-search vector-concatenate vector-copy vector-copy! vector-count vector-empty? vector-every vector-fold vector-fold-right vector-for-each vector-index vector-index-right vector-map vector-map! vector-reverse! vector-reverse-copy vector-reverse-copy! vector-skip vector-skip-right vector-swap! vector-unfold vector-unfold-right vector= vector->list list->vector vector-fill!".split(),
 'srfi-60': "any-bits-set? bitwise-and bitwise-if bitwise-ior bitwise-merge bitwise-not bitwise-xor logand logior lognot logtest logxor".split(),
 'srfi-48': "format format+ pretty-print".split(),
 'srfi-9': "make-record make-record-type record-accessor record-constructor record-modifier record-predicate record-ref record-set! record-type record-type-field-tags record-type-name record? vector?".split(),
 'srfi-69': "make-hash-table hash-table? alist->hash-table hash-table-ref hash-table-ref/default hash-table-set! hash-table-delete! hash-table-exists? hash-table-update! hash-table-update!/default hash-table-size hash-table-keys hash-table-values hash-table-walk hash-table-fold hash-table->alist hash-table-copy hash-table-merge! hash string-hash string-ci-hash hash-by-identity expt".split(),
 'srfi-95': "sorted? merge merge! sort sort!".split(),
}
PM = ['0', '2', '-1', 'f', 'nil', 'l3', 'dot', 'qs', 'a', 'ch', 'v3', 'lam0', 'lam1', 'lam2', 'lamr', 'err', 'k', 'al', 'ql', 'op']
PM3 = ['2', 'nil', 'l3', 'dot', 'ms', 'v3', 'lam2', 'lamr']
