#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the readable source of the property list)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = state
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = hook
    assert len(title) <= 80, title
    P.append(d)

prop('C01', 'Garbage collection is invisible to programs',
 'For every program and every set of cell allocations at which the collector happens to run, the values, output and errors of the program are exactly those of the run in which no collection happens: nothing reachable from variables, the running computation, captured continuations, installed handlers, macros, ports, literals, the symbol table or locations protected through the C API is reclaimed or altered. Holds for both storage layouts.',
 ['schedules', 'programs', 'configurations'],
 'all programs; all subsets of allocation points as collection points; compact and fatty storage; any sequence of C-API protect/unprotect calls',
 'A test sees the collector run only where the free list happens to empty (rarely: heaps hold thousands of cells); a missing root shows up only if a collection hits one particular allocation of one particular construct.',
 ['src/storage-gc.c', 'src/storage.c', 'src/storage-compact.h', 'src/storage-fatty.h', 'src/symbol.c', 'src/continuation.c', 'src/error.c', 'src/module-srfi34.c', 'src/module.c'],
 [('conservative stack and register scan', 'src/storage-gc.c gc_mark, gc_mark_locations'),
  ('per-type marking', 'src/storage-gc.c mark_obj'),
  ('protected variables', 'src/storage-gc.c scm_gc_protect, scm_gc_unprotect; every module initializer'),
  ('symbol table roots', 'src/storage-gc.c gc_mark_global_vars')],
 ['results, output and errors of evaluation', 'scm_gc_protectedp()'],
 hook='SCM_VERIF_HOOKS: callback on each cell allocation that can force a collection')

prop('C02', 'Garbage is reclaimed; a program with bounded live data runs forever',
 'Cells and malloc-held bodies (string and vector bodies, port buffers, symbol names) of objects that are no longer reachable are recycled, so that repeating any operation that keeps no live data never grows the number of live cells, the number of heaps or the outstanding malloc memory, including operations that leave through an error or a continuation. Finalizing the interpreter releases everything, and it can be initialized and used again any number of times with identical behaviour. A location that has been unprotected no longer keeps its object alive.',
 ['histories', 'programs', 'configurations'],
 'all operations and short operation sequences, repeated; all init/use/finalize histories; all protect/unprotect sequences',
 'Unit tests terminate quickly, never measure memory and initialize the interpreter once per process.',
 ['src/storage-gc.c', 'src/storage.c', 'src/sigscheme.c', 'src/port.c', 'src/string.c', 'src/read.c', 'src/module.c'],
 [('sweep and per-type finalizers', 'src/storage-gc.c gc_sweep, free_cell'),
  ('finalizers of subsystems', 'src/sigscheme.c scm_finalize_internal and scm_fin_*'),
  ('growable local buffers', 'src/sigschemeinternal.h ScmLBuf; src/read.c, src/format.c')],
 ['live cell count after a full collection', 'malloc bytes outstanding', 'second scm_initialize()'],
 hook='SCM_VERIF_HOOKS: count of live cells after a full collection')

prop('C03', 'Memory exhaustion ends in the reported fatal error, never in corruption',
 'If any single memory request (malloc, realloc, heap growth) fails, at any moment from initialization to finalization, or the configured number of heaps is used up, the interpreter ends through its fatal-error path (a message, then the fatal-error callback or exit with a failure status) without touching invalid memory. It never continues with a wrong result, and requests for impossibly large objects are refused rather than wrapped around to small ones.',
 ['fault_sequences', 'programs'],
 'every index k of the k-th memory request of each program in the corpus, for both storages; heap limits; huge sizes given to every allocating procedure',
 'Tests never make an allocation fail.',
 ['src/alloc.c', 'src/storage-gc.c', 'src/error.c', 'src/string-procedure.c', 'src/vector.c', 'src/sigschemeinternal.h'],
 [('checked allocators', 'src/alloc.c ENSURE_ALLOCATED'),
  ('fatal error path', 'src/error.c scm_fatal_error, scm_set_fatal_error_callback'),
  ('size checks before allocation', 'src/string-procedure.c, src/vector.c, src/sigschemeinternal.h lbuf extension')],
 ['exit status and message', 'AddressSanitizer'])

prop('C04', 'Tail calls run in constant stack space in every tail context',
 'A loop whose recursive call sits in a tail position runs for an unbounded number of iterations without the C stack growing. Tail positions are those of R5RS and the supported SRFIs (bodies of lambda, let forms, named let, begin, if, cond, case, and, or, do results, apply, call-with-values consumers, receive, let-optionals*, define-macro expansion), in every nesting of such contexts.',
 ['programs'],
 'all nestings of tail contexts, up to a depth, around a self or mutual call',
 'test-tail-rec.scm samples some single contexts with a fixed iteration count; compositions are not reached.',
 ['src/eval.c', 'src/syntax.c', 'src/procedure.c', 'src/continuation.c', 'src/module-srfi8.c', 'src/module-sscm-ext.c', 'src/module-srfi2.c', 'src/legacy-macro.c'],
 [('trampolined evaluation', 'src/eval.c scm_eval, call; SCM_VALTYPE_NEED_EVAL'),
  ('tail-recursive syntax', 'procedure_*_tailrec_*, syntax_*_tailrec_* in src/syntax.c and modules')],
 ['C stack depth at each iteration'])

prop('C05', 'Core evaluation follows R5RS lexical scoping and control syntax',
 'Every program over the primitive and derived expression types (variable reference, application, quote, lambda with fixed, optional and rest formals, if, set!, define and internal define, begin, let, let*, letrec, named let, do, cond with =>, case, and, or, delay) has the value, side effects and error-or-not that the R5RS semantics give it with lexical scoping and left-to-right evaluation; a binding shadows every outer meaning of the same name, including the names of syntactic keywords and of standard procedures. Malformed forms and unbound variables are errors, not silent results.',
 ['programs'],
 'all programs of the expression grammar up to a size bound',
 'The suites check a few hundred fixed expressions; interactions of scoping constructs with shadowing, mutation and closure capture are combinatorial.',
 ['src/eval.c', 'src/env.c', 'src/syntax.c', 'src/procedure.c'],
 [('environment frames and lookup', 'src/env.c scm_extend_environment, scm_lookup_environment, lookup_n_frame'),
  ('argument matching', 'src/eval.c call_closure, reduce, map_eval'),
  ('syntax implementations', 'src/syntax.c scm_s_*')],
 ['value, output trace and error status of an evaluation'])

prop('C06', 'Continuations, dynamic-wind and multiple values compose correctly',
 'Escaping through a continuation captured by call-with-current-continuation delivers the passed values to its creation point and runs exactly the after thunks of the dynamic-wind extents it leaves, innermost first, each once, in the dynamic context outside its own extent; normal entry and exit run before and after exactly once in order. Errors and raised objects that unwind to a handler run the same after thunks, values and call-with-values pass every number of values unchanged, and using a continuation whose extent has been left is reported as an error rather than crashing.',
 ['programs', 'histories'],
 'all programs composed of call/cc, continuation invocation, dynamic-wind, guard/raise, values and call-with-values up to a nesting and length bound',
 'Tests contain a handful of fixed dynamic-wind traces; nestings of escapes out of before, thunk and after parts are combinatorial.',
 ['src/continuation.c', 'src/procedure.c', 'src/module-srfi34.c', 'src/module-srfi8.c', 'src/storage.c'],
 [('continuation stack and unwinding', 'src/continuation.c continuation_stack_*, scm_call_continuation, scm_call_with_current_continuation'),
  ('dynamic extent list', 'src/continuation.c scm_dynamic_wind, enter_dynamic_extent, exit_dynamic_extent, wind_onto_dynamic_extent'),
  ('multiple values', 'src/continuation.c scm_values, scm_call_with_values')],
 ['ordered trace of thunk entries and results'])

prop('C07', 'SRFI-34/23 exceptions are delivered right and the interpreter stays usable',
 'raise calls the current handler in the dynamic context of raise minus that handler; with-exception-handler installs its handler exactly for its thunk; guard evaluates its clauses with the handlers of the guard expression, supports => and else, re-raises when no clause matches, and returns the values of the body otherwise; raised objects of any type and error objects arrive unchanged. After any error caught by guard, whatever raised it (syntax errors, type errors, reader errors, nested errors in handlers), every later evaluation behaves as in a fresh context: handlers, dynamic extents and interpreter state are as before the guarded expression.',
 ['programs', 'histories'],
 'all nestings of guard, with-exception-handler, raise, error and builtin errors up to a bound; all short histories of failing operations followed by probe operations',
 'Tests check single guard forms; state left behind after an error is observable only in later evaluations of particular kinds.',
 ['src/module-srfi34.c', 'src/error.c', 'src/module-srfi23.c', 'src/continuation.c'],
 [('handler stack', 'src/module-srfi34.c with_exception_handlers, scm_p_srfi34_raise'),
  ('guard evaluation', 'src/module-srfi34.c scm_s_srfi34_guard, guard_body, guard_handler'),
  ('error objects', 'src/error.c scm_make_error_obj, scm_raise_error, scm_throw_error')],
 ['value of guard forms, trace of handler calls, probe evaluations afterwards'])

prop('C08', 'No argument can crash a procedure: it returns or reports an error',
 'Every procedure and syntax of the language and its modules, applied to any number of arguments of any types and values (including cyclic and improper lists, empty objects, boundary indexes, wrong types, closed ports, captured continuations), either returns or signals a Scheme error that guard can catch. It never reads or writes invalid memory, aborts, divides by zero in C or silently mutates an immutable literal, and arguments of a type outside the documented domain of a checked position are rejected. Exceptions: procedures that R5RS defines for finite lists or finite structures may run without end on circular ones; making an object too large for the memory may end in the reported exhaustion of memory; operands of a comparison after the one that decides it, and the filler of an empty object, may go unchecked.',
 ['inputs'],
 'every bound procedure and syntactic form x all argument tuples over a pool of representative values, up to three or four arguments; compact and fatty',
 'Tests cover documented errors one argument at a time; the cross product of procedures and adversarial argument tuples is far larger.',
 ['src/sigschemeinternal.h', 'src/list.c', 'src/vector.c', 'src/string.c', 'src/string-procedure.c', 'src/number.c', 'src/char.c', 'src/port.c', 'src/module-srfi1.c', 'src/module-srfi60.c', 'src/module-srfi38.c', 'src/module-sscm-ext.c', 'src/eval.c', 'src/syntax.c'],
 [('argument type checks', 'ENSURE_* macros in src/sigschemeinternal.h'),
  ('arity checks', 'src/eval.c call'),
  ('immutability checks', 'ENSURE_MUTABLE_* macros')],
 ['returned value or caught error', 'process survival under AddressSanitizer and UBSan'])

prop('C09', 'The reader accepts exactly the documented syntax and survives any input',
 'For every byte string, reading either yields the datum that the documented lexical syntax (R5RS plus the supported R6RS/SRFI extensions) assigns to it, or reports a parse error, or end of file; it never crashes, hangs or depends on how the text is split into port reads. Reading consumes exactly one datum, so that consecutive reads yield consecutive data, and every proper prefix of a list, string or vector literal is reported as an error instead of a datum.',
 ['inputs'],
 'all byte strings up to a length over an alphabet of syntactically significant bytes, and all token sequences up to a length; all truncations',
 'Reader tests list individual spellings; the interplay of delimiters, dots, quotes, comments, character names and truncation is combinatorial.',
 ['src/read.c', 'src/scmport-str.c', 'src/scmport-mbchar.c', 'src/number-io.c'],
 [('token buffering and delimiters', 'src/read.c read_token, skip_comment_and_space'),
  ('datum parsers', 'src/read.c read_sexpression, read_list, read_char, read_string, read_symbol, read_number_or_peculiar, parse_unicode_sequence')],
 ['datum, remaining input, error status'])

prop('C10', 'write is the inverse of read; write/ss shows sharing faithfully',
 'For every finite datum made of lists, dotted pairs, vectors, strings, characters, symbols (as the reader can produce them), numbers, booleans and empty lists, the text produced by write is read back as an equal? datum, and write/ss of any such structure, shared or circular, terminates and its labels denote exactly the sharing and cycles of the structure. display differs from write only in printing strings and characters raw, and numbers print in every radix so that reading in that radix restores them. A write that fails has no influence on later writes.',
 ['inputs'],
 'all data trees up to a size over a pool of leaf objects; all directed graphs of pairs and vectors up to a node count; all characters',
 'Tests write a few dozen objects; write/ss is checked on a handful of cycles.',
 ['src/write.c', 'src/read.c', 'src/module-srfi38.c', 'src/number-io.c'],
 [('external representation', 'src/write.c write_obj, write_list, write_vector, write_string, write_char'),
  ('shared structure scan', 'src/write.c write_ss_scan, write_ss_internal, hash_lookup, get_shared_index')],
 ['text written, datum read back'])

prop('C11', 'Integer arithmetic is exact or reports an error',
 'Every integer procedure (comparison, + - quotient remainder modulo gcd lcm abs max min expt, the number predicates, SRFI-60 bitwise operations, and / which is truncating integer division here) returns the mathematically exact result whenever it is representable, and otherwise signals an error instead of returning a wrong number; only * is documented not to check and wraps around. The division procedures satisfy the division identities and sign rules. number->string and string->number are exact inverses in radix 2, 8, 10 and 16, and string->number returns #f for every string that is not a number.',
 ['inputs'],
 'all operand tuples over small integers and all neighbourhoods of the representable limits and powers of two; all short digit strings in every radix',
 'Arithmetic tests use small operands and a few limits.',
 ['src/number.c', 'src/number-io.c', 'src/module-srfi60.c', 'src/storage-compact.h'],
 [('reduction of variadic operators', 'src/eval.c reduce; src/number.c REDUCE_* handling'),
  ('overflow checks', 'src/number.c'),
  ('number parsing and printing', 'src/number-io.c scm_string2number, scm_int2string; src/read.c parse_number')],
 ['values and errors'])

prop('C12', 'Character codecs decode and encode every character exactly',
 'For UTF-8, EUC-JP, EUC-CN, EUC-KR, Shift_JIS and ISO-8859-1, encoding any character of the codec and decoding the bytes gives the same character, valid byte sequences are split at exactly the right boundaries wherever they occur in a string, and invalid or truncated sequences are reported as such without reading past the end. The decoding does not depend on how the bytes are delivered (string or port, buffer boundaries), and character count, reference and substring agree with the decoded sequence.',
 ['inputs', 'configurations'],
 'all Unicode code points and all double and triple byte codes; all byte strings up to a length over class representatives; all codecs',
 'Encoding tests check a few characters per codec.',
 ['src/encoding.c', 'src/encoding.h', 'src/scmport-mbchar.c', 'src/string.c', 'src/string-procedure.c'],
 [('codec vtables', 'src/encoding.c utf8_*, eucjp_*, euccn_*, euckr_*, sjis_*, unibyte_*'),
  ('incremental decoding port', 'src/scmport-mbchar.c mbcport_fill_rbuf, mbcport_get_char, mbcport_peek_char')],
 ['C codec API results', 'string procedures and read-char on the same bytes'])

prop('C13', 'String and character procedures behave as sequences of characters',
 'Strings behave as mutable sequences of characters whatever the byte lengths of their characters: every sequence of make-string, string, string-length, string-ref, string-set!, string-fill!, substring, string-append, string-copy, list<->string, comparison and case-insensitive comparison, and conversion operations gives the results of the same operations on a list of characters, and no operation disturbs another string or its own other characters. Character predicates, case conversion, ordering and integer conversion agree with the code points.',
 ['histories', 'inputs'],
 'all operation sequences up to a depth over strings of one- to four-byte characters; all pairs of short strings; all characters',
 'Tests apply single operations to fixed strings; replacing characters by ones of another byte length in sequences is barely touched.',
 ['src/string.c', 'src/string-procedure.c', 'src/char.c', 'src/encoding.c'],
 [('byte-level editing of character sequences', 'src/string.c scm_p_string_setx, scm_p_substring, scm_p_string_append; src/string-procedure.c'),
  ('character count bookkeeping', 'src/string.c STRING_SET_LEN; scm_make_string_internal')],
 ['contents, length and identity of all strings after each step'])

prop('C14', 'List procedures (R5RS and SRFI-1) match their definitions',
 'Every R5RS and SRFI-1 list procedure returns, for all arguments in its domain, the result its specification defines, with the specified element order and calling order of procedure arguments; non-destructive procedures leave their arguments unmodified, linear-update and destructive ones affect only the lists they are given. Proper, dotted and circular lists are told apart correctly, and association and membership use the specified equality in the specified argument order.',
 ['inputs'],
 'all lists up to a length over a small element set, all index arguments in range, a pool of procedure arguments, one to three list arguments',
 'The suites check fixed examples per procedure.',
 ['src/list.c', 'src/module-srfi1.c', 'lib/srfi-1.scm', 'src/procedure.c', 'src/deep-cadrs.c'],
 [('C list primitives', 'src/list.c; src/procedure.c scm_p_map, scm_p_for_each, scm_map_multiple_args'),
  ('SRFI-1 reference implementation', 'lib/srfi-1.scm'), ('C overrides', 'src/module-srfi1.c')],
 ['result, argument contents afterwards, call trace of procedure arguments'])

prop('C15', 'Vector procedures (R5RS and SRFI-43) match their definitions',
 'Every R5RS and SRFI-43 vector procedure returns what its specification defines for all vectors, optional start/end arguments and procedure arguments, calling procedure arguments with the right index and elements in the right order, and modifies only the range it is documented to modify. Overlapping copies within one vector behave as if the source were read first; out-of-range indexes are errors.',
 ['inputs'],
 'all vectors up to a length over a small element set, all start/end combinations in and around the valid range, a pool of procedure arguments',
 'The tests check fixed examples, mostly without the optional ranges.',
 ['src/vector.c', 'lib/srfi-43.scm', 'src/module-srfi43.c'],
 [('C vector primitives', 'src/vector.c'), ('SRFI-43 reference implementation', 'lib/srfi-43.scm'), ('start/end parsing', 'src/module-srfi43.c scm_s_let_vector_start_plus_end')],
 ['result, vector contents afterwards, call trace'])

prop('C16', 'Ports deliver exactly the characters written or stored, in order',
 'For string and file ports in every supported character codec, any interleaving of read-char, peek-char, read, read-line style consumption and char-ready? delivers the stored characters in order with peeking never consuming, then end of file forever; any sequence of write, display, write-char and newline produces exactly the concatenation of their representations. Current ports are restored when with-input-from-file/with-output-to-file/call-with-* are left, closed ports are refused, and loading a file evaluates its forms in order, honouring its codec declaration and restoring the previous codec.',
 ['histories', 'inputs'],
 'all operation sequences up to a depth over ports on contents of all character widths, with several ports open and closed; all codecs; buffer-boundary lengths',
 'Port tests read small fixed texts with one operation kind.',
 ['src/port.c', 'src/scmport-basechar.c', 'src/scmport-mbchar.c', 'src/scmport-str.c', 'src/scmport-file.c', 'src/load.c', 'src/module-srfi6.c', 'src/module-sscm-ext.c'],
 [('character and byte port layers', 'src/scmport-*.c'), ('port procedures and current ports', 'src/port.c'), ('load and prelude parsing', 'src/load.c')],
 ['characters delivered, bytes written to string or file, errors'])

prop('C17', 'format (SRFI-28/48 and extensions) renders every directive sequence right',
 'For every format string made of literal text and supported directives (~a ~s ~d ~b ~o ~x ~c ~f ~w ~y ~~ ~% ~& ~t ~_ ~? ~k and width/padding prefixes) with matching arguments, the output is the concatenation of what each directive specifies, to the given destination (port, #t, #f or omitted). Unknown or truncated directives and missing or excess arguments are errors.',
 ['inputs'],
 'all directive sequences up to a length over all directives and argument kinds; all destinations',
 'Tests check one directive at a time.',
 ['src/format.c', 'src/module-srfi28.c', 'src/module-srfi48.c', 'src/module-sscm-ext.c'],
 [('directive interpreter', 'src/format.c format_internal, format_directive, read_number, format_number')],
 ['text produced or error'])

prop('C18', 'Quasiquotation builds exactly the specified structure',
 'For every quasiquote template of lists, dotted lists and vectors with unquote, unquote-splicing and nested quasiquotes, the result equals the structure R5RS defines: only unquotes at level one are evaluated, in left-to-right order, splicing inserts elements (or a tail in last position), and inner levels are preserved. Templates are never modified by evaluation and the result can be evaluated again any number of times; splicing a non-list is an error.',
 ['inputs', 'programs'],
 'all templates up to a size over the grammar of templates, nested to a depth, evaluated repeatedly',
 'Tests check a few dozen templates.',
 ['src/qquote.c'],
 [('template walker', 'src/qquote.c qquote_list, qquote_vector, qquote_internal; tr_* translators')],
 ['structure and evaluation order; second evaluation'])

prop('C19', 'Macros expand as specified: syntax-rules matching and hygiene',
 'syntax-rules macros (experimental hygienic build) match patterns with literals, ellipses, nested ellipses, dotted tails and vectors exactly as R5RS specifies, choose the first matching rule, and are hygienic: template identifiers refer to the bindings at the macro definition, and binders introduced by a template never capture user identifiers. define-macro macros (all builds) are called with their unevaluated operands each time the form is evaluated, and the expansion is evaluated in the environment of the use.',
 ['programs'],
 'all small pattern/template pairs x all small operand forms; all binding contexts of macro definition and use up to a depth',
 'The tests check a fixed list of macros.',
 ['src/macro.c', 'src/legacy-macro.c', 'src/env.c'],
 [('pattern matcher and instantiation', 'src/macro.c match, expand_hygienic_macro, sub_*'), ('hygienic renaming', 'src/macro.c rename, wrap_identifier, scm_identifierequalp; src/env.c'), ('legacy macros', 'src/legacy-macro.c')],
 ['value of macro uses'])

prop('C20', 'SRFI-9, 69, 95, 2, 8, promises and optional-argument forms keep their contracts',
 'Records keep their types disjoint and their fields independent; hash tables behave as finite maps under every sequence of operations with every supported equivalence; sort and merge return ordered, stable permutations and leave non-! arguments intact; promises are evaluated at most once with the first value kept even on reentry; and-let*, receive, let-optionals* and the other supported binding forms bind in the specified scope and order.',
 ['histories', 'inputs', 'programs'],
 'all operation sequences up to a depth on tables and records; all short sequences to sort with all key collisions; all small uses of the binding forms',
 'Tests follow single scripted histories.',
 ['lib/srfi-9.scm', 'src/module-srfi9.c', 'lib/srfi-69.scm', 'lib/srfi-95.scm', 'src/promise.c', 'src/module-srfi2.c', 'src/module-srfi8.c', 'src/module-sscm-ext.c'],
 [('records', 'lib/srfi-9.scm'), ('hash tables', 'lib/srfi-69.scm'), ('sorting', 'lib/srfi-95.scm'), ('promises', 'src/promise.c'), ('binding forms', 'src/module-srfi2.c, src/module-srfi8.c, src/module-sscm-ext.c')],
 ['results of each operation and of full enumeration afterwards'])

prop('C21', 'Both storage layouts and all libraries behave identically',
 'The compact and the fatty storage implementation give the same values, output and error-or-not for every program; object type predicates are disjoint for every object; eq?, eqv? and equal? are equivalence relations ordered by refinement, with numbers and characters compared by value under eqv?, symbols unique per name, and literal constants immutable where the build says so. Every object keeps its contents and identity under mutation of others.',
 ['configurations', 'inputs'],
 'all pairs and triples of objects from a pool covering every type and boundary value; all program corpora of the other properties on both layouts',
 'The test suite is run per layout but never compared; representation boundaries (tag bits, fixnum limits, alignment) are hit only by particular values.',
 ['src/storage-compact.h', 'src/storage-fatty.h', 'src/storage-common.h', 'src/storage.c', 'src/list.c', 'src/symbol.c'],
 [('tagged cell representation', 'src/storage-compact.h'), ('typed cell representation', 'src/storage-fatty.h'), ('equivalence', 'src/eval.c/src/procedure.c scm_p_eqvp, scm_p_equalp')],
 ['value comparisons'])

prop('C22', 'Modules load once, features match, and the embedding API is faithful',
 'require-extension, use, require, provide, provided? and cond-expand agree with each other: requiring a supported module any number of times in any order makes its bindings available without disturbing the behaviour of others, a module is loaded only once, requests for unknown modules are refused (an error from require-extension and require, #f from use), and cond-expand chooses the clause the provided features dictate. Evaluating through the C embedding API (C string evaluation, calls, conversions, errors, protected locations) gives the same results as the same operations in Scheme, C procedures of every calling convention receive their arguments as registered, and the interpreter program evaluates sessions and scripts as eval does, reporting errors and exit status.',
 ['histories', 'configurations'],
 'all ordered selections of modules up to a length; all cond-expand requirement trees up to a depth; all sequences of API calls up to a length',
 'Tests load one module per file in one fixed order.',
 ['src/module.c', 'src/module-srfi55.c', 'lib/srfi-0.scm', 'lib/srfi-55.scm', 'src/module-sscm-ext.c', 'src/sigscheme.c'],
 [('module table', 'src/module.c scm_use, scm_require_module, scm_provide, scm_providedp'), ('cond-expand', 'lib/srfi-0.scm'), ('C API', 'src/sigscheme.c scm_eval_c_string')],
 ['bindings and results after each step'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + '\n')
print(len(P), 'properties')
