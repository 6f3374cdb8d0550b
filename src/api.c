/* Scheme-callable doors to the C interface of the library. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <sys/stat.h>
#include "vdrv.h"
#include "vmem.h"

static ScmObj a_call(ScmObj proc, ScmObj args) { return scm_call(proc, args); }
static ScmObj a_eval(ScmObj obj, ScmObj env) { return scm_eval(obj, env); }
static ScmObj a_evals(ScmObj str) { return scm_eval_c_string(SCM_STRING_STR(str)); }
static ScmObj a_intern(ScmObj str) { return scm_intern(SCM_STRING_STR(str)); }
static ScmObj a_symval(ScmObj sym, ScmObj env) { return scm_symbol_value(sym, env); }
static ScmObj a_boundto(ScmObj obj) { return scm_symbol_bound_to(obj); }
static ScmObj a_length(ScmObj l) { return MAKE_INT(scm_length(l)); }
static ScmObj a_tail(ScmObj l, ScmObj k) { ScmObj r = scm_list_tail(l, SCM_INT_VALUE(k)); return VALIDP(r) ? r : SCM_FALSE; }
static void *out_conv(ScmObj o) { return (void *)(intptr_t)(SCM_INT_VALUE(o) * 3 + 1); }
static ScmObj in_conv(void *p) { return MAKE_INT((scm_int_t)(intptr_t)p); }
/* list -> array -> list, with and without converters */
static ScmObj a_array(ScmObj l, ScmObj mode)
{
    size_t n, i; int m = (int)SCM_INT_VALUE(mode); void **a, **keep; ScmObj r;
    a = scm_list2array(l, &n, m & 1 ? out_conv : NULL);
    /* the elements are on the C stack too: the array itself is not scanned */
    keep = alloca((n + 1) * sizeof(void *));
    for (i = 0; i < n; i++) keep[i] = a[i];
    r = scm_array2list(keep, n, m & 2 ? in_conv : NULL);
    free(a);
    return CONS(MAKE_INT(n), r);
}
static ScmObj a_provide(ScmObj s) { scm_provide(s); return SCM_TRUE; }
static ScmObj a_providedp(ScmObj s) { return MAKE_BOOL(scm_providedp(s)); }
static ScmObj a_use(ScmObj s) { return MAKE_BOOL(scm_use(SCM_STRING_STR(s))); }
static ScmObj a_reqmod(ScmObj s) { return MAKE_BOOL(scm_require_module(SCM_STRING_STR(s))); }
static ScmObj a_require(ScmObj s) { scm_require(SCM_STRING_STR(s)); return SCM_TRUE; }
static ScmObj a_load(ScmObj s) { scm_load(SCM_STRING_STR(s)); return SCM_TRUE; }
static ScmObj a_loadsys(ScmObj s) { scm_load_system_file(SCM_STRING_STR(s)); return SCM_TRUE; }
static ScmObj a_libpath(ScmObj s) { scm_set_lib_path(SCM_STRING_STR(s)); return SCM_TRUE; }
static ScmObj a_mkdir(ScmObj s) { mkdir(SCM_STRING_STR(s), 0777); return SCM_TRUE; }
static ScmObj a_alias(ScmObj n, ScmObj o) { scm_define_alias(SCM_STRING_STR(n), SCM_STRING_STR(o)); return SCM_TRUE; }
static ScmObj a_int(ScmObj i) { return MAKE_INT(SCM_INT_VALUE(i)); }
static ScmObj a_char(ScmObj c) { return MAKE_CHAR(SCM_CHAR_VALUE(c)); }
static ScmObj a_str(ScmObj s, ScmObj how)
{
    ScmObj r; char *c;
    switch (SCM_INT_VALUE(how)) {
    case 0: return MAKE_STRING_COPYING(SCM_STRING_STR(s), SCM_STRING_LEN(s));
    case 1: return MAKE_STRING_COPYING(SCM_STRING_STR(s), STRLEN_UNKNOWN);
    case 2: c = scm_strdup(SCM_STRING_STR(s)); return MAKE_STRING(c, STRLEN_UNKNOWN);
    case 3: return MAKE_IMMUTABLE_STRING_COPYING(SCM_STRING_STR(s), STRLEN_UNKNOWN);
    case 4: c = scm_strdup(SCM_STRING_STR(s)); r = MAKE_IMMUTABLE_STRING(c, STRLEN_UNKNOWN); return r;
    }
    return SCM_FALSE;
}
static ScmObj a_lists(ScmObj n, ScmObj x)
{
    switch (SCM_INT_VALUE(n)) {
    case 1: return LIST_1(x);
    case 2: return LIST_2(MAKE_INT(1), x);
    case 3: return LIST_3(MAKE_INT(1), MAKE_INT(2), x);
    case 4: return LIST_4(MAKE_INT(1), MAKE_INT(2), MAKE_INT(3), x);
    case 5: return LIST_5(MAKE_INT(1), MAKE_INT(2), MAKE_INT(3), MAKE_INT(4), x);
    }
    return SCM_NULL;
}
static ScmObj a_error(ScmObj how, ScmObj a, ScmObj b)
{
    switch (SCM_INT_VALUE(how)) {
    case 0: scm_error("fn", "plain");
    case 1: scm_error("fn", "str ~S int ~D", SCM_STRING_STR(a), (int)SCM_INT_VALUE(b));
    case 2: scm_error_obj("fn", "msg", a);
    case 3: scm_plain_error("pmsg ~D", (int)SCM_INT_VALUE(b));
    case 4: scm_raise_error(scm_make_error_obj(a, b));
    case 5: scm_error(NULL, "nofn");
    case 6: scm_error("fn", "hex ~MX obj ~O", (intmax_t)SCM_INT_VALUE(b), a);
    }
    return SCM_FALSE;
}
static ScmObj a_errobjp(ScmObj o) { return scm_p_error_objectp(o); }
static ScmObj a_eq(ScmObj a, ScmObj b) { return MAKE_BOOL(EQ(a, b)); }
/* foreign pointers, odd ones too */
static ScmObj a_cptr(ScmObj i) { return SCM_MAKE_C_POINTER((void *)(intptr_t)SCM_INT_VALUE(i)); }
static ScmObj a_cptrval(ScmObj p) { return MAKE_INT((scm_int_t)(intptr_t)SCM_C_POINTER_VALUE(p)); }
static ScmObj a_cfptr(ScmObj i) { return SCM_MAKE_C_FUNCPOINTER((ScmCFunc)(intptr_t)SCM_INT_VALUE(i)); }
static ScmObj a_cfptrval(ScmObj p) { return MAKE_INT((scm_int_t)(intptr_t)SCM_C_FUNCPOINTER_VALUE(p)); }
static ScmObj a_cptrp(ScmObj p) { return LIST_2(MAKE_BOOL(SCM_C_POINTERP(p)), MAKE_BOOL(SCM_C_FUNCPOINTERP(p))); }
/* C procedures called directly */
static ScmObj a_direct(ScmObj which, ScmObj a, ScmObj b)
{
    switch (SCM_INT_VALUE(which)) {
    case 0: return scm_p_cons(a, b);
    case 1: return scm_p_equalp(a, b);
    case 2: return scm_p_eqvp(a, b);
    case 3: return scm_p_eqp(a, b);
    case 4: return scm_p_memv(a, b);
    case 5: return scm_p_assoc(a, b);
    case 6: return scm_p_list_tail(a, b);
    case 7: return scm_p_list_ref(a, b);
    case 8: return scm_p_append(LIST_2(a, b));
    case 9: return scm_p_map(a, LIST_1(b));
    case 10: return scm_p_for_each(a, LIST_1(b));
    case 11: return scm_p_string_append(LIST_2(a, b));
    case 12: return scm_p_string_ref(a, b);
    case 13: return scm_p_vector_ref(a, b);
    case 14: return scm_p_make_string(a, LIST_1(b));
    case 15: return scm_p_make_vector(a, LIST_1(b));
    case 16: return scm_p_quotient(a, b);
    case 17: return scm_p_modulo(a, b);
    case 18: return scm_p_remainder(a, b);
    case 19: return scm_p_expt(a, b);
    case 20: return scm_p_number2string(a, LIST_1(b));
    case 21: return scm_p_string2number(a, LIST_1(b));
    case 22: return scm_p_stringequalp(a, b);
    case 23: return scm_p_string_fillx(a, b);
    case 24: return scm_p_vector_fillx(a, b);
    case 25: return scm_p_set_carx(a, b);
    case 26: return scm_p_set_cdrx(a, b);
    case 27: return scm_p_member(a, b);
    case 28: return scm_p_memq(a, b);
    case 29: return scm_p_assq(a, b);
    case 30: return scm_p_assv(a, b);
    case 31: return scm_p_char_equalp(a, b);
    case 32: return scm_p_char_lessp(a, b);
    }
    return SCM_FALSE;
}
static ScmObj a_direct1(ScmObj which, ScmObj a)
{
    switch (SCM_INT_VALUE(which)) {
    case 0: return scm_p_car(a);
    case 1: return scm_p_cdr(a);
    case 2: return scm_p_length(a);
    case 3: return scm_p_reverse(a);
    case 4: return scm_p_listp(a);
    case 5: return scm_p_symbol2string(a);
    case 6: return scm_p_string2symbol(a);
    case 7: return scm_p_string_length(a);
    case 8: return scm_p_string2list(a);
    case 9: return scm_p_list2string(a);
    case 10: return scm_p_vector_length(a);
    case 11: return scm_p_vector2list(a);
    case 12: return scm_p_list2vector(a);
    case 13: return scm_p_char2integer(a);
    case 14: return scm_p_integer2char(a);
    case 15: return scm_p_char_upcase(a);
    case 16: return scm_p_abs(a);
    case 17: return scm_p_force(a);
    case 18: return scm_p_string_copy(a);
    case 19: return scm_p_procedurep(a);
    case 20: return scm_p_error_objectp(a);
    case 21: return scm_p_zerop(a);
    case 22: return scm_p_evenp(a);
    case 23: return scm_p_caddr(a);
    case 24: return scm_p_values(a);
    case 25: return scm_p_list(a);
    case 26: return scm_p_numberp(a);
    case 27: return scm_p_not(a);
    }
    return SCM_FALSE;
}

/* functions of every calling convention: they list what they were given */
#define N0 SCM_NULL
static ScmObj l0(ScmObj r) { return r; }
#define P0 void
#define P1 ScmObj a
#define P2 ScmObj a, ScmObj b
#define P3 ScmObj a, ScmObj b, ScmObj c
#define P4 ScmObj a, ScmObj b, ScmObj c, ScmObj d
#define P5 ScmObj a, ScmObj b, ScmObj c, ScmObj d, ScmObj e
#define C1(r) CONS(a, r)
#define C2(r) CONS(a, CONS(b, r))
#define C3(r) CONS(a, CONS(b, CONS(c, r)))
#define C4(r) CONS(a, CONS(b, CONS(c, CONS(d, r))))
#define C5(r) CONS(a, CONS(b, CONS(c, CONS(d, CONS(e, r)))))
#define ASIS(st, r) ((st)->ret_type = SCM_VALTYPE_AS_IS, (r))
#define BODY(r) LIST_2(MAKE_INT(7), (r))
#define ENVLEN(e) MAKE_INT(scm_length(e) >= 0 ? scm_length(e) : -1)
#define DEF(n) \
 static ScmObj pf##n(P##n) { return C##n(SCM_NULL); } \
 static ScmObj pft##n(P##n, ScmEvalState *st) { return ASIS(st, C##n(SCM_NULL)); } \
 static ScmObj pv##n(P##n, ScmObj r) { return BODY(C##n(LIST_1(r))); } \
 static ScmObj pvt##n(P##n, ScmObj r, ScmEvalState *st) { return ASIS(st, BODY(C##n(LIST_1(r)))); } \
 static ScmObj sf##n(P##n, ScmObj env) { return BODY(C##n(LIST_1(ENVLEN(env)))); } \
 static ScmObj sft##n(P##n, ScmEvalState *st) { return ASIS(st, BODY(C##n(LIST_1(ENVLEN(st->env))))); } \
 static ScmObj sv##n(P##n, ScmObj r, ScmObj env) { return BODY(C##n(LIST_2(r, ENVLEN(env)))); } \
 static ScmObj svt##n(P##n, ScmObj r, ScmEvalState *st) { return ASIS(st, BODY(C##n(LIST_2(r, ENVLEN(st->env))))); } \
 /* tail call of the last argument: the expression to evaluate */ \
 static ScmObj pfe##n(P##n, ScmEvalState *st) { ScmObj l = C##n(SCM_NULL); while (CONSP(CDR(l))) l = CDR(l); st->ret_type = SCM_VALTYPE_NEED_EVAL; st->env = SCM_INTERACTION_ENV; return CAR(l); }
DEF(1) DEF(2) DEF(3) DEF(4) DEF(5)
static ScmObj pf0(void) { return l0(SCM_NULL); }
static ScmObj pft0(ScmEvalState *st) { return ASIS(st, SCM_NULL); }
static ScmObj pv0(ScmObj r) { return BODY(LIST_1(r)); }
static ScmObj pvt0(ScmObj r, ScmEvalState *st) { return ASIS(st, BODY(LIST_1(r))); }
static ScmObj sf0(ScmObj env) { return BODY(LIST_1(ENVLEN(env))); }
static ScmObj sft0(ScmEvalState *st) { return ASIS(st, BODY(LIST_1(ENVLEN(st->env)))); }
static ScmObj sv0(ScmObj r, ScmObj env) { return BODY(LIST_2(r, ENVLEN(env))); }
static ScmObj svt0(ScmObj r, ScmEvalState *st) { return ASIS(st, BODY(LIST_2(r, ENVLEN(st->env)))); }
/* a reduction: remembers the states and operands */
static ScmObj red(ScmObj l, ScmObj r, enum ScmReductionState *st)
{
    switch (*st) {
    case SCM_REDUCE_0: return SCM_NULL;
    case SCM_REDUCE_1: return LIST_2(MAKE_INT(1), r);
    case SCM_REDUCE_PARTWAY: return LIST_3(MAKE_INT(2), l, r);
    case SCM_REDUCE_LAST: return LIST_3(MAKE_INT(3), l, r);
    default: return SCM_FALSE;
    }
}
static ScmObj redstop(ScmObj l, ScmObj r, enum ScmReductionState *st)
{
    if (*st == SCM_REDUCE_PARTWAY && EQ(r, SCM_FALSE)) { *st = SCM_REDUCE_STOP; return LIST_1(l); }
    return red(l, r, st);
}
#define F(p, t) \
    { "%" #p "0", (ScmFuncType)p##0, t##_0 }, { "%" #p "1", (ScmFuncType)p##1, t##_1 }, { "%" #p "2", (ScmFuncType)p##2, t##_2 }, \
    { "%" #p "3", (ScmFuncType)p##3, t##_3 }, { "%" #p "4", (ScmFuncType)p##4, t##_4 }, { "%" #p "5", (ScmFuncType)p##5, t##_5 }
static const struct scm_func_registration_info conv[] = {
    F(pf, SCM_PROCEDURE_FIXED), F(pft, SCM_PROCEDURE_FIXED_TAILREC), F(pv, SCM_PROCEDURE_VARIADIC), F(pvt, SCM_PROCEDURE_VARIADIC_TAILREC),
    F(sf, SCM_SYNTAX_FIXED), F(sft, SCM_SYNTAX_FIXED_TAILREC), F(sv, SCM_SYNTAX_VARIADIC), F(svt, SCM_SYNTAX_VARIADIC_TAILREC),
    { "%pfe1", (ScmFuncType)pfe1, SCM_PROCEDURE_FIXED_TAILREC_1 }, { "%pfe2", (ScmFuncType)pfe2, SCM_PROCEDURE_FIXED_TAILREC_2 }, { "%pfe3", (ScmFuncType)pfe3, SCM_PROCEDURE_FIXED_TAILREC_3 },
    { "%pfe4", (ScmFuncType)pfe4, SCM_PROCEDURE_FIXED_TAILREC_4 }, { "%pfe5", (ScmFuncType)pfe5, SCM_PROCEDURE_FIXED_TAILREC_5 },
    { "%red", (ScmFuncType)red, SCM_REDUCTION_OPERATOR }, { "%redstop", (ScmFuncType)redstop, SCM_REDUCTION_OPERATOR },
    { NULL, NULL, SCM_FUNCTYPE_INVALID }
};
static ScmObj a_conv(void) { scm_register_funcs(conv); return SCM_UNDEF; }

static const struct scm_func_registration_info api[] = {
    { "%c-conventions", (ScmFuncType)a_conv, SCM_PROCEDURE_FIXED_0 },
    { "%c-call", (ScmFuncType)a_call, SCM_PROCEDURE_FIXED_2 },
    { "%c-eval", (ScmFuncType)a_eval, SCM_PROCEDURE_FIXED_2 },
    { "%c-eval-string", (ScmFuncType)a_evals, SCM_PROCEDURE_FIXED_1 },
    { "%c-intern", (ScmFuncType)a_intern, SCM_PROCEDURE_FIXED_1 },
    { "%c-symval", (ScmFuncType)a_symval, SCM_PROCEDURE_FIXED_2 },
    { "%c-bound-to", (ScmFuncType)a_boundto, SCM_PROCEDURE_FIXED_1 },
    { "%c-length", (ScmFuncType)a_length, SCM_PROCEDURE_FIXED_1 },
    { "%c-tail", (ScmFuncType)a_tail, SCM_PROCEDURE_FIXED_2 },
    { "%c-array", (ScmFuncType)a_array, SCM_PROCEDURE_FIXED_2 },
    { "%c-provide", (ScmFuncType)a_provide, SCM_PROCEDURE_FIXED_1 },
    { "%c-providedp", (ScmFuncType)a_providedp, SCM_PROCEDURE_FIXED_1 },
    { "%c-use", (ScmFuncType)a_use, SCM_PROCEDURE_FIXED_1 },
    { "%c-require-module", (ScmFuncType)a_reqmod, SCM_PROCEDURE_FIXED_1 },
    { "%c-require", (ScmFuncType)a_require, SCM_PROCEDURE_FIXED_1 },
    { "%c-load", (ScmFuncType)a_load, SCM_PROCEDURE_FIXED_1 },
    { "%c-load-system", (ScmFuncType)a_loadsys, SCM_PROCEDURE_FIXED_1 },
    { "%c-lib-path", (ScmFuncType)a_libpath, SCM_PROCEDURE_FIXED_1 },
    { "%mkdir", (ScmFuncType)a_mkdir, SCM_PROCEDURE_FIXED_1 },
    { "%c-alias", (ScmFuncType)a_alias, SCM_PROCEDURE_FIXED_2 },
    { "%c-int", (ScmFuncType)a_int, SCM_PROCEDURE_FIXED_1 },
    { "%c-char", (ScmFuncType)a_char, SCM_PROCEDURE_FIXED_1 },
    { "%c-str", (ScmFuncType)a_str, SCM_PROCEDURE_FIXED_2 },
    { "%c-list", (ScmFuncType)a_lists, SCM_PROCEDURE_FIXED_2 },
    { "%c-error", (ScmFuncType)a_error, SCM_PROCEDURE_FIXED_3 },
    { "%c-errobj?", (ScmFuncType)a_errobjp, SCM_PROCEDURE_FIXED_1 },
    { "%c-eq?", (ScmFuncType)a_eq, SCM_PROCEDURE_FIXED_2 },
    { "%c-ptr", (ScmFuncType)a_cptr, SCM_PROCEDURE_FIXED_1 },
    { "%c-ptr-value", (ScmFuncType)a_cptrval, SCM_PROCEDURE_FIXED_1 },
    { "%c-fptr", (ScmFuncType)a_cfptr, SCM_PROCEDURE_FIXED_1 },
    { "%c-fptr-value", (ScmFuncType)a_cfptrval, SCM_PROCEDURE_FIXED_1 },
    { "%c-ptr?", (ScmFuncType)a_cptrp, SCM_PROCEDURE_FIXED_1 },
    { "%c-direct", (ScmFuncType)a_direct, SCM_PROCEDURE_FIXED_3 },
    { "%c-direct1", (ScmFuncType)a_direct1, SCM_PROCEDURE_FIXED_2 },
    { NULL, NULL, SCM_FUNCTYPE_INVALID }
};
/* defines the doors; a door of its own, so that other checks see an unchanged set of bindings */
ScmObj v_api(void) { scm_register_funcs(api); return SCM_UNDEF; }
