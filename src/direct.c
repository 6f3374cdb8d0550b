/* Histories of calls of the C interface, one per line of standard input; one
 * line of answers each.  Histories starting with ! run in a process of their
 * own.  Tokens (I = 0..3, objects are lists of OLEN cells carrying a number):
 *   i z     initialize, finalize (answers blocks and files outstanding)
 *   s       load the prelude          e:HEX  evaluate, answers kind and value
 *   aI      global I = new object     pI uI  protect, unprotect global I
 *   qI      protect with a new object c x    collect, churn
 *   dI kI   store global I in, clear, variable hI  gI  global I = variable hI
 *   l       answers the number of objects alive   rI  answers the object of global I
 *   wIJ     global J = global I         N  numbers of objects start again
 *   vI      answers whether global I's object is scm_gc_protectedp
 *   mN MN   the Nth memory request from here is refused, and all later ones   n  answers the number of requests
 *   t       accounts of blocks start here */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdint.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include "vdrv.h"
#include "vmem.h"
#define OLEN 50
extern int (*scm_verif_alloc_hook)(void);
extern void scm_verif_collect(size_t *used, size_t *total);
#define OUT(...) fprintf(res, __VA_ARGS__)

static ScmObj g[4];
static long serial, base_used, cells_per_obj;
static char out[1 << 16]; static size_t outn;
#define ANS(...) (outn += snprintf(out + outn, sizeof(out) - outn - 1, __VA_ARGS__))
static volatile int *done;

static void *mk_(void *a)
{
    ScmObj volatile l = SCM_NULL; int i;
    for (i = 0; i < OLEN; i++) l = CONS(MAKE_INT(serial * 1000 + i), l);
    *(ScmObj *)a = l;
    return NULL;
}
static void __attribute__((noinline)) mk(ScmObj *to) { serial++; scm_call_with_gc_ready_stack(mk_, to); }
static void *churn_(void *a) { int i; for (i = 0; i < 3000; i++) CONS(SCM_NULL, SCM_NULL); return a; }
static void __attribute__((noinline)) wipe(void)
{
    volatile char b[32768];
    memset((char *)b, 0, sizeof(b));
    __asm__ volatile("" : : "r"(b) : "memory");
}
static size_t total;
static void *used_(void *a) { scm_verif_collect(a, &total); return NULL; }
static size_t __attribute__((noinline)) used(void) { size_t u; wipe(); scm_call_with_gc_ready_stack(used_, &u); return u; }
static ScmObj hsym(int i) { char n[] = "direct-h0"; n[8] = '0' + i; return scm_intern(n); }
static void *hset(void *a) { int i = (int)(intptr_t)a; SCM_SYMBOL_SET_VCELL(hsym(i), g[i]); return NULL; }
static void *hclr(void *a) { SCM_SYMBOL_SET_VCELL(hsym((int)(intptr_t)a), SCM_FALSE); return NULL; }
static void *hget(void *a) { int i = (int)(intptr_t)a; g[i] = SCM_SYMBOL_VCELL(hsym(i)); return NULL; }
static void *hinit(void *a) { int i; for (i = 0; i < 4; i++) hclr((void *)(intptr_t)i); return a; }
static void *prot_(void *a) { return (void *)(intptr_t)scm_gc_protectedp(*(ScmObj *)a); }
static void flush_dead(void)
{
    *done = 1;
    fprintf(res, "%s F\n", out); fflush(res); _exit(96);
}
static void start(void)
{
    v_init();
    scm_set_fatal_error_callback(flush_dead);
    scm_call_with_gc_ready_stack(hinit, NULL);
    base_used = used();
    serial = 0;
    mk(&g[0]); scm_gc_protect(&g[0]);
    cells_per_obj = used() - base_used;
    scm_gc_unprotect(&g[0]); g[0] = SCM_NULL; serial = 0;
}
void v_eval_case(const char *src, size_t n, char *kind, char **val, size_t *vn, const char **o, size_t *on);

static void history(char *line)
{
    char *t; int i; long blocks0 = 0;
    outn = 0; out[0] = 0;
    for (t = strtok(line, " \n"); t; t = strtok(NULL, " \n")) {
        i = t[1] ? t[1] - '0' : 0;
        switch (t[0]) {
        case 'i': start(); break;
        case 'z': scm_finalize(); ANS(" %ld,%ld", v_blocks, v_files); break;
        case 's': v_setup(); base_used = used(); break;
        case 'a': mk(&g[i]); break;
        case 'q': { ScmObj o; mk(&o); scm_gc_protect_with_init(&g[i], o); } break;
        case 'p': scm_gc_protect(&g[i]); break;
        case 'u': scm_gc_unprotect(&g[i]); break;
        case 'c': used(); break;
        case 'x': wipe(); scm_call_with_gc_ready_stack(churn_, NULL); break;
        case 'd': scm_call_with_gc_ready_stack(hset, (void *)(intptr_t)i); break;
        case 'k': scm_call_with_gc_ready_stack(hclr, (void *)(intptr_t)i); break;
        case 'g': scm_call_with_gc_ready_stack(hget, (void *)(intptr_t)i); break;
        case 'v': ANS(" v%d", (int)(intptr_t)(t[2] ? scm_call_with_gc_ready_stack(prot_, &g[i]) : (void *)(intptr_t)scm_gc_protectedp(g[i]))); break;
        case 'l': ANS(" l%ld", ((long)used() - base_used + cells_per_obj / 2) / cells_per_obj); break;
        case 'r': {
            ScmObj l; long k = 0, s = -1, bad = 0;
            for (l = g[i]; CONSP(l) && k <= OLEN; l = CDR(l), k++) {
                long v = INTP(CAR(l)) ? SCM_INT_VALUE(CAR(l)) : -1;
                if (s < 0) s = v / 1000;
                if (v != s * 1000 + OLEN - 1 - k) bad = 1;
            }
            if (k != OLEN || !NULLP(l)) bad = 1;
            ANS(bad ? " BAD" : " r%ld", s);
            break;
        }
        case 'w': g[t[2] - '0'] = g[i]; break;
        case 'N': serial = 0; break;
        case 'n': ANS(" n%lu", v_mallocs); break;
        case 'M': v_fail_all = 1; /* FALLTHROUGH */
        case 'm': v_mallocs = 0; v_fail_at = strtoul(t + 1, 0, 0); break;
        case 't': blocks0 = v_blocks; break;
        case 'T': ANS(" t%ld", v_blocks - blocks0); break;
        case 'e': {
            static char src[1 << 16]; size_t n = 0; unsigned b; char *h = t + 2, kind, *val; size_t vn, on; const char *o;
            for (; h[0] && h[1] && sscanf(h, "%2x", &b) == 1; h += 2) src[n++] = (char)b;
            src[n] = 0;
            v_eval_case(src, n, &kind, &val, &vn, &o, &on);
            ANS(" %c", kind);
            { size_t k; for (k = 0; k < on; k++) ANS("%02x", o[k] & 0xff); ANS("/"); for (k = 0; k < vn; k++) ANS("%02x", val[k] & 0xff); }
            break;
        }
        default: ANS(" ?%s", t);
        }
    }
}

int v_direct(int argc, char **argv)
{
    static char line[1 << 17];
    (void)argc; (void)argv;
    done = mmap(NULL, sizeof(int), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    fprintf(res, "READY\n"); fflush(res);
    while (fgets(line, sizeof(line), stdin)) {
        if (line[0] == '!') {
            pid_t pid; int st;
            fflush(res);
            *done = 0;
            pid = fork();
            if (!pid) {
                alarm(60);
                history(line + 1); *done = 1; v_fail_at = 0; fprintf(res, "%s .\n", out); fflush(res); _exit(0);
            }
            while (waitpid(pid, &st, 0) < 0) ;
            if (!*done) fprintf(res, "%s %d\n", WIFSIGNALED(st) ? "SIGNAL" : "EXIT", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
        } else {
            history(line);
            fprintf(res, "%s .\n", out);
        }
        fflush(res);
    }
    return 0;
}
