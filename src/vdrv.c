/* Driver: evaluates cases against the real library under a controlled
 * environment (garbage collection schedule, allocation faults, time limit).
 * See DESIGN.md, "The driver". */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <malloc.h>
#include <stdint.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/mman.h>

#include "vdrv.h"
#include "vmem.h"
void *__real_malloc(size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
FILE *__real_fopen(const char *, const char *);
int __real_fclose(FILE *);
#define malloc  __real_malloc       /* the driver's own memory is not the library's */
#define realloc __real_realloc
#define free    __real_free
#define fopen   __real_fopen
#define fclose  __real_fclose

extern int (*scm_verif_alloc_hook)(void);
extern void scm_verif_collect(size_t *used, size_t *total);

/* ---------------------------------------------------------------- options */
struct vopts vo = { "/repo/lib", NULL, 16384, 64, 1, 512, 1000, 5000, NULL, 0, 0 };
FILE *res;              /* results */

/* ------------------------------------------------------------ GC schedule */
unsigned long v_allocs;
static unsigned long gc_period, gc_off;
static unsigned long fault_at; static size_t fault_big; static int m_mode;
static int alloc_hook(void)
{
    unsigned long n = v_allocs++;
    if (gc_period)
        return n % gc_period == gc_off % gc_period;
    return gc_off && n + 1 == gc_off;
}

/* ------------------------------------------------------- current case */
static char *case_buf; static size_t case_len, case_cap;
static char *val_buf; static size_t val_len; static char val_kind;
static int w_mode, r_mode, direct_mode;
static ScmObj run_proc, runr_proc, save_out, case_out, save_in;

static void set_val(char kind, const char *s, size_t n)
{
    free(val_buf);
    val_buf = malloc(n + 1);
    memcpy(val_buf, s, n);
    val_buf[n] = 0;
    val_len = n;
    val_kind = kind;
}

static ScmObj open_ostr(void)
{
    ScmBytePort *bp = ScmOutputStrPort_new(NULL);
    return MAKE_PORT(scm_make_char_port(bp), SCM_PORTFLAG_OUTPUT);
}
static const char *ostr_str(ScmObj port, size_t *len)
{
    ScmBaseCharPort *cp = SCM_CHARPORT_DYNAMIC_CAST(ScmBaseCharPort, SCM_PORT_IMPL(port));
    const char *s = ScmOutputStrPort_str(cp->bport);
    *len = ScmOutputStrPort_c_strlen(cp->bport);
    return s ? s : "";
}

static ScmObj prim_case_port(void)
{
    ScmBytePort *bp;
    if (memchr(case_buf, 0, case_len) || (r_mode == 'R' && case_len)) {
        bp = ScmFilePort_new(fmemopen(case_buf, case_len, "r"), "case");
    } else {
        bp = ScmInputStrPort_new_copying(case_buf, NULL);
    }
    return MAKE_PORT(scm_make_char_port(bp), SCM_PORTFLAG_INPUT);
}
static ScmObj prim_case_string(void)
{
    return MAKE_STRING_COPYING(case_buf, STRLEN_UNKNOWN);
}
static ScmObj prim_done_value(ScmObj v)
{
    ScmObj p = open_ostr();
    const char *s; size_t n;
    if (VALUEPACKETP(v)) {
        ScmObj l;
        scm_port_puts(p, "#values");
#if SCM_USE_VALUECONS
        l = SCM_VALUECONS_CDR(v), scm_port_puts(p, " "), (w_mode == 's' ? scm_write_ss : scm_write)(p, SCM_VALUECONS_CAR(v));
#else
        l = SCM_VALUEPACKET_VALUES(v);
#endif
        for (; CONSP(l); l = CDR(l))
            scm_port_puts(p, " "), (w_mode == 's' ? scm_write_ss : scm_write)(p, CAR(l));
    } else
    switch (w_mode) {
    case 's': scm_write_ss(p, v); break;
    case 'd': scm_display(p, v); break;
    default: scm_write(p, v);
    }
    s = ostr_str(p, &n);
    set_val('V', s, n);
    return SCM_UNDEF;
}
static ScmObj prim_done_error(ScmObj e)
{
    ScmObj p = open_ostr();
    const char *s; size_t n;
    int is_err = !FALSEP(scm_p_error_objectp(e));
    if (is_err)
        scm_display_errobj_ss(p, e);
    else
        scm_write_ss(p, e);
    s = ostr_str(p, &n);
    set_val(is_err ? 'E' : 'R', s, n);
    return SCM_UNDEF;
}
static ScmObj prim_sp(void)
{
    return MAKE_INT((scm_int_t)((uintptr_t)__builtin_frame_address(0) >> 4));
}
static ScmObj prim_gc(void)
{
    size_t u, t;
    scm_verif_collect(&u, &t);
    return MAKE_INT(u);
}
static ScmObj prim_heap(void)
{
    size_t u, t;
    scm_verif_collect(&u, &t);
    return MAKE_INT(t);
}
static ScmObj prim_malloced(void)        /* blocks and files held by the library */
{
    size_t u, t;
    scm_verif_collect(&u, &t);
    return MAKE_INT(v_blocks + v_files);
}
/* usage now -> row I of the table; %growth lists the differences of the rows */
#define N_USAGE 5
static long usage[4][N_USAGE];
static void __attribute__((noinline)) wipe_stack(void)   /* stale words keep objects */
{
    volatile char b[65536];
    memset((char *)b, 0, sizeof(b));
    __asm__ volatile("" : : "r"(b) : "memory");
}
static ScmObj prim_mark(ScmObj i)
{
    size_t u, t; long *r = usage[SCM_INT_VALUE(i) & 3];
    wipe_stack();
    scm_verif_collect(&u, &t);
    r[0] = u; r[1] = v_blocks; r[2] = v_files; r[3] = v_bytes; r[4] = t;
    return SCM_UNDEF;
}
static ScmObj prim_growth(void)
{
    ScmObj r = SCM_NULL, row; int i, j;
    for (i = 3; i > 0; i--) {
        row = SCM_NULL;
        for (j = N_USAGE - 1; j >= 0; j--) row = CONS(MAKE_INT(usage[i][j] - usage[i - 1][j]), row);
        r = CONS(row, r);
    }
    return r;
}
static ScmObj prim_allocs(void)
{
    return MAKE_INT(v_allocs);
}
static ScmObj prim_bytes(ScmObj lst)     /* list of byte values -> string */
{
    char buf[4096]; size_t n = 0;
    for (; CONSP(lst) && n < sizeof(buf) - 1; lst = CDR(lst))
        buf[n++] = (char)SCM_INT_VALUE(CAR(lst));
    buf[n] = 0;
    return MAKE_STRING_COPYING(buf, STRLEN_UNKNOWN);
}
static ScmObj prim_string_bytes(ScmObj str)
{
    const unsigned char *s = (const unsigned char *)SCM_STRING_STR(str);
    size_t i, n = strlen((const char *)s);
    ScmObj r = SCM_NULL;
    for (i = n; i > 0; i--)
        r = CONS(MAKE_INT(s[i - 1]), r);
    return r;
}
/* the file NAME of the current directory (a scratch directory of this process) */
static ScmObj prim_spit(ScmObj name, ScmObj bytes)
{
    const char *n = SCM_STRING_STR(name);
    FILE *f;
    if (n[0] == '/' || strstr(n, "..") || !(f = fopen(n, "w"))) return SCM_FALSE;
    for (; CONSP(bytes); bytes = CDR(bytes))
        fputc((int)SCM_INT_VALUE(CAR(bytes)), f);
    fclose(f);
    return SCM_TRUE;
}
static ScmObj prim_slurp(ScmObj name)
{
    const char *n = SCM_STRING_STR(name);
    FILE *f = strchr(n, '/') ? NULL : fopen(n, "r");
    unsigned char *b; size_t len, i; ScmObj r = SCM_NULL;
    if (!f) return SCM_FALSE;
    b = malloc(1 << 20);
    len = fread(b, 1, 1 << 20, f);
    fclose(f);
    for (i = len; i > 0; i--) r = CONS(MAKE_INT(b[i - 1]), r);
    free(b);
    return r;
}
static ScmObj prim_evalc(ScmObj str)
{
    return scm_eval_c_string(SCM_STRING_STR(str));
}
static ScmObj prim_bound(void)           /* list of all bound symbols */
{
    ScmObj r = SCM_NULL, l;
    size_t i;
    for (i = 0; i < scm_symbol_hash_size; i++)
        for (l = scm_symbol_hash[i]; CONSP(l); l = CDR(l))
            if (!EQ(SCM_SYMBOL_VCELL(CAR(l)), SCM_UNBOUND))
                r = CONS(CAR(l), r);
    return r;
}
static const struct scm_func_registration_info prims[] = {
    { "%case-port", (ScmFuncType)prim_case_port, SCM_PROCEDURE_FIXED_0 },
    { "%case-string", (ScmFuncType)prim_case_string, SCM_PROCEDURE_FIXED_0 },
    { "%done-value", (ScmFuncType)prim_done_value, SCM_PROCEDURE_FIXED_1 },
    { "%done-error", (ScmFuncType)prim_done_error, SCM_PROCEDURE_FIXED_1 },
    { "%sp", (ScmFuncType)prim_sp, SCM_PROCEDURE_FIXED_0 },
    { "%live", (ScmFuncType)prim_gc, SCM_PROCEDURE_FIXED_0 },
    { "%heap", (ScmFuncType)prim_heap, SCM_PROCEDURE_FIXED_0 },
    { "%malloced", (ScmFuncType)prim_malloced, SCM_PROCEDURE_FIXED_0 },
    { "%mark", (ScmFuncType)prim_mark, SCM_PROCEDURE_FIXED_1 },
    { "%growth", (ScmFuncType)prim_growth, SCM_PROCEDURE_FIXED_0 },
    { "%allocs", (ScmFuncType)prim_allocs, SCM_PROCEDURE_FIXED_0 },
    { "%bytes", (ScmFuncType)prim_bytes, SCM_PROCEDURE_FIXED_1 },
    { "%string-bytes", (ScmFuncType)prim_string_bytes, SCM_PROCEDURE_FIXED_1 },
    { "%spit", (ScmFuncType)prim_spit, SCM_PROCEDURE_FIXED_2 },
    { "%slurp", (ScmFuncType)prim_slurp, SCM_PROCEDURE_FIXED_1 },
    { "%evalc", (ScmFuncType)prim_evalc, SCM_PROCEDURE_FIXED_1 },
    { "%bound", (ScmFuncType)prim_bound, SCM_PROCEDURE_FIXED_0 },
    { "%c-api", (ScmFuncType)v_api, SCM_PROCEDURE_FIXED_0 },
    { NULL, NULL, SCM_FUNCTYPE_INVALID }
};

/* ------------------------------------------------------------------ limits */
static volatile int *answered;      /* by the forked copy; shared with it */
static void on_prof(int sig)
{
    *answered = 1;
    static const char m[] = "H 0 0 0\n\n";
    (void)sig;
    fflush(res);
    if (write(fileno(res), m, sizeof(m) - 1) < 0) {}
    _exit(97);
}
static void set_limit(long ms)
{
    struct itimerval it;
    memset(&it, 0, sizeof(it));
    it.it_value.tv_sec = ms / 1000;
    it.it_value.tv_usec = ms % 1000 * 1000;
    setitimer(ITIMER_PROF, &it, NULL);
}
static void on_fatal(void)
{
    *answered = 1;
    fflush(res);
    if (write(fileno(res), "F 0 0 0\n\n", 9) < 0) {}
    fflush(stderr);
    _exit(96);
}

/* -------------------------------------------------------------- interpreter */
void v_load_file(const char *path)
{
    scm_load(path);
}

void v_init(void)
{
    ScmStorageConf conf;
    const char *argv[8]; int n = 0;
    conf.heap_size = vo.heap_size;
    conf.heap_alloc_threshold = vo.heap_threshold;
    conf.n_heaps_max = vo.n_heaps_max;
    conf.n_heaps_init = vo.n_heaps_init;
    conf.symbol_hash_size = vo.hash_size;
    argv[n++] = "vdrv";
    argv[n++] = "--system-load-path";
    argv[n++] = vo.lib;
    if (vo.enc) {
        argv[n++] = "-C";
        argv[n++] = vo.enc;
    }
    argv[n] = NULL;
    scm_initialize(&conf, argv);
}

static void *setup(void *arg)
{
    int i;
    char cwd[4096];
    (void)arg;
    if (getcwd(cwd, sizeof(cwd))) scm_set_lib_path(cwd);
    scm_require_module("srfi-34");
    scm_require_module("srfi-6");
    scm_require_module("srfi-38");
    scm_register_funcs(prims);
    for (i = 0; i < vo.n_files; i++)
        scm_load(vo.files[i]);
    scm_gc_protect_with_init(&run_proc, scm_symbol_value(scm_intern("%run"), SCM_INTERACTION_ENV));
    scm_gc_protect_with_init(&runr_proc, scm_symbol_value(scm_intern("%runr"), SCM_INTERACTION_ENV));
    scm_gc_protect_with_init(&save_out, scm_out);
    scm_gc_protect_with_init(&save_in, scm_in);
    scm_gc_protect_with_init(&case_out, SCM_NULL);
    return NULL;
}
void v_setup(void) { scm_call_with_gc_ready_stack(setup, NULL); }

static void *do_case(void *arg)
{
    (void)arg;
    case_out = open_ostr();
    scm_out = case_out;
    /* standard input is the driver's */
    scm_in = MAKE_PORT(scm_make_char_port(ScmInputStrPort_new_copying("in (x y) 5", NULL)), SCM_PORTFLAG_INPUT);
    v_allocs = 0;
    if (!direct_mode) {
        v_mallocs = 0;
        v_failed = 0;
        v_fail_at = fault_at;
        v_big = fault_big;
        scm_verif_alloc_hook = alloc_hook;
    }
    scm_call(r_mode ? runr_proc : run_proc, SCM_NULL);
    if (!direct_mode) {
        scm_verif_alloc_hook = NULL;
        v_fail_at = v_big = 0;
    }
    return NULL;
}
static void run_case(void)
{
    const char *o; size_t on;
    set_val('?', "", 0);
    scm_call_with_gc_ready_stack(do_case, NULL);
    o = ostr_str(case_out, &on);
    fprintf(res, "%c %lu %zu %zu\n", val_kind, m_mode ? v_mallocs : v_allocs, on, val_len);
    fwrite(o, 1, on, res);
    fwrite(val_buf, 1, val_len, res);
    fputc('\n', res);
    scm_out = save_out;
    case_out = SCM_NULL;
}

void v_eval_case(const char *src, size_t n, char *kind, char **val, size_t *vn, const char **o, size_t *on)
{
    if (case_cap < n + 1) case_buf = realloc(case_buf, case_cap = n * 2 + 64);
    memcpy(case_buf, src, n); case_buf[n] = 0; case_len = n;
    w_mode = 'w'; r_mode = 0; fault_at = 0; gc_period = gc_off = 0;
    set_val('?', "", 0);
    scm_call_with_gc_ready_stack(do_case, NULL);
    *o = ostr_str(case_out, on);
    scm_out = save_out; scm_in = save_in;
    case_out = SCM_NULL;
    *kind = val_kind; *val = val_buf; *vn = val_len;
}

static void serve(void)
{
    char line[256], flags[32];
    unsigned long period, off, len;
    while (fgets(line, sizeof(line), stdin)) {
        int do_fork; long ms = vo.limit_ms;
        if (sscanf(line, "E %31s %lu %lu %lu", flags, &period, &off, &len) != 4) {
            fprintf(stderr, "vdrv: bad command %s", line);
            exit(95);
        }
        if (case_cap < len + 1)
            case_buf = realloc(case_buf, case_cap = len * 2 + 64);
        if (fread(case_buf, 1, len, stdin) != len)
            exit(95);
        case_buf[len] = 0;
        case_len = len;
        fgetc(stdin);
        /* flag m: request number PERIOD is refused (requests are reported instead of
         * allocations); B: requests above PERIOD bytes are refused */
        m_mode = !!strchr(flags, 'm') || strchr(flags, 'M');      /* M: and all later ones */
        v_fail_all = !!strchr(flags, 'M');
        fault_big = strchr(flags, 'B') ? period : 0;
        fault_at = m_mode && !fault_big ? period : 0;
        gc_period = m_mode || fault_big ? 0 : period; gc_off = off;
        w_mode = strchr(flags, 's') ? 's' : strchr(flags, 'd') ? 'd' : 'w';
        r_mode = strchr(flags, 'r') ? 'r' : strchr(flags, 'R') ? 'R' : 0;
        do_fork = !!strchr(flags, 'f');
        if (strchr(flags, 'L')) ms *= 10;
        if (do_fork) {
            pid_t pid; int st;
            fflush(res);
            fflush(stderr);
            *answered = 0;
            pid = fork();
            if (pid < 0) { perror("fork"); exit(95); }
            if (!pid) {
                set_limit(ms);
                run_case();
                *answered = 1;
                fflush(res);
                _exit(0);
            }
            while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
            if (WIFSIGNALED(st)) {
                fprintf(res, "S %d 0 0\n\n", WTERMSIG(st));
            } else if (!*answered || (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 96 && WEXITSTATUS(st) != 97)) {
                fprintf(res, "X %d 0 0\n\n", WEXITSTATUS(st));
            }
            fflush(res);
        } else {
            set_limit(ms);
            run_case();
            set_limit(0);
            fflush(res);
        }
    }
    fflush(res);
}

int main(int argc, char **argv)
{
    int i, fd;
    static const char *files[32];
    vo.files = files;
    for (i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--lib")) vo.lib = argv[++i];
        else if (!strcmp(argv[i], "--enc")) vo.enc = argv[++i];
        else if (!strcmp(argv[i], "--heap")) vo.heap_size = strtoul(argv[++i], 0, 0);
        else if (!strcmp(argv[i], "--heaps-max")) vo.n_heaps_max = strtoul(argv[++i], 0, 0);
        else if (!strcmp(argv[i], "--heaps-init")) vo.n_heaps_init = strtoul(argv[++i], 0, 0);
        else if (!strcmp(argv[i], "--threshold")) vo.heap_threshold = strtoul(argv[++i], 0, 0);
        else if (!strcmp(argv[i], "--limit")) vo.limit_ms = strtol(argv[++i], 0, 0);
        else if (!strcmp(argv[i], "--file")) files[vo.n_files++] = argv[++i];
        else if (!strcmp(argv[i], "--flush")) vo.flush = 1;
        else break;
    }
    fd = dup(1);
    res = fdopen(fd, "w");
    setvbuf(res, NULL, _IOFBF, 1 << 16);
    if (!freopen("/dev/null", "w", stdout)) {}
    answered = mmap(NULL, sizeof(int), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (answered == MAP_FAILED) { perror("mmap"); return 95; }
    signal(SIGPROF, on_prof);
    signal(SIGPIPE, SIG_IGN);
    if (i < argc && strcmp(argv[i], "serve"))
        return direct_mode = 1, v_direct(argc - i, argv + i);
    v_init();
    scm_set_fatal_error_callback(on_fatal);
    v_setup();
    fprintf(res, "READY\n");
    fflush(res);
    serve();
    return 0;
}
