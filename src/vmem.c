/* Every memory request of the library passes here (linker --wrap): counted,
 * accounted and, at one chosen request, refused. */
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include <malloc.h>
#include "vmem.h"

unsigned long v_mallocs;      /* requests so far */
unsigned long v_fail_at;      /* the request that fails (0: none) */
long v_blocks;                /* blocks outstanding */
long v_bytes;                 /* their size */
long v_files;                 /* FILEs outstanding */
size_t v_big;                 /* requests above this many bytes are refused */
int v_failed;
int v_fail_all;                /* all later requests fail, too */

void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
char *__real_strdup(const char *);
int __real_posix_memalign(void **, size_t, size_t);
void *__real_memalign(size_t, size_t);
FILE *__real_fopen(const char *, const char *);
int __real_fclose(FILE *);

static int refuse(size_t size)
{
    if (++v_mallocs == v_fail_at || (v_fail_all && v_fail_at && v_mallocs > v_fail_at) || (v_big && size > v_big)) {
        v_failed = 1;
        errno = ENOMEM;
        return 1;
    }
    return 0;
}
#define SIZE(p) ((long)malloc_usable_size(p))
#define GOT(p) do { if (p) v_blocks++, v_bytes += SIZE(p); } while (0)
void *__wrap_malloc(size_t n)
{
    void *p = refuse(n) ? NULL : __real_malloc(n);
    GOT(p);
    return p;
}
void *__wrap_calloc(size_t n, size_t m)
{
    void *p = refuse(n * m) ? NULL : __real_calloc(n, m);
    GOT(p);
    return p;
}
void *__wrap_realloc(void *q, size_t n)
{
    long old = q ? SIZE(q) : 0;
    void *p;
    if (refuse(n)) return NULL;
    p = __real_realloc(q, n);
    if (!q) GOT(p);
    else if (p) v_bytes += SIZE(p) - old;
    return p;
}
void __wrap_free(void *p)
{
    if (p) v_blocks--, v_bytes -= SIZE(p);
    __real_free(p);
}
char *__wrap_strdup(const char *s)
{
    char *p = refuse(strlen(s) + 1) ? NULL : __real_strdup(s);
    GOT(p);
    return p;
}
int __wrap_posix_memalign(void **p, size_t a, size_t n)
{
    int r = refuse(n) ? ENOMEM : __real_posix_memalign(p, a, n);
    if (!r) GOT(*p);
    return r;
}
void *__wrap_memalign(size_t a, size_t n)
{
    void *p = refuse(n) ? NULL : __real_memalign(a, n);
    GOT(p);
    return p;
}
FILE *__wrap_fopen(const char *n, const char *m)
{
    FILE *f = __real_fopen(n, m);
    if (f) v_files++;
    return f;
}
int __wrap_fclose(FILE *f)
{
    v_files--;
    return __real_fclose(f);
}
