#ifndef VDRV_H
#define VDRV_H
#include <config.h>
#include "sigscheme.h"
#include "sigschemeinternal.h"
#include "scmport.h"
#include "scmport-config.h"
#include "scmport-mbchar.h"
#include "scmport-str.h"
#include "scmport-file.h"
struct vopts {
    const char *lib, *enc;
    size_t heap_size, n_heaps_max, n_heaps_init, hash_size, heap_threshold;
    long limit_ms;
    const char **files;
    int n_files;
    int flush;
};
extern struct vopts vo;
extern FILE *res;
extern unsigned long v_allocs;
void v_init(void);
ScmObj v_api(void);
void v_setup(void);
int v_direct(int argc, char **argv);
#endif
