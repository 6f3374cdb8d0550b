#ifndef VMEM_H
#define VMEM_H
#include <stddef.h>
extern unsigned long v_mallocs, v_fail_at;
extern long v_bytes, v_blocks, v_files;
extern size_t v_big;
extern int v_failed, v_fail_all;
#endif
