/* Harness API: implemented symbolically by engine/irsym and natively by harness/vf_native.c */
#ifndef VF_H
#define VF_H
#include <stddef.h>
int    vf_param   (const char *name, int deflt);               /* concrete scenario parameter */
float  vf_sym     (const char *name, int idx);                 /* symbolic real input         */
float  vf_uf      (const char *name, float x);                 /* uninterpreted function      */
float  vf_uf2     (const char *name, float x, float y);
void  *vf_alloc   (size_t nbytes, int misalign);               /* buffer of exactly nbytes; address = 64*odd + misalign */
void   vf_readonly(const void *p, int on);                     /* writes into the buffer become violations */
void   vf_check_eq(const char *tag, int idx, float got, float want);
void   vf_check   (const char *tag, int cond);
void   vf_assume  (int cond);
void   vf_mark    (const char *tag);
int    vf_heap_live(void);
void   harness(void);
#endif
